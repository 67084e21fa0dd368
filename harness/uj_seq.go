package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"reflect"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"pgregory.net/rapid"
)

// SeqStep is a case of another sub-check.
type SeqStep struct {
	Prop string          `json:"prop"`
	Sub  string          `json:"sub"`
	Case json.RawMessage `json:"case"`
}

// SeqCase is a history of library calls in one process: the verdict of a step
// must not depend on the steps before it.
type SeqCase struct {
	Steps []SeqStep `json:"steps"`
}

func step(prop, sub string, c interface{}) SeqStep { return SeqStep{prop, sub, mustJSON(c)} }

// quietly runs a step of another property: its verdict is not ours.
func quietly(f func() error) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(harnessBug); ok || isRapidPanic(p) {
				panic(p)
			}
		}
	}()
	f()
}

func checkSeq(prop string) func(c SeqCase, r *Rec) error {
	return func(c SeqCase, r *Rec) error {
		mine := 0
		for i, st := range c.Steps {
			s := findSub(st.Prop, st.Sub)
			if s == nil {
				panic(harnessBug{fmt.Errorf("no sub-check %s/%s", st.Prop, st.Sub)})
			}
			x, err := s.decode(st.Case)
			if err != nil {
				panic(harnessBug{err})
			}
			if st.Prop != prop {
				quietly(func() error { return s.check(x, &Rec{}) })
				continue
			}
			var sr Rec
			err = s.check(x, &sr)
			if err == errSkipCase {
				continue
			}
			if err != nil {
				return errf("step %d of %d (%s): %v", i+1, len(c.Steps), st.Sub, err)
			}
			if sr.nontrivial {
				mine++
			}
		}
		r.NonTrivial(mine > 1)
		return nil
	}
}

// related makes a type that is easily mistaken for t.
func (g G) related(t TSpec, o typeOpts) TSpec {
	wrap := func(k string) TSpec {
		e := t
		return TSpec{K: k, Len: g.rng(0, 3), Key: &TSpec{K: "string"}, Elem: &e}
	}
	switch g.n(9) {
	case 0:
		return t
	case 1:
		return wrap("ptr")
	case 2:
		return wrap("slice")
	case 3:
		return wrap("array")
	case 4:
		return wrap("map")
	case 5:
		if t.Elem != nil {
			return *t.Elem
		}
		return TSpec{K: "struct", F: []FSpec{{Name: "A", T: t}, {Name: "B", T: TSpec{K: "int"}}}}
	}
	if t.K != "struct" || len(t.F) == 0 {
		if l := library[t.K]; l != nil && o.cat != "method" {
			return TSpec{K: "Same" + pick(g, "0", "0", "6", "6", "1", "2", "3", "4", "5")}
		}
		return *g.lib(o.cat)
	}
	return g.relatedStruct(t, o)
}

// relatedStruct changes a detail of a struct type.
func (g G) relatedStruct(t TSpec, o typeOpts) TSpec {
	if len(t.F) == 0 {
		return t
	}
	for _, f := range t.F {
		if o.cat != "tags" && (f.Emb || f.Hidden) {
			// any change may expose members of one name at one depth
			return t
		}
	}
	n := t
	n.F = append([]FSpec{}, t.F...)
	i, j := g.n(len(n.F)), g.n(len(n.F))
	h := fnv.New32a() // a name no other member has
	h.Write(mustJSON(t))
	name := fmt.Sprintf("z%x-%d", h.Sum32(), i)
	free := func(f FSpec) bool { return !f.Emb && !f.Hidden && !strings.Contains(string(f.Tag), "-") }
	switch g.n(6) {
	case 0:
		n.F[i], n.F[j] = n.F[j], n.F[i]
	case 1:
		n.F = append(n.F[:i], n.F[i+1:]...)
	case 2:
		if free(n.F[i]) && free(n.F[j]) && !strings.Contains(string(n.F[i].Tag+n.F[j].Tag), ",") &&
			n.F[i].Tag != "" && n.F[j].Tag != "" && !strings.Contains(string(n.F[i].Tag+n.F[j].Tag), `""`) {
			n.F[i].Tag, n.F[j].Tag = n.F[j].Tag, n.F[i].Tag
		}
	case 3:
		if free(n.F[i]) {
			n.F[i].Tag = Q(o.tagKey + `:"` + name + `"`)
		}
	case 4:
		if free(n.F[i]) {
			opts := pick(g, "", ",omitempty")
			if k := n.F[i].T.typ(false).Kind(); k == reflect.Struct || k == reflect.Array || k == reflect.Ptr {
				opts = ""
			}
			n.F[i].Tag = Q(o.tagKey + `:"` + name + opts + `"`)
		}
	case 5:
		if o.cat != "tags" && free(n.F[i]) && !strings.Contains(string(n.F[i].Tag), ",") {
			n.F[i].T = g.related(n.F[i].T, o)
		}
	}
	return n
}

func genSeq(base func(g G) TSpec, o typeOpts, vo valOpts, enc, dec [2]string) func(t *rapid.T) SeqCase {
	return func(t *rapid.T) SeqCase {
		g := G{t}
		var c SeqCase
		types := []TSpec{base(g)}
		if g.p(1, 4) {
			types[0] = TSpec{K: "Same" + pick(g, "0", "0", "6", "6", "1", "2", "3", "4", "5")}
		}
		for n := g.rng(2, 6); n > 0; n-- {
			ts := types[g.n(len(types))]
			if len(c.Steps) > 0 && g.p(2, 3) {
				ts = g.related(ts, o)
				types = append(types, ts)
			}
			if rt := ts.typ(false); o.cat != "method" && rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Uint8 {
				continue // written differently by encoding/json
			}
			switch g.n(5) {
			case 0, 1:
				v := vo
				v.zeroProb = pick(g, 0, 2)
				c.Steps = append(c.Steps, step(enc[0], enc[1], EncCase{T: ts, Ptr: g.p(1, 2), V: g.val(ts.typ(false), v, 4)}))
			case 2, 3:
				c.Steps = append(c.Steps, step(dec[0], dec[1], genDecOf(g, ts, o, docGen{noise: true, dups: dec[0] == "C18"}, 3)))
			default:
				if enc[0] == "C22" {
					c.Steps = append(c.Steps, step(dec[0], dec[1], genDecOf(g, ts, o, docGen{noise: true, wrong: pick(g, 60, 200)}, 3)))
					break
				}
				d := genDecOf(g, ts, o, docGen{noise: true, wrong: pick(g, 30, 100, 300)}, 3)
				d.Next, d.Bad = "", ""
				sub := "mismatch"
				if g.p(1, 2) {
					sub = "malformed"
					d.Text = Q(sanitize(g.mutate(string(d.Text)) + pick(g, "", "", "x", " 1", "}", "null")))
				}
				c.Steps = append(c.Steps, step("C20", sub, d))
			}
		}
		return c
	}
}

// ---- the pool of documents under the library's own use of it ----

// PoolStep is one use of the library, or of a document of one's own.
type PoolStep struct {
	Op   byte `json:"op"` // t: take, p: parse into a taken one, c: close a taken one, others: library calls
	I    int  `json:"i,omitempty"`
	Text Q    `json:"text,omitempty"`
}

// PoolCase is a history of documents taken from the default pool.
type PoolCase struct {
	Steps []PoolStep `json:"steps"`
}

type poolTarget struct {
	A int               `json:"a"`
	B string            `json:"b"`
	C []poolTarget      `json:"c"`
	D map[string]string `json:"d"`
	N *poolNested       `json:"n"`
}

// poolNested decodes itself with the library, out of whatever it is given.
type poolNested struct{ X interface{} }

func (n *poolNested) UnmarshalJSON(b []byte) error {
	return unjson.Unmarshal(b, &n.X)
}

type heldDoc struct {
	d     *njson.Document
	nodes []njson.Node
	want  []string
}

func (h *heldDoc) check() error {
	for i, n := range h.nodes {
		out, err := n.AppendJSON(nil)
		if err != nil || string(out) != h.want[i] {
			return errf("value %d of a document in use reads %s, %v instead of %s", i, short(string(out)), err, short(h.want[i]))
		}
	}
	return nil
}

func checkPools(c PoolCase, r *Rec) error {
	var held []*heldDoc
	defer func() {
		for _, h := range held {
			h.d.Close()
		}
	}()
	uses, calls := 0, 0
	for i, st := range c.Steps {
		what := fmt.Sprintf("step %d (%c)", i+1, st.Op)
		switch st.Op {
		case 't':
			d := njson.Blank()
			for _, h := range held {
				if h.d == d {
					return errf("%s: Blank gives a document that is already in use", what)
				}
			}
			if t := d.Root().Type(); t != njson.TypeInvalid {
				return errf("%s: a blank document holds a value of type %v", what, t)
			}
			if out, err := d.AppendJSON(nil); err == nil {
				return errf("%s: a blank document serialises to %s", what, out)
			}
			held = append(held, &heldDoc{d: d})
		case 'p', 'c':
			if len(held) == 0 {
				continue
			}
			k := st.I % len(held)
			h := held[k]
			if st.Op == 'c' {
				held = append(held[:k:k], held[k+1:]...)
				h.d.Close()
				for _, n := range h.nodes {
					if n.Type() != njson.TypeInvalid {
						return errf("%s: a node of a closed document is still alive", what)
					}
				}
				break
			}
			n, _, err := h.d.Parse(string(st.Text))
			if valid := json.Valid([]byte(st.Text)); valid != (err == nil) {
				return errf("%s: Parse(%q): %v", what, st.Text, err)
			}
			if err == nil {
				if len(h.nodes) == 0 && n.ID() != 0 && len(h.want) == 0 && h.d.Root().ID() != 0 {
					return errf("%s: the first value of a blank document is node %d", what, n.ID())
				}
				h.nodes = append(h.nodes, n)
				h.want = append(h.want, mustRef(string(st.Text)).text())
				uses++
			}
		case 'u', 'f', 'i':
			calls++
			var x interface{} = &poolTarget{}
			if st.Op == 'i' {
				x = new(interface{})
			}
			var err error
			if st.Op == 'f' {
				err = unjson.UnmarshalFromString(string(st.Text), x)
			} else {
				err = unjson.Unmarshal([]byte(st.Text), x)
			}
			if st.Op == 'i' {
				var want interface{}
				werr := json.Unmarshal([]byte(st.Text), &want)
				if err != nil && werr == nil {
					return errf("%s: Unmarshal(%q): %v, encoding/json: %v", what, st.Text, err, werr)
				}
			}
		case 'n': // decode from a node of a document in use, whose own methods use the library
			if len(held) == 0 {
				continue
			}
			h := held[st.I%len(held)]
			if len(h.nodes) == 0 {
				continue
			}
			calls++
			var n poolNested
			if err := unjson.UnmarshalFromNode(h.nodes[st.I%len(h.nodes)], &n); err != nil {
				return errf("%s: UnmarshalFromNode: %v", what, err)
			}
		}
		for k, h := range held {
			if err := h.check(); err != nil {
				return errf("%s: document %d: %v", what, k, err)
			}
		}
	}
	r.NonTrivial(uses > 1 && calls > 0)
	r.Label(len(held) > 3, "over 3 documents at once")
	return nil
}

func (g G) poolText() string {
	s := pick(g, `{"a":1,"b":"x","c":[{"a":2},{"b":"y","c":[]}],"d":{"k":"v"}}`, `{"n":{"deep":[1,2,{"n":[]}]},"a":7}`, `{"a":"wrong"}`, `{"c":[{"a":1},3]}`, `{"n":[1,[2,[3]]],"d":{"a":"b"}}`, `[]`, `1`, `"x"`, `null`)
	if g.p(1, 3) {
		s = g.anyDoc(simpleDoc, 3)
	}
	switch g.n(8) {
	case 0:
		s += pick(g, "x", "1", "{}", "]", "}", ",")
	case 1:
		s = s[:g.n(len(s))]
	case 2:
		s = pick(g, "{\"n\":", "[", "{\"c\":[") + s + pick(g, "", "]", "}", "]}")
	}
	return s
}

func init() {
	what := "histories of 2-6 calls on types that are easily mistaken for each other (same names, other tags, members swapped, wrapped), each with the outcome it has alone; non-trivial: at least two steps are non-trivial cases of this property"
	plain := plainTypes()
	plain.bytes = false
	base := func(g G) TSpec {
		if g.p(1, 4) {
			return *g.lib("plain")
		}
		return g.structType(plain, 2)
	}
	c17, c18 := [2]string{"C17", "plain"}, [2]string{"C18", "plain"}
	reg("C17", "sequence", what, 2500, 100000, genSeq(base, plain, valOpts{}, c17, c18), checkSeq("C17"))
	reg("C18", "sequence", what, 2500, 100000, genSeq(base, plain, valOpts{}, c17, c18), checkSeq("C18"))
	reg("C20", "sequence", what, 1000, 100000, genSeq(base, plain, valOpts{}, c17, c18), checkSeq("C20"))
	method := plainTypes()
	method.bytes, method.cat, method.libProb, method.ifaces, method.textKeys = false, "method", 5, true, []string{"TInt", "TKey"}
	mbase := func(g G) TSpec {
		if g.p(1, 2) {
			return *g.lib("method")
		}
		return g.structType(method, 1)
	}
	reg("C22", "sequence", what, 1500, 100000, genSeq(mbase, method, valOpts{validUTF8: true, ifaceCat: "method"}, [2]string{"C22", "encode"}, [2]string{"C22", "decode"}), checkSeq("C22"))

	reg("C21", "sequence", "one struct type under 2-5 sets of options in turn, each with the outcome it has alone; non-trivial: at least two steps are non-trivial", 2500, 100000, func(t *rapid.T) SeqCase {
		g := G{t}
		var c SeqCase
		ts := g.optStruct(pick(g, "json", "njson", "bson"))
		for n := g.rng(2, 5); len(c.Steps) < n; {
			if len(c.Steps) > 0 && g.p(1, 4) {
				o := typeOpts{tagKey: pick(g, "json", "njson", "bson"), cat: "tags", libProb: 1}
				ts = g.relatedStruct(ts, o)
			}
			oc := g.optCase(ts, pick(g, "json", "", "njson", "bson"))
			c.Steps = append(c.Steps, step("C21", "options", oc))
		}
		return c
	}, checkSeq("C21"))

	reg("C04", "pools", "histories of 3-40 steps that take documents from the default pool, parse into them and close them while the library decodes valid, malformed, mismatched and trailing texts, also from inside unmarshalers; non-trivial: at least two values parsed and one library call made", 12000, 400000, func(t *rapid.T) PoolCase {
		g := G{t}
		var c PoolCase
		for n := g.rng(3, 40); len(c.Steps) < n; {
			st := PoolStep{Op: pick[byte](g, 't', 't', 'p', 'p', 'p', 'c', 'u', 'f', 'i', 'n'), I: g.n(20)}
			switch st.Op {
			case 'p':
				st.Text = Q(g.anyDoc(simpleDoc, 3))
			case 'u', 'f', 'i':
				st.Text = Q(g.poolText())
			}
			c.Steps = append(c.Steps, st)
		}
		return c
	}, checkPools)
}
