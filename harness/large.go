package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"strings"
	"unsafe"

	"github.com/alxarch/njson"
	"pgregory.net/rapid"
)

// Big is a short description of a large JSON text.
type Big struct {
	K    string `json:"k"`             // lit str num arr obj nest ws
	N    int    `json:"n,omitempty"`   // repetitions
	S    Q      `json:"s,omitempty"`   // the text repeated, $ is the index
	Pre  Q      `json:"pre,omitempty"` // before the repetitions
	Post Q      `json:"post,omitempty"`
	Kid  *Big   `json:"kid,omitempty"`
}

func (v *Big) write(b *strings.Builder) {
	rep := func(sep string) {
		dollar := strings.Contains(string(v.S), "$")
		for i := 0; i < v.N; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			if dollar {
				b.WriteString(strings.ReplaceAll(string(v.S), "$", strconv.Itoa(i)))
			} else {
				b.WriteString(string(v.S))
			}
		}
	}
	kid := func() {
		if v.Kid != nil {
			v.Kid.write(b)
		} else {
			b.WriteString("null")
		}
	}
	switch v.K {
	case "str":
		b.WriteString(`"` + string(v.Pre))
		rep("")
		b.WriteString(string(v.Post) + `"`)
	case "num":
		b.WriteString(string(v.Pre))
		rep("")
		b.WriteString(string(v.Post))
	case "ws":
		rep("")
		kid()
		rep("")
	case "arr":
		b.WriteString("[")
		rep(",")
		if v.N > 0 {
			b.WriteString(",")
		}
		kid()
		b.WriteString("]")
	case "obj":
		b.WriteString("{")
		rep(",")
		if v.N > 0 {
			b.WriteString(",")
		}
		b.WriteString(`"` + string(v.Pre) + `":`)
		kid()
		b.WriteString("}")
	case "nest":
		for i := 0; i < v.N; i++ {
			b.WriteString(string(v.Pre))
		}
		kid()
		for i := 0; i < v.N; i++ {
			b.WriteString(string(v.Post))
		}
	default:
		b.WriteString(string(v.S))
	}
}

func (v *Big) text() string {
	var b strings.Builder
	v.write(&b)
	return b.String()
}

// near gives a size around a power of two, up to max.
func (g G) near(max int) int {
	if g.p(1, 5) {
		return 1 + g.n(max)
	}
	bits := 0
	for 1<<bits <= max {
		bits++
	}
	n := 1<<uint(g.rng(6, bits)) + g.n(5) - 2
	if n > max {
		n = max
	}
	return n
}

func (g G) bigLit(size int) *Big {
	max := size
	switch g.n(3) {
	case 0:
		return &Big{K: "lit", S: Q(pick(g, "null", "true", "[]", "{}", `""`, "-0", "1e5", `"a\"b"`, `{"a":[1]}`))}
	case 1:
		// long strings: plain or escaped runs with a change at either end
		return &Big{K: "str", N: g.near(max), S: Q(pick(g, "a", "é", `\"`, `\\`, `\n`, `\u00e9`, `\ud83d\ude00`, "ab\\\"", "日", "\U0001f600")), Pre: Q(pick(g, "", "", `\"`, `\\`, "é", "a")), Post: Q(pick(g, "", "", `\"`, `\\`, "é", "a", `\\\"`, "]", "}"))}
	default:
		n := g.near(max)
		if n > 2000 {
			n = 2000
		}
		return &Big{K: "num", N: n, S: Q(pick(g, "1", "9", "0")), Pre: Q(pick(g, "1", "-2", "0.", "1.", "0.5")), Post: Q(pick(g, "", "", "e5", "e-300", "E+12", "1"))}
	}
}

// big draws a description: at least one dimension is large.
func (g G) big(depth, size int) *Big {
	k := g.n(8)
	if depth <= 0 && k > 1 {
		k = 0
	}
	v := &Big{}
	switch {
	case k <= 1:
		return g.bigLit(size)
	case k <= 3:
		*v = Big{K: "arr", N: g.near(size), S: Q(pick(g, "$", "[$]", "null", `"$"`, "0", `{"a":$}`, "[]", `{}`, `"\"$"`, "[[$],{}]", "\n$ "))}
	case k <= 5:
		*v = Big{K: "obj", N: g.near(size), S: Q(pick(g, `"k$":$`, `"k$":[]`, `"a":$`, `"$":{"a":$}`, `"\"$":null`, `"":"$"`, `"a":[$],"b$":{}`)), Pre: Q(pick(g, "last", "a", "", `\"`, "k1"))}
	case k == 6:
		n := g.near(8000)
		if n > size {
			n = size
		}
		*v = Big{K: "nest", N: n, Pre: "[", Post: "]"}
		switch g.n(5) {
		case 0:
			v.Pre, v.Post = `{"a":`, "}"
		case 1:
			v.Pre, v.Post, v.N = `[{"a":`, "}]", v.N/2
		case 2:
			v.Pre, v.Post = `[1,`, ",2]"
		case 3:
			v.Pre, v.Post, v.N = "[[],\n[", ` ] , {"b":0}]`, v.N/2
		}
		if g.p(1, 2) {
			v.Kid = &Big{K: "lit", S: Q(pick(g, "1", `"x"`, "[]", "{}"))}
			return v
		}
		v.Kid = g.big(0, 5000) // nesting stays below the reference's limit
		return v
	default:
		*v = Big{K: "ws", N: g.near(size), S: Q(pick(g, " ", "\n", "\t", "\r\n", " \n"))}
	}
	rest := size - v.N
	if rest < 64 {
		rest = 64
	}
	v.Kid = g.big(depth-1, rest)
	return v
}

func bigNodes(s string) (n int) {
	mustRef(s).walk(func(*JV) { n++ })
	return
}

// BigCase is a large document, possibly cut or spoiled at Cut bytes from the end.
type BigCase struct {
	Doc  *Big   `json:"doc"`
	Cut  int    `json:"cut,omitempty"`
	Ins  Q      `json:"ins,omitempty"`
	More []*Big `json:"more,omitempty"`
}

func genBig(size int) func(t *rapid.T) BigCase {
	return func(t *rapid.T) BigCase {
		g := G{t}
		if size > 70000 && !g.p(1, 4) {
			return BigCase{Doc: g.big(2, 5000)}
		}
		return BigCase{Doc: g.big(2, size)}
	}
}

func call(prop, name string, c interface{}, r *Rec) error {
	return findSub(prop, name).check(c, r)
}

func checkBigText(prop, name string) func(c BigCase, r *Rec) error {
	return func(c BigCase, r *Rec) error {
		s := c.Doc.text()
		if err := call(prop, name, TextCase{Q(s)}, &Rec{}); err != nil {
			return errf("%s: %v", mustJSON(c), short(err.Error()))
		}
		bigLabels(s, r)
		return nil
	}
}

func bigLabels(s string, r *Rec) {
	k := bigNodes(s)
	r.NonTrivial(len(s) > 2048)
	r.Label(k > 1<<12, "nodes>4096")
	r.Label(k > 1<<16, "nodes>65536")
	r.Label(len(s) > 1<<16, "len>65536")
	r.Label(mustRef(s).depth() > 1000, "deep>1000")
}

func init() {
	const what = "large documents (up to 70000 and more elements or members, strings up to 200 kB, 8000 levels, 2000-digit numbers, sizes near powers of two)"
	reg("C01", "large", what+"; non-trivial: over 2048 bytes", 1200, 30000, genBig(140000), checkBigText("C01", "lossless"))
	reg("C02", "large", what+" cut near the end, or with a spoiled byte near the end; non-trivial: over 2048 bytes and not a valid document any more",
		1200, 30000, func(t *rapid.T) BigCase {
			g := G{t}
			c := BigCase{Doc: g.big(2, 20000), Cut: 1 + g.n(pick(g, 3, 20, 2000, 20000))}
			if g.p(1, 2) {
				c.Ins = Q(pick(g, "x", ",", "}", "]", ":", `"`, `\`, "1", " ", "{", "\x00"))
			}
			return c
		}, func(c BigCase, r *Rec) error {
			s := c.Doc.text()
			cut := len(s) - c.Cut%(len(s)+1)
			if c.Ins != "" {
				s = s[:cut] + string(c.Ins) + s[cut:]
			} else {
				s = s[:cut]
			}
			in := &Rec{}
			if err := checkMalformed(s, `{"a":[1,{"b":"c"}],"d":null}`, in); err != nil {
				return errf("%s: %v", mustJSON(c), short(err.Error()))
			}
			r.NonTrivial(len(s) > 2048 && in.nontrivial)
			r.labels = append(r.labels, in.labels...)
			return nil
		})
	reg("C03", "large", "2-4 values, each "+what+", parsed one after another; non-trivial: over 2048 bytes",
		600, 15000, func(t *rapid.T) BigCase {
			g := G{t}
			c := BigCase{Doc: g.big(1, pick(g, 300, 5000, 5000, 40000))}
			for i := g.n(3); i >= 0; i-- {
				c.More = append(c.More, g.big(1, pick(g, 300, 5000)))
			}
			return c
		}, func(c BigCase, r *Rec) error {
			d := njson.Document{}
			texts := []string{c.Doc.text()}
			for _, v := range c.More {
				texts = append(texts, v.text())
			}
			rest := strings.Join(texts, "\n")
			whole := rest
			var nodes []njson.Node
			for i, s := range texts {
				n, tail, err := d.Parse(rest)
				if err != nil {
					return errf("value %d of %s: %v", i, mustJSON(c), err)
				}
				if want := strings.TrimLeft(rest, " \t\r\n")[len(strings.Trim(s, " \t\r\n")):]; strings.TrimLeft(tail, " \t\r\n") != strings.TrimLeft(want, " \t\r\n") || !strings.HasSuffix(rest, tail) {
					return errf("value %d of %s: %d bytes left, want %d", i, mustJSON(c), len(tail), len(want))
				}
				nodes = append(nodes, n)
				rest = tail
			}
			for i, n := range nodes {
				if err := sameTree(n, mustRef(texts[i]), ""); err != nil {
					return errf("value %d of %s: %v", i, mustJSON(c), err)
				}
				if got, err := serial(n); err != nil || got != mustRef(texts[i]).text() {
					return errf("value %d of %s reads %q, %v", i, mustJSON(c), short(got), err)
				}
			}
			bigLabels(texts[0], r)
			r.NonTrivial(len(whole) > 2048)
			return nil
		})
	reg("C04", "large", "two lives of one document, a large one and then another, compared with a new document; non-trivial: over 2048 bytes",
		500, 10000, func(t *rapid.T) BigCase {
			g := G{t}
			return BigCase{Doc: g.big(1, pick(g, 1000, 5000, 30000)), More: []*Big{g.big(1, pick(g, 100, 1000, 5000))}, Cut: g.n(3)}
		}, func(c BigCase, r *Rec) error {
			texts := []Q{Q(c.Doc.text()), Q(c.More[0].text())}
			end := "rcp"[c.Cut%3]
			rounds := []Round{{Texts: texts[:1], End: end, Edit: 4}, {Texts: texts[1:], Build: 3, End: end}, {Texts: []Q{"[1]"}, End: end}}
			if err := call("C04", "texts", ReuseCase{rounds}, &Rec{}); err != nil {
				return errf("%s: %v", mustJSON(c), short(err.Error()))
			}
			bigLabels(string(texts[0]), r)
			return nil
		})
	reg("C06", "large", what+", walked through every accessor, with lookups to the last values of all levels; non-trivial: over 2048 bytes",
		500, 10000, genBig(70000), func(c BigCase, r *Rec) error {
			s := c.Doc.text()
			d := njson.Document{}
			if len(s)%2 == 0 {
				d.Parse("[1]")
			}
			n, _, err := d.Parse(s)
			if err != nil {
				return errf("Parse of %s: %v", mustJSON(c), err)
			}
			ref := mustRef(s)
			if err := checkNav(n, ref, 0); err != nil {
				return errf("%s: %v", mustJSON(c), err)
			}
			var path []string
			for v := ref; len(v.A) > 0; {
				i := len(v.A) - 1
				if len(path)%3 == 1 {
					i /= 2
				}
				if v.K == '{' {
					path = append(path, v.Keys[i])
					v = v.find(v.Keys[i])
				} else {
					path = append(path, strconv.Itoa(i))
					v = v.A[i]
				}
			}
			for k := len(path); k >= 0; k = k*2/3 - 1 {
				if err := sameNode(n.Lookup(path[:k]...), ref.lookup(path[:k])); err != nil {
					return errf("Lookup of %d keys in %s: %v", k, mustJSON(c), err)
				}
				over := append(append([]string{}, path[:k]...), "999999")
				if err := sameNode(n.Lookup(over...), ref.lookup(over)); err != nil {
					return errf("Lookup of %d keys in %s: %v", k+1, mustJSON(c), err)
				}
			}
			if got, err := serial(n); err != nil || got != ref.text() {
				return errf("after the reads of %s the document is %q, %v", mustJSON(c), short(got), err)
			}
			bigLabels(s, r)
			return nil
		})
	reg("C08", "large", what+", compared with encoding/json; non-trivial: over 2048 bytes", 600, 15000, func(t *rapid.T) BigCase {
		for i := 0; ; i++ {
			c := genBig(70000)(t)
			if i > 20 {
				c.Doc = &Big{K: "arr", N: 1000, S: "$"}
			}
			var v interface{}
			if json.Unmarshal([]byte(c.Doc.text()), &v) == nil { // nothing overflows
				return c
			}
		}
	}, checkBigText("C08", "interface"))
	reg("C25", "large", what+" handed to recording unmarshalers and writers, also short ones; non-trivial: over 2048 bytes",
		800, 20000, func(t *rapid.T) BigCase {
			g := G{t}
			return BigCase{Doc: g.big(2, 20000), Cut: g.n(6)}
		}, func(c BigCase, r *Rec) error {
			s := c.Doc.text()
			d := njson.Document{}
			n, _, err := d.Parse(s)
			if err != nil {
				return errf("Parse of %s: %v", mustJSON(c), err)
			}
			ref := mustRef(s)
			want := ref.text()
			for i := 0; i < 3; i++ {
				u := &rawCatcher{}
				u.hook = func() {
					in := &rawCatcher{}
					if err := n.WrapUnmarshalJSON(in); err != nil || in.data != want {
						u.data = "NESTED " + in.data
					}
				}
				if err := n.WrapUnmarshalJSON(&scribbler{u}); err != nil || u.calls != 1 || u.data != want {
					return errf("WrapUnmarshalJSON of %s passed %q, %v", mustJSON(c), short(u.data), err)
				}
				w := &limitWriter{limit: 1 << 30}
				if i < c.Cut {
					w.limit, w.err = len(want)*i/(c.Cut+1), io.ErrShortWrite
				}
				k, err := n.PrintJSON(w)
				if wk := min(w.limit, len(want)); k != wk || string(w.b) != want[:wk] || (err != nil) != (wk < len(want)) || err != nil && !errors.Is(err, io.ErrShortWrite) {
					return errf("PrintJSON of %s (limit %d) wrote %d bytes, %v", mustJSON(c), w.limit, k, err)
				}
				if ref.K == 's' {
					u := &rawCatcher{}
					if err := n.WrapUnmarshalText(u); err != nil || u.data != decodeBody(ref.Raw) {
						return errf("WrapUnmarshalText of %s passed %q, %v", mustJSON(c), short(u.data), err)
					}
				}
			}
			if out, err := n.AppendJSON(bytes.Repeat([]byte("x"), 3)); err != nil || string(out) != "xxx"+want {
				return errf("AppendJSON of %s gives %q, %v", mustJSON(c), short(string(out)), err)
			}
			bigLabels(s, r)
			return nil
		})
}

// shared finds memory that two results have in common, spare capacity included.
func shared(a, b interface{}) error {
	seen := map[unsafe.Pointer]bool{}
	var walk func(v interface{}, f func(p unsafe.Pointer) error) error
	walk = func(v interface{}, f func(p unsafe.Pointer) error) error {
		switch v := v.(type) {
		case []interface{}:
			if cap(v) > 0 {
				if err := f(unsafe.Pointer(unsafe.SliceData(v[:1]))); err != nil {
					return err
				}
			}
			for _, x := range v {
				if err := walk(x, f); err != nil {
					return err
				}
			}
		case map[string]interface{}:
			if v != nil {
				if err := f(*(*unsafe.Pointer)(unsafe.Pointer(&v))); err != nil {
					return err
				}
			}
			for _, x := range v {
				if err := walk(x, f); err != nil {
					return err
				}
			}
		}
		return nil
	}
	walk(a, func(p unsafe.Pointer) error { seen[p] = true; return nil })
	return walk(b, func(p unsafe.Pointer) error {
		if seen[p] {
			return errf("two results share memory")
		}
		return nil
	})
}
