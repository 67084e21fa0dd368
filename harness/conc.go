package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/numjson"
	"github.com/alxarch/njson/strjson"
	"github.com/alxarch/njson/unjson"
	"pgregory.net/rapid"
)

// ConcCase is a set of goroutines calling the library at the same time.
type ConcCase struct {
	Types []ConcType `json:"types"`
	Doc   Q          `json:"doc"`  // parsed once, read by everybody
	Text  Q          `json:"text"` // another text
	Progs [][]ConcOp `json:"progs"`
	Tag   string     `json:"tag,omitempty"`
}

// ConcType is a type with a value and a text to decode into it.
type ConcType struct {
	T    TSpec `json:"t"`
	V    VSpec `json:"v"`
	Text Q     `json:"text"`
}

// ConcOp is one call.
type ConcOp struct {
	Op string `json:"op"`
	I  int    `json:"i"` // type or member
}

var concOps = []string{"marshal", "unmarshal", "fromnode", "cache enc", "cache dec", "encoder", "decoder", "shared node dec",
	"doc serial", "doc nav", "doc iface", "doc print", "wrap json", "wrap text", "blank", "pool", "lines", "pure", "type error"}

type concShared struct {
	c     *ConcCase
	cache *unjson.Cache
	encs  []unjson.Encoder
	decs  []unjson.Decoder
	nodes []njson.Node // the texts of the types, parsed in one shared document
	node  njson.Node
	pool  *njson.Pool
	vals  []reflect.Value
}

func (c *ConcCase) share() (*concShared, error) {
	s := &concShared{c: c, pool: new(njson.Pool)}
	s.cache = &unjson.Cache{Options: unjson.Options{Tag: c.Tag}}
	d := &njson.Document{}
	n, _, err := d.Parse(string(c.Doc))
	if err != nil {
		return nil, errf("Parse(%q): %v", c.Doc, err)
	}
	s.node = n
	for i := range c.Types {
		t := &c.Types[i]
		rt := t.T.typ(false)
		enc, err := unjson.NewTypeEncoder(rt, unjson.DefaultOptions())
		if err != nil {
			return nil, errf("NewTypeEncoder(%v): %v", rt, err)
		}
		dec, err := unjson.NewTypeDecoder(reflect.PtrTo(rt), "")
		if err != nil {
			return nil, errf("NewTypeDecoder(%v): %v", rt, err)
		}
		s.encs = append(s.encs, enc)
		s.decs = append(s.decs, dec)
		n, _, err := d.Parse(string(t.Text))
		if err != nil {
			return nil, errf("Parse(%q): %v", t.Text, err)
		}
		s.nodes = append(s.nodes, n)
		s.vals = append(s.vals, build(rt, t.V, false))
	}
	return s, nil
}

// outcome turns the result of an encoding call into text that does not depend on map order.
func outcome(b []byte, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var x interface{}
	if err := dec.Decode(&x); err != nil {
		return "invalid: " + string(b)
	}
	y, _ := json.Marshal(x)
	return fmt.Sprint(len(b), string(y))
}

func stored(v reflect.Value, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return dump(v)
}

// do makes one call; the result depends on op alone.
func (s *concShared) do(op ConcOp) string {
	i := op.I % len(s.c.Types)
	t := &s.c.Types[i]
	v := s.vals[i]
	fresh := func() reflect.Value { return reflect.New(v.Type()) }
	switch op.Op {
	case "marshal":
		return outcome(unjson.Marshal(v.Interface()))
	case "encoder":
		return outcome(s.encs[i].Encode(nil, v.Interface()))
	case "cache enc":
		enc, err := s.cache.Encoder(v.Type())
		if err != nil {
			return "error: " + err.Error()
		}
		return outcome(enc.Encode(nil, v.Interface()))
	case "unmarshal":
		p := fresh()
		err := unjson.Unmarshal([]byte(t.Text), p.Interface())
		return stored(p.Elem(), err)
	case "fromnode":
		p := fresh()
		err := unjson.UnmarshalFromNode(s.nodes[i], p.Interface())
		return stored(p.Elem(), err)
	case "decoder", "shared node dec":
		p := fresh()
		err := s.decs[i].Decode(p.Interface(), s.nodes[i])
		return stored(p.Elem(), err)
	case "cache dec":
		p := fresh()
		dec, err := s.cache.Decoder(p.Type())
		if err == nil {
			err = dec.Decode(p.Interface(), s.nodes[i])
		}
		return stored(p.Elem(), err)
	case "doc serial":
		out, err := s.node.AppendJSON(nil)
		return fmt.Sprintf("%q %v", out, err)
	case "doc nav":
		var b strings.Builder
		describe(&b, s.node)
		return b.String()
	case "doc iface":
		x, ok := s.node.ToInterface()
		return fmt.Sprintf("%#v %v", dump(reflect.ValueOf(&x).Elem()), ok)
	case "doc print":
		var w bytes.Buffer
		n, err := s.node.PrintJSON(&w)
		return fmt.Sprintf("%d %q %v", n, w.String(), err)
	case "wrap json":
		r := slowCatcher{}
		err := s.node.WrapUnmarshalJSON(&r)
		return fmt.Sprintf("%q %v", r.got, err)
	case "wrap text":
		r := slowCatcher{}
		var err error
		s.eachText(s.node, func(n njson.Node) {
			if e := n.WrapUnmarshalText(&r); e != nil {
				err = e
			}
		})
		return fmt.Sprintf("%q %v", r.got, err)
	case "blank":
		return s.usePooled(njson.Blank(), (*njson.Document).Close)
	case "pool":
		return s.usePooled(s.pool.Get(), s.pool.Put)
	case "lines":
		var w bytes.Buffer
		enc := unjson.NewLineEncoder(&w)
		var err error
		for k := 0; k < 2 && err == nil; k++ {
			err = enc.Encode(v.Interface())
		}
		if err != nil {
			return "error: " + err.Error()
		}
		dec := unjson.NewLineDecoder(&w)
		out := ""
		for {
			p := fresh()
			err := dec.Decode(p.Interface())
			if err == io.EOF {
				return out
			}
			out += stored(p.Elem(), err) + "\n"
			if err != nil {
				return out
			}
		}
	case "pure":
		a := strjson.Escaped(string(s.c.Text), true, true)
		return fmt.Sprint(a, strjson.Unescaped(a), numjson.ParseFloat(string(s.c.Text)), numjson.FormatFloat(float64(op.I)/7, 64), njson.Type(op.I).Types(), njson.Type(op.I).String())
	case "type error":
		p := reflect.New(reflect.MapOf(reflect.TypeOf(0), v.Type()))
		err := unjson.Unmarshal([]byte("{}"), p.Interface())
		_, err2 := unjson.Marshal(struct{ C chan int }{})
		return fmt.Sprint(err != nil, err2 != nil)
	}
	panic(harnessBug{fmt.Errorf("op %q", op.Op)})
}

// expect gives the result of op when nothing is shared: codecs, documents
// and types' caches are the caller's own.
func (s *concShared) expect(op ConcOp) string {
	switch op.Op {
	case "marshal", "cache enc":
		op.Op = "encoder"
	case "unmarshal", "fromnode", "cache dec", "shared node dec":
		op.Op = "decoder"
	case "pool", "blank":
		return s.usePooled(&njson.Document{}, func(*njson.Document) {})
	}
	return s.do(op)
}

func (s *concShared) eachText(n njson.Node, f func(n njson.Node)) {
	if n.Type() == njson.TypeString {
		f(n)
	}
	it := n.Values()
	for it.Next() {
		s.eachText(it.Value(), f)
	}
}

func (s *concShared) usePooled(d *njson.Document, done func(*njson.Document)) string {
	n, tail, err := d.Parse(string(s.c.Text))
	out, err2 := n.AppendJSON(nil)
	o := d.Object()
	o.Set("k", d.Text("v"))
	a := d.Array()
	a.Append(o)
	a.Append(n)
	runtime.Gosched()
	all, err3 := a.AppendJSON(nil)
	done(d)
	return fmt.Sprintf("%q %v %q %v %q %v", tail, err, out, err2, all, err3)
}

// slowCatcher gives other goroutines the chance to reuse a buffer too early.
type slowCatcher struct{ got []string }

func (r *slowCatcher) UnmarshalJSON(b []byte) error {
	runtime.Gosched()
	r.got = append(r.got, string(b))
	return nil
}
func (r *slowCatcher) UnmarshalText(b []byte) error { return r.UnmarshalJSON(b) }

func describe(b *strings.Builder, n njson.Node) {
	raw, typ := n.Data()
	f, ok := n.ToFloat()
	fmt.Fprint(b, typ, raw, n.Unescaped(), f, ok)
	it := n.Values()
	for it.Next() {
		fmt.Fprintf(b, "[%d %q ", it.Index(), it.Key())
		if k := it.Key(); k != "" {
			b.WriteString(n.Get(k).Raw())
			b.WriteString(n.Lookup(k).Type().String())
		} else {
			b.WriteString(n.Index(it.Index()).Raw())
		}
		describe(b, it.Value())
		b.WriteString("]")
	}
}

func checkConc(c ConcCase, r *Rec) error {
	s, err := c.share()
	if err != nil {
		return err
	}
	got := make([][]string, len(c.Progs))
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	var mu sync.Mutex
	var fail error
	for g := range c.Progs {
		g := g
		got[g] = make([]string, len(c.Progs[g]))
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					fail = errf("goroutine %d panics: %v", g, p)
					mu.Unlock()
				}
			}()
			ready.Done()
			<-start
			for k, op := range c.Progs[g] {
				got[g][k] = s.do(op)
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	if fail != nil {
		return fail
	}
	own, err := c.share()
	if err != nil {
		return err
	}
	users := map[ConcOp]int{}
	for g, prog := range c.Progs {
		for k, op := range prog {
			want := own.expect(op)
			if got[g][k] != want {
				return errf("goroutine %d, call %d (%s %d): %s", g, k, op.Op, op.I, diff(got[g][k], want))
			}
			users[op] |= 1 << g
			r.Label(true, op.Op)
		}
	}
	for _, m := range users {
		r.NonTrivial(m&(m-1) != 0)
	}
	return nil
}

func init() {
	s := reg("C24", "programs", "2-8 goroutines of 1-12 calls each over new types, one shared Cache, shared Encoders and Decoders, the document pools and one shared document, in a binary built with the race detector; each result compared with the same call made alone on unshared objects; non-trivial: at least two goroutines make the same call on the same shared object",
		12000, 250000, func(t *rapid.T) ConcCase {
			g := G{t}
			var c ConcCase
			o := typeOpts{cat: "round", libProb: 2, bytes: true, ptrs: true, maps: true, ifaces: true, structs: true, emb: true, omit: true, omitAll: true, tagKey: "json"}
			for i := g.rng(1, 3); i > 0; i-- {
				var ct ConcType
				ct.T = g.structType(o, g.rng(1, 3))
				rt := ct.T.typ(false)
				ct.V = g.val(rt, valOpts{validUTF8: true, generic: true, zeroProb: pick(g, 0, 2)}, 4)
				d := docGen{noise: true}
				if g.p(1, 5) {
					d.wrong = 5
				}
				d.init(rt, "json")
				ct.Text = Q(d.doc(g, rt, "json", 4))
				c.Types = append(c.Types, ct)
			}
			c.Doc = Q(g.docText(docOpts{depth: g.rng(0, 3), finite: true}))
			if len(c.Doc) > 3000 || len(c.Doc) < 4 {
				c.Doc = `{"a":[1,2.5,"x\n",null,true],"b":{"c":"\u00e9"}}`
			}
			c.Text = Q(g.docText(docOpts{depth: g.rng(0, 3)}))
			if len(c.Text) > 3000 {
				c.Text = `[[[[1]]],{"a":"b"}]`
			}
			same := g.p(1, 2)
			n := g.rng(2, 8)
			prog := func() []ConcOp {
				return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ConcOp {
					g := G{t}
					return ConcOp{Op: pickS(g, concOps), I: g.n(3)}
				}), 1, 12).Draw(t, "prog")
			}
			first := prog()
			for i := 0; i < n; i++ {
				if !same && i > 0 {
					first = prog()
				}
				c.Progs = append(c.Progs, first)
			}
			return c
		}, checkConc)
	s.race = true
}
