package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
	"pgregory.net/rapid"
)

// NavCase is a document and paths to look up.
type NavCase struct {
	Text  Q     `json:"text"`
	Paths [][]Q `json:"paths"`
	Junk  Q     `json:"junk,omitempty"`
}

func (v *JV) find(key string) *JV {
	if v.K == '{' {
		for i, k := range v.Keys {
			if k == key {
				return v.A[i]
			}
		}
	}
	return nil
}

func (v *JV) lookup(path []string) *JV {
	for _, p := range path {
		switch v.K {
		case '{':
			v = v.find(p)
		case '[':
			i, ok := refIndex(p)
			if !ok || i >= len(v.A) {
				return nil
			}
			v = v.A[i]
		default:
			return nil
		}
		if v == nil {
			return nil
		}
	}
	return v
}

func sameNode(n njson.Node, v *JV) error {
	if v == nil {
		if n.Type() != njson.TypeInvalid {
			return errf("found a %v, want nothing", n.Type())
		}
		return emptyNode(n)
	}
	got, err := serial(n)
	if err != nil || got != v.text() {
		return errf("found %q, %v, want %q", got, err, v.text())
	}
	return nil
}

func checkIter(n njson.Node, v *JV) error {
	it := n.Values()
	for round := 0; round < 3; round++ {
		if it.Index() != -1 {
			return errf("index before the first Next is %d (round %d)", it.Index(), round)
		}
		stop := len(v.A)
		if round == 1 {
			stop /= 2 // abandon half way
		}
		for i := 0; i < stop; i++ {
			if it.Len() != len(v.A) {
				return errf("Len %d, want %d", it.Len(), len(v.A))
			}
			if !it.Next() {
				return errf("Next false at %d of %d (round %d)", i, len(v.A), round)
			}
			wk := ""
			if v.K == '{' {
				wk = v.Keys[i]
			}
			if it.Index() != i || it.Key() != wk {
				return errf("iterator at %d: index %d key %q, want key %q", i, it.Index(), it.Key(), wk)
			}
			k := it.Value()
			if k.ID() != it.ID() || k.Type() == njson.TypeInvalid {
				return errf("iterator at %d: id %d, value id %d, type %v", i, it.ID(), k.ID(), k.Type())
			}
			if raw, _ := k.Data(); raw != v.A[i].Raw {
				return errf("iterator at %d: raw %q, want %q", i, raw, v.A[i].Raw)
			}
			if k2 := n.With(it.ID()); k2.Raw() != v.A[i].Raw {
				return errf("With(ID) at %d reads %q", i, k2.Raw())
			}
		}
		if round != 1 {
			for j := 0; j < 3; j++ {
				if it.Next() {
					return errf("Next true after the end")
				}
				if it.Value().Type() != njson.TypeInvalid {
					return errf("exhausted iterator still has a value")
				}
			}
			if it.Index() != -2 {
				return errf("index after the end is %d", it.Index())
			}
		}
		it.Reset()
	}
	it.Next()
	it.Close()
	if it.Next() || it.Len() != 0 || it.Value().Type() != njson.TypeInvalid {
		return errf("closed iterator still has values")
	}
	return nil
}

func checkNav(n njson.Node, v *JV, depth int) error {
	if err := checkIter(n, v); err != nil {
		return err
	}
	if v.K == '{' {
		for i, k := range v.Keys {
			if len(v.Keys) > 2000 && i > 100 && i < len(v.Keys)-100 && i%97 != 0 {
				continue // finding is linear
			}
			if err := sameNode(n.Get(k), v.find(k)); err != nil {
				return errf("Get(%q): %v", k, err)
			}
		}
		for _, k := range []string{"\x00none", "a", "0", ""} {
			if err := sameNode(n.Get(k), v.find(k)); err != nil {
				return errf("Get(%q): %v", k, err)
			}
		}
	} else {
		for _, k := range []string{"", "0", "a"} {
			if err := sameNode(n.Get(k), nil); err != nil {
				return errf("Get(%q) on a %v: %v", k, n.Type(), err)
			}
		}
	}
	if v.K == '[' {
		for i := range v.A {
			if err := sameNode(n.Index(i), v.A[i]); err != nil {
				return errf("Index(%d): %v", i, err)
			}
			if err := sameNode(n.Lookup(strconv.Itoa(i)), v.A[i]); err != nil {
				return errf("Lookup(%d): %v", i, err)
			}
		}
	} else if err := sameNode(n.Index(0), nil); err != nil {
		return errf("Index(0) on a %v: %v", n.Type(), err)
	}
	for _, i := range []int{-1, len(v.A), len(v.A) + 1, math.MinInt, math.MaxInt} {
		if err := sameNode(n.Index(i), nil); err != nil {
			return errf("Index(%d): %v", i, err)
		}
	}
	if err := sameNode(n.Lookup(), v); err != nil {
		return errf("Lookup(): %v", err)
	}
	if len(v.A) > 300 || depth > 12 {
		return nil
	}
	it := n.Values()
	for i := 0; it.Next(); i++ {
		if err := checkNav(it.Value(), v.A[i], depth+1); err != nil {
			return err
		}
	}
	return nil
}

func (g G) paths(v *JV) [][]Q {
	var out [][]Q
	for n := 1 + g.n(5); n > 0; n-- {
		path := []Q{}
		x := v
		for d := g.n(6); d > 0; d-- {
			switch {
			case x != nil && x.K == '{' && len(x.A) > 0 && g.p(5, 6):
				i := g.n(len(x.A))
				path = append(path, Q(x.Keys[i]))
				x = x.find(x.Keys[i])
			case x != nil && x.K == '[' && len(x.A) > 0 && g.p(5, 6):
				i := g.n(len(x.A))
				path = append(path, Q(strconv.Itoa(i)))
				x = x.A[i]
			default:
				path = append(path, Q(pick(g, "a", "b", "", "0", "1", "-1", "+1", "1e0", "0x1", "1 ", " 1", "1a", "a1", "18446744073709551616", "18446744073709551617", "9223372036854775808", "4294967296", "99999999999999999999999999999999", "\xff", "/", ":", "1:", "1/")))
				x = nil
			}
		}
		if len(path) > 0 && g.p(1, 6) { // spoil one element
			path[g.n(len(path))] = Q(pick(g, "nope", "", "7", "00x"))
		}
		out = append(out, path)
	}
	return out
}

func init() {
	reg("C06", "navigation", "valid documents with duplicate, escaped and empty keys, with 1-5 paths each (existing, spoiled, overflowing); every node walked through every accessor; non-trivial: the document is a non-empty container",
		40000, 2000000, func(t *rapid.T) NavCase {
			g := G{t}
			var s string
			if g.p(1, 3) {
				s = g.domDoc(docOpts{depth: g.rng(1, 4)})
			} else {
				s = g.docText(docOpts{depth: g.rng(1, 4), maxKids: 6, strPcs: 3})
			}
			if len(s) > 20000 {
				s = `{"a":[{"a":1}]}`
			}
			return NavCase{Text: Q(s), Paths: g.paths(mustRef(s)), Junk: Q(pick(g, "", `[[1,2],{"a":3}]`, `{"a":{"a":{"a":4}},"b":[5]}`))}
		}, func(c NavCase, r *Rec) error {
			d := njson.Document{}
			if c.Junk != "" { // the tree does not start at node 0
				if _, _, err := d.Parse(string(c.Junk)); err != nil {
					return errf("Parse(%q): %v", c.Junk, err)
				}
			}
			n, _, err := d.Parse(string(c.Text))
			if err != nil {
				return errf("Parse(%q): %v", c.Text, err)
			}
			ref := mustRef(string(c.Text))
			if err := checkNav(n, ref, 0); err != nil {
				return errf("in %q: %v", c.Text, err)
			}
			if got, err := serial(n); err != nil || got != ref.text() {
				return errf("after reading %q the document is %q, %v", c.Text, got, err)
			}
			hit, miss := false, false
			for _, p := range c.Paths {
				var path []string
				for _, q := range p {
					path = append(path, string(q))
				}
				want := ref.lookup(path)
				got := n.Lookup(path...)
				if err := sameNode(got, want); err != nil {
					return errf("Lookup(%q) in %q: %v", path, c.Text, err)
				}
				if want == nil {
					miss = true
					if got.Document() != &d {
						return errf("failed Lookup(%q) lost the document", path)
					}
					// a miss goes on missing, and stays usable for its document
					for _, x := range []njson.Node{got.Get("a"), got.Get(""), got.Index(0), got.Lookup(path...), got.Get("a").Get("a"), got.Index(0).Index(0)} {
						if len(path) == 0 {
							break
						}
						if x.Type() != njson.TypeInvalid || x.Document() != &d {
							return errf("reading on after the failed Lookup(%q) in %q gives a %v node of document %p, not %p", path, c.Text, x.Type(), x.Document(), &d)
						}
					}
				} else if len(path) > 0 {
					hit = true
					// step by step gives the same node
					x := n
					for _, k := range path {
						if x.Type() == njson.TypeArray {
							i, _ := strconv.Atoi(k)
							x = x.Index(i)
						} else {
							x = x.Get(k)
						}
					}
					if x.ID() != got.ID() {
						return errf("Lookup(%q) in %q gives node %d, step by step %d", path, c.Text, got.ID(), x.ID())
					}
				}
			}
			r.NonTrivial(len(ref.A) > 0)
			r.Label(hit, "path-hit")
			r.Label(miss, "path-miss")
			return nil
		})

	type numCase struct {
		Num  Q `json:"num"`
		Wrap Q `json:"wrap"`
	}
	reg("C07", "numbers", "random JSON numbers (near powers of two, type limits, halfway points, 1-400 digits, all notations) read from a parsed node; non-trivial: not a short plain integer",
		300000, 15000000, func(t *rapid.T) numCase {
			g := G{t}
			return numCase{Q(g.number()), Q(pick(g, "", "[", "{"))}
		}, func(c numCase, r *Rec) error { return checkNumberText(string(c.Num), string(c.Wrap), r) })
	reg("C07", "scalars", "every node of random valid documents: booleans, strings, null and containers convert exactly when they should; non-trivial: at least two kinds of values",
		60000, 2000000, genDocCase(docOpts{maxKids: 6}), func(c TextCase, r *Rec) error {
			s := string(c.Text)
			if len(s) > 50000 {
				return nil
			}
			d := njson.Document{}
			n, _, err := d.Parse(s)
			if err != nil {
				return errf("Parse(%q): %v", s, err)
			}
			kinds := map[byte]bool{}
			var walk func(n njson.Node, v *JV) error
			walk = func(n njson.Node, v *JV) error {
				kinds[v.K] = true
				if b, ok := n.ToBool(); ok != (v.K == 't' || v.K == 'f') || b != (v.K == 't') {
					return errf("ToBool of %q gives %v %v", v.text(), b, ok)
				}
				if v.K == 's' {
					if n.Unescaped() != decodeBody(v.Raw) {
						return errf("Unescaped of %q gives %q", v.Raw, n.Unescaped())
					}
				} else if n.Unescaped() != "" {
					return errf("Unescaped of %q gives %q", v.text(), n.Unescaped())
				}
				switch v.K {
				case '#':
					if err := checkNumberNode(n, v.Raw, &Rec{}); err != nil {
						return err
					}
				case 's':
					// Whether a string converts is not said, reading it changes nothing.
					n.ToFloat()
					n.ToInt()
					n.ToUint()
				default:
					if f, ok := n.ToFloat(); ok {
						return errf("ToFloat of %q gives %v", v.text(), f)
					}
					if f, ok := n.ToInt(); ok {
						return errf("ToInt of %q gives %v", v.text(), f)
					}
					if f, ok := n.ToUint(); ok {
						return errf("ToUint of %q gives %v", v.text(), f)
					}
				}
				it := n.Values()
				for i := 0; it.Next(); i++ {
					if err := walk(it.Value(), v.A[i]); err != nil {
						return err
					}
				}
				return nil
			}
			ref := mustRef(s)
			if err := walk(n, ref); err != nil {
				return err
			}
			if got, err := serial(n); err != nil || got != ref.text() {
				return errf("after reading the values of %q the document is %q, %v", s, got, err)
			}
			r.NonTrivial(len(kinds) > 1)
			return sameTree(n, ref, "")
		})

	reg("C08", "interface", "random valid UTF-8 documents with finite numbers, duplicate keys and all escapes, compared with encoding/json for the root and for every inner node; non-trivial: a non-empty container or a string with an escape",
		60000, 3000000, func(t *rapid.T) TextCase {
			if (G{t}).p(1, 6) { // some numbers may overflow
				return genDocCase(docOpts{depth: 3, maxKids: 4})(t)
			}
			return genDocCase(docOpts{finite: true})(t)
		}, func(c TextCase, r *Rec) error {
			s := string(c.Text)
			d := njson.Document{}
			n, _, err := d.Parse(s)
			if err != nil {
				return errf("Parse(%q): %v", s, err)
			}
			var want interface{}
			if err := json.Unmarshal([]byte(s), &want); err != nil {
				var over *json.UnmarshalTypeError
				if !errors.As(err, &over) {
					return errSkipCase
				}
				if got, ok := n.ToInterface(); ok {
					return errf("ToInterface of %q gives %#v, want a refusal: %v", s, got, err)
				}
				r.NonTrivial(true)
				r.Label(true, "overflow")
				return nil
			}
			before, _ := serial(n)
			got, ok := n.ToInterface()
			if !ok || !deepEqualIface(got, want) {
				return errf("ToInterface of %q gives %#v %v, want %#v", s, got, ok, want)
			}
			if len(s) < 1500 {
				var walk func(n njson.Node) error
				walk = func(n njson.Node) error {
					text, err := serial(n)
					if err != nil {
						return err
					}
					var want interface{}
					if err := json.Unmarshal([]byte(text), &want); err != nil {
						return errf("inner node %q: %v", text, err)
					}
					got, ok := n.ToInterface()
					if !ok || !deepEqualIface(got, want) {
						return errf("ToInterface of inner node %q gives %#v %v, want %#v", text, got, ok, want)
					}
					it := n.Values()
					for it.Next() {
						if err := walk(it.Value()); err != nil {
							return err
						}
					}
					return nil
				}
				if err := walk(n); err != nil {
					return err
				}
			}
			other, _ := n.ToInterface()
			if err := shared(got, other); err != nil {
				return errf("ToInterface of %q twice: %v", s, err)
			}
			// Wreck the result: the document does not notice.
			wreck(got)
			if !deepEqualIface(other, want) {
				return errf("changing a value of %q changed another to %#v", s, other)
			}
			if after, _ := serial(n); after != before {
				return errf("changing the value of %q changed the document to %q", s, after)
			}
			// Wreck the document: an earlier result does not notice.
			got, _ = n.ToInterface()
			d.Reset()
			d.Parse(`{"x":[1,2,3,{"y":"z"}],"a":{"b":[true,null]},"c":"d"}`)
			if !deepEqualIface(got, want) {
				return errf("reusing the document changed the value of %q to %#v", s, got)
			}
			ref := mustRef(s)
			r.NonTrivial(len(ref.A) > 0 || strings.Contains(s, `\`))
			r.Label(strings.Contains(s, `\u`), "u-escape")
			r.Label(ref.depth() > 60, "deep>60")
			return nil
		})

	type adaptCase struct {
		Text   Q      `json:"text"`
		Nested []Q    `json:"nested"`
		Fail   bool   `json:"fail"`
		Limit  int    `json:"limit"`
		Mode   string `json:"mode"`
		Err    int    `json:"err,omitempty"`
		W      string `json:"w,omitempty"` // how the writer fails: "" short write, "quiet" short write without error, "late" error after all
	}
	reg("C25", "adapters", "random documents handed to recording unmarshalers and writers, with errors, short writes and nested adapter calls from inside the callee; non-trivial: nested calls, or an error, or a document over 2048 bytes",
		60000, 2000000, func(t *rapid.T) adaptCase {
			g := G{t}
			c := adaptCase{Text: Q(g.docText(docOpts{depth: g.rng(0, 4)})), Fail: g.p(1, 4), Limit: g.n(50) - 10, Mode: pick(g, "json", "text", "print", "scribble"), Err: g.n(len(calleeErrors)), W: pick(g, "", "", "quiet", "late")}
			if g.p(1, 3) {
				c.Text = Q(`"` + g.strBody(8) + `"`)
			}
			for n := g.size(3); n > 0; n-- {
				c.Nested = append(c.Nested, Q(g.domDoc(docOpts{depth: 2})))
			}
			return c
		}, func(c adaptCase, r *Rec) error {
			s := string(c.Text)
			ref := mustRef(s)
			want := ref.text()
			d := njson.Document{}
			n, _, err := d.Parse(s)
			if err != nil {
				return errf("Parse(%q): %v", s, err)
			}
			var nested []njson.Node
			for _, t := range c.Nested {
				k, _, err := d.Parse(string(t))
				if err != nil {
					return errf("Parse(%q): %v", t, err)
				}
				nested = append(nested, k)
			}
			boom := calleeErrors[c.Err]
			var nestedErr error
			u := &rawCatcher{}
			if c.Fail {
				u.err = boom
			}
			hook := func() {
				for i, k := range nested {
					want := mustRef(string(c.Nested[i])).text()
					in := &rawCatcher{}
					if err := k.WrapUnmarshalJSON(in); err != nil || in.data != want || in.calls != 1 {
						nestedErr = errf("nested WrapUnmarshalJSON passed %q (%d calls), %v, want %q", in.data, in.calls, err, want)
					}
					var w bytes.Buffer
					if m, err := k.PrintJSON(&w); err != nil || w.String() != want || m != len(want) {
						nestedErr = errf("nested PrintJSON wrote %q, %v, want %q", w.String(), err, want)
					}
					if k.Type() == njson.TypeString {
						if err := k.WrapUnmarshalText(in); err != nil || in.data != k.Unescaped() {
							nestedErr = errf("nested WrapUnmarshalText passed %q, %v", in.data, err)
						}
					}
				}
			}
			u.hook = hook
			switch c.Mode {
			case "json", "scribble":
				var t json.Unmarshaler = u
				if c.Mode == "scribble" {
					t = &scribbler{u}
				}
				err := n.WrapUnmarshalJSON(t)
				if (err == boom) != c.Fail || (err != nil) != c.Fail {
					return errf("WrapUnmarshalJSON returned %v", err)
				}
				if u.calls != 1 || u.data != want {
					return errf("WrapUnmarshalJSON passed %q in %d calls, want %q", u.data, u.calls, want)
				}
			case "text":
				err := n.WrapUnmarshalText(u)
				if ref.K != 's' {
					if err == nil || u.calls != 0 {
						return errf("WrapUnmarshalText on %q: %v, %d calls", s, err, u.calls)
					}
					break
				}
				if (err == boom) != c.Fail || (err != nil) != c.Fail {
					return errf("WrapUnmarshalText returned %v", err)
				}
				if dec := decodeBody(ref.Raw); u.calls != 1 || u.data != dec {
					return errf("WrapUnmarshalText of %q passed %q in %d calls, want %q", s, u.data, u.calls, dec)
				}
			case "print":
				w := &limitWriter{limit: c.Limit, err: boom}
				if c.Limit < 0 {
					w.limit = 1 << 30
				}
				switch c.W {
				case "late":
					w.limit, w.late = 1<<30, true
					m, err := n.PrintJSON(w)
					if err != boom || m != len(want) || string(w.b) != want {
						return errf("PrintJSON of %q to a writer that takes it and fails with %v wrote %q, returned %d, %v", want, boom, w.b, m, err)
					}
				case "quiet":
					// The writer breaks its contract. It has seen a part of the text anyway.
					w.err, w.free = nil, true
					n.PrintJSON(w)
					if !strings.HasPrefix(want, string(w.b)) {
						return errf("PrintJSON of %q to a writer that stops at %d without an error wrote %q", want, c.Limit, w.b)
					}
				}
				w = &limitWriter{limit: w.limit, err: boom, hook: hook}
				m, err := n.PrintJSON(w)
				wantN := len(want)
				if w.limit < wantN {
					wantN = w.limit
				}
				if (err != nil) != (w.limit < len(want)) || m != wantN || string(w.b) != want[:wantN] {
					return errf("PrintJSON of %q with a writer limit of %d wrote %q, returned %d, %v", want, w.limit, w.b, m, err)
				}
				if w.limit < len(want) && err != boom {
					return errf("PrintJSON returned %v instead of the writer's error", err)
				}
				w1 := &limitWriter{limit: 1 << 30, hook: hook}
				if m, err := njson.PrintJSON(w1, hookAppender{want, hook}); err != nil || m != len(want) || string(w1.b) != want {
					return errf("PrintJSON of an Appender of %q wrote %q, returned %d, %v", want, w1.b, m, err)
				}
				// an Appender that fails prints nothing
				w2 := &limitWriter{limit: 1 << 30}
				if m, err := njson.PrintJSON(w2, failAppender{boom}); err != boom || m != 0 || len(w2.b) != 0 {
					return errf("PrintJSON of a failing Appender wrote %q, returned %d, %v", w2.b, m, err)
				}
			}
			if nestedErr != nil {
				return nestedErr
			}
			if got, err := serial(n); err != nil || got != want {
				return errf("after the call the node reads %q, %v, want %q", got, err, want)
			}
			// A second call is not affected by the first.
			u2 := &rawCatcher{}
			if err := n.WrapUnmarshalJSON(u2); err != nil || u2.data != want {
				return errf("second WrapUnmarshalJSON passed %q, %v, want %q", u2.data, err, want)
			}
			r.NonTrivial(len(nested) > 0 || c.Fail || len(s) > 2048 || c.Mode == "print" && c.Limit >= 0)
			r.Label(true, c.Mode)
			r.Label(len(s) > 2048, "len>2048")
			return nil
		})
}

// scribbler overwrites the bytes it was given after reading them.
type scribbler struct{ *rawCatcher }

func (s *scribbler) UnmarshalJSON(b []byte) error {
	err := s.rawCatcher.UnmarshalJSON(b)
	for i := range b {
		b[i] = '#'
	}
	return err
}

// calleeErrors are errors that a callee may return, some with a meaning elsewhere.
var calleeErrors = []error{errors.New("boom"), io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrNoProgress, njson.UnexpectedEOF(njson.TypeArray), &njson.ParseError{}, bytes.ErrTooLarge, errors.ErrUnsupported}

type limitWriter struct {
	b     []byte
	limit int
	err   error
	late  bool // take everything and fail
	free  bool // the limit is per call
	hook  func()
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.hook != nil {
		w.hook()
	}
	if w.late {
		w.b = append(w.b, p...)
		return len(p), w.err
	}
	if w.free {
		n := min(len(p), w.limit)
		w.b = append(w.b, p[:n]...)
		return n, nil
	}
	if n := w.limit - len(w.b); n < len(p) {
		w.b = append(w.b, p[:n]...)
		return n, w.err
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

var _ io.Writer = (*limitWriter)(nil)

type failAppender struct{ err error }

// hookAppender appends a node's text in two parts and makes other calls between them.
type hookAppender struct {
	text string
	hook func()
}

func (h hookAppender) AppendJSON(b []byte) ([]byte, error) {
	k := len(h.text) / 2
	b = append(b, h.text[:k]...)
	h.hook()
	return append(b, h.text[k:]...), nil
}

func (f failAppender) AppendJSON(b []byte) ([]byte, error) {
	return append(b, "partial"...), f.err
}

func checkNumberNode(n njson.Node, s string, r *Rec) error {
	wf, inf := refFloat(s)
	f, ok := n.ToFloat()
	if math.Float64bits(f) != math.Float64bits(wf) || !ok && !inf {
		return errf("ToFloat of %s gives %v %v, want %v", s, f, ok, wf)
	}
	wi, iok := refInt64(s)
	if i, ok := n.ToInt(); ok != iok || ok && i != wi {
		return errf("ToInt of %s gives %v %v, want %v %v", s, i, ok, wi, iok)
	}
	wu, uok := refUint64(s)
	if u, ok := n.ToUint(); ok != uok || ok && u != wu {
		return errf("ToUint of %s gives %v %v, want %v %v", s, u, ok, wu, uok)
	}
	if b, ok := n.ToBool(); ok {
		return errf("ToBool of %s gives %v", s, b)
	}
	r.NonTrivial(len(s) > 3)
	r.Label(inf, "overflows")
	r.Label(iok, "int64")
	r.Label(uok, "uint64")
	r.Label(iok && (wi > 1<<53 || wi < -1<<53), "int64>2^53")
	r.Label(iok && strings.ContainsAny(s, ".eE"), "integer-with-fraction-or-exponent")
	return nil
}

// deepEqualIface compares decoded generic values; floats bit for bit.
func deepEqualIface(a, b interface{}) bool {
	switch a := a.(type) {
	case float64:
		bf, ok := b.(float64)
		return ok && math.Float64bits(a) == math.Float64bits(bf)
	case map[string]interface{}:
		bm, ok := b.(map[string]interface{})
		if !ok || len(a) != len(bm) || (a == nil) != (bm == nil) {
			return false
		}
		for k, v := range a {
			w, ok := bm[k]
			if !ok || !deepEqualIface(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		bs, ok := b.([]interface{})
		if !ok || len(a) != len(bs) || (a == nil) != (bs == nil) {
			return false
		}
		for i := range a {
			if !deepEqualIface(a[i], bs[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func wreck(v interface{}) {
	switch v := v.(type) {
	case map[string]interface{}:
		for k, x := range v {
			wreck(x)
			delete(v, k)
		}
		v["wrecked"] = true
	case []interface{}:
		for i := range v {
			wreck(v[i])
			v[i] = "wrecked"
		}
	}
}

func checkNumberText(s, wrap string, r *Rec) error {
	d := njson.Document{}
	text := s
	switch wrap {
	case "[":
		text = "[0," + s + "]"
	case "{":
		text = `{"a":` + s + `}`
	}
	n, _, err := d.Parse(text)
	if err != nil {
		return errf("Parse(%q): %v", text, err)
	}
	switch wrap {
	case "[":
		n = n.Index(1)
	case "{":
		n = n.Get("a")
	}
	return checkNumberNode(n, s, r)
}
