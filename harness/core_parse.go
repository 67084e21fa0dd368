package main

import (
	"bytes"
	"strings"

	"github.com/alxarch/njson"
	"pgregory.net/rapid"
)

// TextCase is one JSON text.
type TextCase struct {
	Text Q `json:"text"`
}

func genDocCase(o docOpts) func(t *rapid.T) TextCase {
	return func(t *rapid.T) TextCase {
		oo := o
		g := G{t}
		if oo.depth == 0 {
			oo.depth = g.rng(0, 5)
		}
		return TextCase{Q(g.docText(oo))}
	}
}

func serial(n njson.Node) (string, error) {
	b, err := n.AppendJSON(nil)
	return string(b), err
}

// sameTree walks node and reference together through every accessor.
func sameTree(n njson.Node, v *JV, path string) error {
	want := map[byte]njson.Type{'n': njson.TypeNull, 't': njson.TypeBoolean, 'f': njson.TypeBoolean, '#': njson.TypeNumber, 's': njson.TypeString, '[': njson.TypeArray, '{': njson.TypeObject}[v.K]
	if n.Type() != want {
		return errf("%s: type %v, want %v", path, n.Type(), want)
	}
	raw, typ := n.Data()
	if typ != want || raw != v.Raw || n.Raw() != v.Raw {
		return errf("%s: raw %q/%q, want %q", path, raw, n.Raw(), v.Raw)
	}
	it := n.Values()
	if it.Len() != len(v.A) {
		return errf("%s: %d values, want %d", path, it.Len(), len(v.A))
	}
	i := 0
	for it.Next() {
		if i >= len(v.A) {
			return errf("%s: iterator yields more than %d values", path, len(v.A))
		}
		if it.Index() != i {
			return errf("%s: index %d, want %d", path, it.Index(), i)
		}
		wk := ""
		if v.K == '{' {
			wk = v.Keys[i]
		}
		if it.Key() != wk {
			return errf("%s: key %q, want %q", path, it.Key(), wk)
		}
		if len(path) > 200 {
			path = "..."
		}
		if err := sameTree(it.Value(), v.A[i], path+"/"+wk); err != nil {
			return err
		}
		i++
	}
	if i != len(v.A) {
		return errf("%s: iterator yields %d values, want %d", path, i, len(v.A))
	}
	return nil
}

// checkMalformed parses a text that may be malformed into a document with other content.
var checkMalformed func(text, live string, r *Rec) error

func init() {
	reg("C01", "lossless", "random valid JSON documents (all escape, number and whitespace spellings, deep and wide shapes); non-trivial: at least two nodes, or a string with an escape, or a number that is not a short integer",
		150000, 6000000, genDocCase(docOpts{}), func(c TextCase, r *Rec) error {
			s := string(c.Text)
			want, err := compactJSON(s)
			if err != nil {
				return errSkipCase
			}
			ref := mustRef(s)
			d := njson.Document{}
			n, tail, err := d.Parse(s)
			if err != nil {
				return errf("Parse(%q) failed: %v", s, err)
			}
			if strings.TrimLeft(tail, " \t\r\n") != "" {
				return errf("Parse(%q) left tail %q", s, tail)
			}
			got, err := serial(n)
			if err != nil {
				return errf("AppendJSON after Parse(%q) failed: %v", s, err)
			}
			if got != want {
				return errf("Parse+AppendJSON of %q gives %q", s, got)
			}
			db, err := d.AppendJSON(nil)
			if err != nil || string(db) != want {
				return errf("Document.AppendJSON of %q gives %q, %v", s, db, err)
			}
			var w bytes.Buffer
			k, err := n.PrintJSON(&w)
			if err != nil || w.String() != want || k != len(want) {
				return errf("PrintJSON of %q gives %q, %d, %v", s, w.String(), k, err)
			}
			if root := d.Root(); root.ID() != n.ID() {
				return errf("document root is not the first parsed value")
			}
			if err := sameTree(n, ref, ""); err != nil {
				return errf("tree of %q: %v", s, err)
			}
			// Every inner node serialises to its own slice. Limit the quadratic cost.
			if len(want) < 4000 {
				if err := innerSerial(n, ref); err != nil {
					return errf("in %q: %v", s, err)
				}
			}
			// Parsing the serialisation again is a fixed point.
			d2 := njson.Document{}
			n2, _, err := d2.Parse(want)
			if err != nil {
				return errf("Parse(%q) of own output failed: %v", want, err)
			}
			if again, _ := serial(n2); again != want {
				return errf("second round of %q gives %q", want, again)
			}
			nodes := 0
			ref.walk(func(v *JV) { nodes++ })
			dep := ref.depth()
			r.NonTrivial(nodes > 1 || strings.Contains(s, `\`) || len(want) > 6)
			r.Label(dep > 60, "deep>60")
			r.Label(dep >= 10000, "deep>=10000")
			r.Label(nodes > 64, "nodes>64")
			r.Label(strings.Contains(s, `\\"`), "backslash-before-quote")
			r.Label(len(s) != len(want), "has-whitespace")
			r.Label(len(s) > 2048, "len>2048")
			return nil
		})

	type mutCase struct {
		Text Q `json:"text"`
		Live Q `json:"live"` // document content before the failing parse
	}
	checkReject := func(c mutCase, r *Rec) error {
		s := string(c.Text)
		d := njson.Document{}
		var live njson.Node
		var lref *JV
		var err error
		if c.Live != "" {
			if live, _, err = d.Parse(string(c.Live)); err != nil {
				return errf("Parse(%q) failed: %v", c.Live, err)
			}
			lref = mustRef(string(c.Live))
		}
		n, tail, err := d.Parse(s)
		p := &refParser{s: s}
		v := p.value(0)
		r.Label(p.lax, "lax-scalar")
		if err != nil {
			r.Label(true, "rejected")
			// whatever happened, earlier content is intact
			if lref == nil {
				if t := d.Root().Type(); t != njson.TypeInvalid {
					return errf("after failed Parse(%q) an empty document has a root of type %v", s, t)
				}
				if out, e := d.AppendJSON(nil); e == nil {
					return errf("after failed Parse(%q) an empty document serialises to %q", s, out)
				}
			}
			for i := 0; lref != nil && i < 2; i++ {
				if got, e := serial(live); e != nil || got != lref.text() {
					return errf("after failed Parse(%q) the earlier value %q reads %q, %v", s, c.Live, got, e)
				}
				if e := sameTree(live, lref, ""); e != nil {
					return errf("after failed Parse(%q): %v", s, e)
				}
				if got, e := d.AppendJSON(nil); e != nil || string(got) != lref.text() {
					return errf("after failed Parse(%q) the document with the value %q reads %q, %v", s, c.Live, got, e)
				}
				if i == 0 && len(s) < 200 {
					d.Parse(s) // failing again changes nothing either
				} else {
					break
				}
			}
			// the caller carries on with a text that is right
			next := `[7,{"k":["v",null]}]`
			nn, _, e := d.Parse(next)
			if e != nil {
				return errf("after failed Parse(%q) Parse(%q) fails: %v", s, next, e)
			}
			if e := sameTree(nn, mustRef(next), ""); e != nil {
				return errf("after failed Parse(%q) Parse(%q): %v", s, next, e)
			}
			if lref == nil {
				lref, live = mustRef(next), nn
			}
			if got, e := d.AppendJSON(nil); e != nil || string(got) != lref.text() {
				return errf("after failed Parse(%q) and Parse(%q) the document reads %q, %v instead of %q", s, next, got, e, lref.text())
			}
			if n.Type() != njson.TypeInvalid && n.Document() != nil {
				return errf("failed Parse(%q) returned a usable node", s)
			}
		}
		if p.lax {
			return nil
		}
		r.NonTrivial(p.status != refOK)
		switch p.status {
		case refOK:
			r.Label(true, "valid")
			if err != nil {
				return errf("Parse(%q) failed: %v", s, err)
			}
			got, e := serial(n)
			if e != nil || got != v.text() {
				return errf("Parse(%q) reads back %q, %v", s, got, e)
			}
			if !strings.HasSuffix(s, tail) || strings.TrimLeft(tail, " \t\r\n") != strings.TrimLeft(s[v.End:], " \t\r\n") {
				return errf("Parse(%q) tail %q, want %q", s, tail, s[v.End:])
			}
			return nil
		case refEOF:
			r.Label(true, "eof")
			if err == nil {
				return errf("Parse(%q) accepted a truncated text", s)
			}
			if _, ok := err.(njson.UnexpectedEOF); !ok {
				return errf("Parse(%q) of a truncated text gives %T %v, want UnexpectedEOF", s, err, err)
			}
			if tail != s {
				return errf("Parse(%q) truncated: tail %q is not the input", s, tail)
			}
			_ = err.Error()
			return nil
		default:
			r.Label(true, "bad")
			if err == nil {
				return errf("Parse(%q) accepted malformed text (offset %d)", s, p.pos)
			}
			_ = err.Error()
			if pe, ok := err.(*njson.ParseError); ok {
				if pe.Pos() < p.pos || pe.Pos() > p.hi {
					return errf("Parse(%q) error position %d, offending token at %d..%d", s, pe.Pos(), p.pos, p.hi)
				}
				if pe.Type() == njson.TypeInvalid {
					return errf("Parse(%q) error names no type", s)
				}
				return nil
			}
			// A literal cut short by the end of input may be reported as EOF.
			if _, ok := err.(njson.UnexpectedEOF); ok && p.hi > p.pos && len(s)-p.pos < 5 {
				r.Label(true, "short-literal")
				return nil
			}
			return errf("Parse(%q) gives %T %v, want *ParseError", s, err, err)
		}
	}
	checkMalformed = func(text, live string, r *Rec) error { return checkReject(mutCase{Q(text), Q(live)}, r) }
	live := func(g G) Q {
		return Q(pick(g, "", `{"a":[1,{"b":"c"}],"d":null}`, `[]`, `"x\\"`, `12`, `{"k":{"k":{"k":[1,2,3,4,5,6,7,8]}}}`))
	}
	reg("C02", "truncate", "every kind of valid document cut at a random offset; non-trivial: the cut text is not itself a complete value",
		150000, 4000000, func(t *rapid.T) mutCase {
			g := G{t}
			s := g.docText(docOpts{depth: g.rng(1, 4)})
			cut := g.n(len(s) + 1)
			if len(s) > 500 {
				cut = len(s) - g.n(40)
			}
			return mutCase{Q(s[:cut]), live(g)}
		}, checkReject)
	reg("C02", "mutate", "valid documents with 1-3 structural edits (delete, insert, replace, swap or duplicate bytes or tokens); non-trivial: the reference recogniser rejects the result",
		200000, 6000000, func(t *rapid.T) mutCase {
			g := G{t}
			s := g.docText(docOpts{depth: g.rng(1, 4), maxKids: 5, strPcs: 3})
			if len(s) > 3000 {
				s = s[:3000]
			}
			for i := 1 + g.n(3); i > 0; i-- {
				s = g.mutate(s)
			}
			return mutCase{Q(s), live(g)}
		}, checkReject)
	reg("C02", "tokens", "random sequences of structural tokens and scalars; non-trivial: rejected by the reference recogniser",
		150000, 4000000, func(t *rapid.T) mutCase {
			g := G{t}
			var b strings.Builder
			n := 1 + g.size(14)
			for i := 0; i < n; i++ {
				b.WriteString(pick(g, "{", "}", "[", "]", ",", ":", `"a"`, `"\\"`, `"\""`, "1", "true", "false", "null", " ", "\n", "tru", "nul", "fals", `"`, `\`, `""`, "nulL", "x", "-1", "{}", "[]", "truefalse", "é", "\x00", "\v", "'"))
			}
			return mutCase{Q(b.String()), live(g)}
		}, checkReject)
	reg("C02", "bytes", "arbitrary byte strings: no panic, and precise verdicts where no scalar is misspelled; non-trivial: longer than two bytes",
		80000, 2000000, func(t *rapid.T) mutCase {
			g := G{t}
			return mutCase{Q(pick(g, "", "{", "[", `{"`, `"`) + g.rawBytes(30)), live(g)}
		}, func(c mutCase, r *Rec) error {
			err := checkReject(c, r)
			r.NonTrivial(len(c.Text) > 2)
			return err
		})

	// Small scope, exhaustively: every sequence of up to six tokens.
	alphabet := []string{"{", "}", "[", "]", ",", ":", `"a"`, "1", " ", "null", `"`, `\\`}
	const alen = 12
	regEnum("C02", "enumerate", "every sequence of 1-5 tokens (quick; 1-6 thorough) over 12 structural tokens, one case per two-token (thorough: three-token) prefix; non-trivial: always",
		alen*alen, alen*alen+alen*alen*alen, func(i int) []int {
			if i < alen*alen {
				return []int{i / alen, i % alen}
			}
			i -= alen * alen
			return []int{i / alen / alen, i / alen % alen, i % alen}
		}, func(c []int, r *Rec) error {
			prefix := ""
			for _, i := range c {
				prefix += alphabet[i]
			}
			r.NonTrivial(true)
			live := Q(`{"a":[1,{"b":"c"}],"d":null}`)
			var rec func(s string, depth int) error
			rec = func(s string, depth int) error {
				if err := checkReject(mutCase{Q(s), live}, &Rec{}); err != nil || depth == 0 {
					return err
				}
				for _, tok := range alphabet {
					if err := rec(s+tok, depth-1); err != nil {
						return err
					}
				}
				return nil
			}
			return rec(prefix, 3)
		})

	// C03: concatenated values.
	type seqCase struct {
		Values []Q   `json:"values"`
		Seps   []Q   `json:"seps"`
		Fail   []int `json:"fail"` // parse a failing text before value i
	}
	reg("C03", "stream", "1-20 valid values joined with legal separators, parsed one after another into one document, failing parses interleaved; non-trivial: at least two values",
		25000, 800000, func(t *rapid.T) seqCase {
			g := G{t}
			var c seqCase
			n := 1 + g.size(19)
			for i := 0; i < n; i++ {
				o := docOpts{depth: g.rng(0, 3), noWS: g.p(1, 2), maxKids: 6, strPcs: 4}
				s := strings.TrimSpace(g.docText(o))
				if len(s) > 6000 {
					s = "[1,2]"
				}
				c.Values = append(c.Values, Q(s))
				sep := g.ws()
				if sep == "" && needSep(s) {
					sep = pick(g, " ", "\n", "\t", "\r\n")
				}
				c.Seps = append(c.Seps, Q(sep))
				if g.p(1, 6) {
					c.Fail = append(c.Fail, i)
				}
			}
			return c
		}, func(c seqCase, r *Rec) error {
			var b strings.Builder
			starts := make([]int, len(c.Values)+1)
			for i, v := range c.Values {
				b.WriteString(string(v))
				starts[i+1] = b.Len()
				b.WriteString(string(c.Seps[i]))
			}
			text := b.String()
			fail := map[int]bool{}
			for _, i := range c.Fail {
				fail[i] = true
			}
			d := njson.Document{}
			rest := text
			var roots []njson.Node
			var refs []*JV
			bads := []string{`{"a":[1,2,`, `[1,2,{"x":tru}]`, `{"a":1,}`, `"abc`, `[[[[[[[[`, `{"q":{"r":[1,2,3]},"s":nope}`}
			for i, v := range c.Values {
				if fail[i] {
					if _, _, err := d.Parse(bads[i%len(bads)]); err == nil {
						return errf("Parse(%q) accepted", bads[i%len(bads)])
					}
				}
				n, tail, err := d.Parse(rest)
				if err != nil {
					return errf("value %d of %q: %v", i, text, err)
				}
				if !strings.HasSuffix(rest, tail) {
					return errf("value %d of %q: tail %q is not a suffix", i, text, tail)
				}
				wantTail := text[starts[i+1]:]
				if tail != wantTail {
					return errf("value %d of %q: tail %q, want %q", i, text, tail, wantTail)
				}
				roots = append(roots, n)
				refs = append(refs, mustRef(string(v)))
				rest = tail
			}
			if strings.TrimSpace(rest) != "" {
				return errf("%q leaves %q", text, rest)
			}
			if _, _, err := d.Parse(rest); err == nil {
				return errf("empty rest parsed")
			}
			for i, n := range roots {
				want := refs[i].text()
				if got, err := serial(n); err != nil || got != want {
					return errf("value %d of %q reads %q after all parses (%v)", i, text, got, err)
				}
				if err := sameTree(n, refs[i], ""); err != nil {
					return errf("value %d of %q: %v", i, text, err)
				}
			}
			if db, err := d.AppendJSON(nil); err != nil || string(db) != refs[0].text() {
				return errf("Document.AppendJSON with several roots gives %q, %v", db, err)
			}
			r.NonTrivial(len(c.Values) > 1)
			r.Label(len(c.Fail) > 0, "with-failures")
			r.Label(len(c.Values) > 8, "values>8")
			return nil
		})
}

// needSep: a number or literal directly followed by another value would merge.
func needSep(s string) bool {
	if s == "" {
		return true
	}
	c := s[0]
	return c == '-' || c >= '0' && c <= '9'
}

func (g G) mutate(s string) string {
	if s == "" {
		return pick(g, "}", "]", ",", `"`)
	}
	// prefer structural positions
	i := g.n(len(s))
	if g.p(2, 3) {
		for j := 0; j < len(s); j++ {
			k := (i + j) % len(s)
			if strings.IndexByte(`{}[],:"`, s[k]) >= 0 {
				i = k
				break
			}
		}
	}
	switch g.n(7) {
	case 0:
		return s[:i] + s[i+1:]
	case 1:
		return s[:i] + pick(g, "{", "}", "[", "]", ",", ":", `"`, `\`, " ", "x", "1", "null", "é", "\x00") + s[i:]
	case 2:
		return s[:i] + pick(g, "{", "}", "[", "]", ",", ":", `"`, `\`, " ", "x", "0", "t") + s[i+1:]
	case 3:
		return s[:i] + string(s[i]) + s[i:]
	case 4:
		j := g.n(len(s))
		b := []byte(s)
		b[i], b[j] = b[j], b[i]
		return string(b)
	case 5:
		j := i + 1 + g.n(4)
		if j > len(s) {
			j = len(s)
		}
		return s[:i] + s[j:]
	default:
		return s[:i] + pick(g, "true", "tru", "trux", "nul", "nulx", "falsy", "fals", "nil", "None", "undefined", "'a'", "//c\n", "/*c*/") + s[i:]
	}
}

// innerSerial checks that every node inside n serialises to its own slice.
func innerSerial(n njson.Node, v *JV) error {
	it := n.Values()
	for i := 0; it.Next() && i < len(v.A); i++ {
		k := it.Value()
		got, err := serial(k)
		if err != nil || got != v.A[i].text() {
			return errf("inner node serialises to %q, %v, want %q", got, err, v.A[i].text())
		}
		if err := innerSerial(k, v.A[i]); err != nil {
			return err
		}
	}
	return nil
}
