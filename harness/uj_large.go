package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// LargeCase is a short description of a large Go value or of a text for one.
type LargeCase struct {
	K    string  `json:"k"` // slice array map struct embed ptr list iface
	N    int     `json:"n"`
	E    TSpec   `json:"e"`              // element
	V    []VSpec `json:"v,omitempty"`    // element values, repeated
	Docs []Q     `json:"docs,omitempty"` // element texts, repeated
	OldN int     `json:"oldn,omitempty"` // elements the target has before
	Old  []VSpec `json:"old,omitempty"`
	Ptr  bool    `json:"ptr,omitempty"`
	Emb  bool    `json:"emb,omitempty"` // pointers to embedded structs
}

func (c *LargeCase) typ() TSpec {
	e := c.E
	switch c.K {
	case "slice":
		return TSpec{K: "slice", Elem: &e}
	case "array":
		return TSpec{K: "array", Len: c.N, Elem: &e}
	case "map":
		return TSpec{K: "map", Key: &TSpec{K: "string"}, Elem: &e}
	case "struct":
		t := TSpec{K: "struct"}
		for i := 0; i < c.N; i++ {
			t.F = append(t.F, FSpec{Name: "F" + strconv.Itoa(i), T: e, Tag: Q(fmt.Sprintf(`json:"m%d"`, i))})
		}
		return t
	case "embed":
		t := TSpec{K: "struct"}
		for i := c.N - 1; i >= 0; i-- {
			f := FSpec{Name: "F" + strconv.Itoa(i), T: e, Tag: Q(fmt.Sprintf(`json:"m%d"`, i))}
			if t.F == nil {
				t.F = []FSpec{f}
				continue
			}
			in := t
			if c.Emb && i%3 == 1 {
				in = TSpec{K: "ptr", Elem: &in}
				in.Elem = &TSpec{K: "struct", F: t.F}
			}
			t = TSpec{K: "struct", F: []FSpec{{Name: "E" + strconv.Itoa(i), T: in, Emb: true}, f}}
			if i%2 == 0 {
				t.F[0], t.F[1] = t.F[1], t.F[0]
			}
		}
		return t
	case "ptr":
		t := e
		for i := 0; i < c.N; i++ {
			in := t
			t = TSpec{K: "ptr", Elem: &in}
		}
		return t
	case "list":
		return TSpec{K: "List"}
	}
	return TSpec{K: "iface"}
}

// value makes the value with n elements out of vs.
func (c *LargeCase) value(n int, vs []VSpec) VSpec {
	at := func(i int) VSpec { return vs[i%len(vs)] }
	switch c.K {
	case "map":
		v := VSpec{L: []VSpec{}}
		for i := 0; i < n; i++ {
			v.MK = append(v.MK, VSpec{S: Q("k" + strconv.Itoa(i))})
			v.L = append(v.L, at(i))
		}
		return v
	case "embed":
		v := VSpec{}
		for i := n - 1; i >= 0; i-- {
			if v.L == nil {
				v.L = []VSpec{at(i)}
				continue
			}
			in := v
			if c.Emb && i%3 == 1 {
				in = VSpec{L: []VSpec{v}}
			}
			v = VSpec{L: []VSpec{in, at(i)}}
			if i%2 == 0 {
				v.L[0], v.L[1] = v.L[1], v.L[0]
			}
		}
		return v
	case "ptr":
		v := at(0)
		for i := 0; i < n; i++ {
			v = VSpec{L: []VSpec{v}}
		}
		return v
	case "list":
		v := VSpec{Nil: true}
		for i := n - 1; i >= 0; i-- {
			in := VSpec{L: []VSpec{{S: Q("v" + strconv.Itoa(i))}, v}}
			if i > 0 {
				in = VSpec{L: []VSpec{in}}
			}
			v = in
		}
		if n == 0 {
			return VSpec{L: []VSpec{{}, v}}
		}
		return v
	case "iface":
		x := TSpec{K: "iface"}
		v := VSpec{X: &TSpec{K: "string"}, L: []VSpec{{S: "x"}}}
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				v = VSpec{X: &TSpec{K: "slice", Elem: &x}, L: []VSpec{{L: []VSpec{v}}}}
			} else {
				v = VSpec{X: &TSpec{K: "map", Key: &TSpec{K: "string"}, Elem: &x}, L: []VSpec{{MK: []VSpec{{S: "k"}}, L: []VSpec{v}}}}
			}
		}
		return v
	}
	v := VSpec{L: []VSpec{}}
	for i := 0; i < n; i++ {
		v.L = append(v.L, at(i))
	}
	return v
}

func (c *LargeCase) text() string {
	var b strings.Builder
	at := func(i int) string { return string(c.Docs[i%len(c.Docs)]) }
	switch c.K {
	case "ptr":
		return at(0)
	case "list":
		for i := 0; i < c.N; i++ {
			fmt.Fprintf(&b, `{"V":%s,"next":`, at(i))
		}
		return b.String() + "null" + strings.Repeat("}", c.N)
	case "iface":
		for i := 0; i < c.N; i++ {
			b.WriteString(pickAt(i, "[", `{"k":`))
		}
		b.WriteString(at(0))
		for i := c.N - 1; i >= 0; i-- {
			b.WriteString(pickAt(i, "]", "}"))
		}
		return b.String()
	}
	key := map[string]string{"map": `"k%d":`, "struct": `"m%d":`, "embed": `"m%d":`}[c.K]
	if key == "" {
		b.WriteByte('[')
	} else {
		b.WriteByte('{')
	}
	for i := 0; i < c.N; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		if key != "" {
			fmt.Fprintf(&b, key, i)
		}
		b.WriteString(at(i))
	}
	if key == "" {
		return b.String() + "]"
	}
	return b.String() + "}"
}

func pickAt(i int, s ...string) string { return s[i%len(s)] }

func (g G) largeShape(round bool) LargeCase {
	c := LargeCase{K: pick(g, "slice", "slice", "array", "map", "map", "struct", "embed", "ptr", "list", "iface"), Ptr: g.p(1, 2), Emb: g.p(1, 2)}
	o := plainTypes()
	o.bytes, o.libProb = false, 0
	if round {
		o.ptrs, o.hide, o.conflicts = false, false, false
	}
	c.E = g.typ(o, pick(g, 0, 0, 1, 2))
	switch c.K {
	case "struct":
		c.N = g.near(300)
	case "embed":
		c.N = 1 + g.n(24)
	case "ptr":
		c.N = 1 + g.n(70)
	case "list", "iface":
		c.N = g.near(3000)
	case "array":
		c.N = g.near(600)
	default:
		c.N = g.near(1500)
		if g.p(1, 12) && (c.E.K == "bool" || c.E.K == "int8" || c.E.K == "uint8") {
			c.N = g.near(70000)
		}
	}
	if c.E.K == "uint8" {
		c.E.K = "uint16"
	}
	return c
}

func (c *LargeCase) labels(r *Rec) {
	r.Label(true, c.K)
	r.Label(c.N > 256, "over 256")
	r.Label(c.N > 1024, "over 1024")
	r.NonTrivial(c.N > 8)
}

func largeErr(c LargeCase, err error) error {
	if err == nil || err == errSkipCase {
		return err
	}
	return errf("%s: %v", mustJSON(c), short(err.Error()))
}

func init() {
	const what = "large values: slices, arrays, maps (up to 1500 elements, scalars 70000), structs of up to 300 fields, 24 embedded levels, 70 pointers, 3000 nested values, described by a few elements; non-trivial: more than 8 of them"
	vals := func(g G, t reflect.Type, o valOpts) (out []VSpec) {
		for i := 1 + g.n(5); i > 0; i-- {
			out = append(out, g.val(t, o, 3))
		}
		return
	}
	reg("C17", "large", what, 700, 20000, func(t *rapid.T) LargeCase {
		g := G{t}
		c := g.largeShape(false)
		c.V = vals(g, c.E.typ(false), valOpts{zeroProb: 2})
		return c
	}, func(c LargeCase, r *Rec) error {
		err := checkEncode(EncCase{T: c.typ(), V: c.value(c.N, c.V), Ptr: c.Ptr}, &Rec{})
		c.labels(r)
		return largeErr(c, err)
	})
	reg("C18", "large", what+", some into values that hold other elements already", 700, 20000, func(t *rapid.T) LargeCase {
		g := G{t}
		c := g.largeShape(false)
		d := docGen{noise: true}
		if g.p(1, 3) && c.K != "ptr" && c.K != "list" {
			d = docGen{noise: true, noNulls: true}
			c.E = TSpec{K: pickS(g, scalarNames)}
			if c.E.K == "uint8" {
				c.E.K = "int16"
			}
			c.OldN = g.near(1500)
			if c.K == "embed" || c.K == "struct" || c.K == "array" {
				c.OldN = c.N
			}
			c.Old = vals(g, c.E.typ(false), valOpts{})
		}
		rt := c.E.typ(false)
		if c.K == "list" {
			rt = basicTypes["string"]
		} else if c.K == "iface" {
			rt = basicTypes["iface"]
		}
		d.init(rt, "json")
		for i := 1 + g.n(5); i > 0; i-- {
			c.Docs = append(c.Docs, Q(d.doc(g, rt, "json", 3)))
		}
		return c
	}, func(c LargeCase, r *Rec) error {
		dc := DecCase{T: c.typ(), Text: Q(c.text())}
		if c.OldN > 0 {
			v := c.value(c.OldN, c.Old)
			dc.Into = &v
		}
		if c.K == "array" && c.Ptr && c.N > 1 { // a shorter or longer text
			dc.T.Len += c.N % 7 * 5
		}
		err := checkDecode(dc, &Rec{})
		c.labels(r)
		r.Label(c.OldN > 0, "prefilled")
		return largeErr(c, err)
	})
	reg("C19", "large", what+", some into values that hold other elements already", 700, 20000, func(t *rapid.T) LargeCase {
		g := G{t}
		c := g.largeShape(true)
		c.V = vals(g, c.E.typ(false), valOpts{validUTF8: true, generic: true, zeroProb: 2})
		if (c.K == "slice" || c.K == "array" || c.K == "struct") && g.p(1, 2) {
			c.E = TSpec{K: pickS(g, scalarNames)}
			c.V = vals(g, c.E.typ(false), valOpts{validUTF8: true})
			c.OldN = g.near(1500)
			if c.K != "slice" {
				c.OldN = c.N
			}
			c.Old = vals(g, c.E.typ(false), valOpts{})
		}
		if c.K == "ptr" && (c.E.typ(false).Kind() == reflect.Map || c.E.K == "iface") {
			c.E, c.V = TSpec{K: "int"}, []VSpec{{I: 7}}
		}
		return c
	}, func(c LargeCase, r *Rec) error {
		rc := RoundCase{T: c.typ(), V: c.value(c.N, c.V)}
		if c.OldN > 0 {
			v := c.value(c.OldN, c.Old)
			rc.Into = &v
		}
		err := checkRound(rc, &Rec{})
		c.labels(r)
		r.Label(c.OldN > 0, "prefilled")
		return largeErr(c, err)
	})
}

// BigNum is a short description of a long number.
type BigNum struct {
	Neg  bool   `json:"neg,omitempty"`
	Int  string `json:"int"`          // integer part
	ZI   int    `json:"zi,omitempty"` // zeros after it
	Rep  int    `json:"rep,omitempty"`
	Dot  bool   `json:"dot,omitempty"`
	ZF   int    `json:"zf,omitempty"` // zeros after the point
	Frac string `json:"frac,omitempty"`
	ZT   int    `json:"zt,omitempty"` // zeros at the end
	Exp  string `json:"exp,omitempty"`
}

func (n *BigNum) text() string {
	var b strings.Builder
	if n.Neg {
		b.WriteByte('-')
	}
	b.WriteString(n.Int)
	b.WriteString(strings.Repeat("0", n.ZI))
	b.WriteString(strings.Repeat("9", n.Rep))
	if n.Dot {
		b.WriteByte('.')
		b.WriteString(strings.Repeat("0", n.ZF) + n.Frac + strings.Repeat("0", n.ZT))
		if n.ZF+len(n.Frac)+n.ZT == 0 {
			b.WriteByte('0')
		}
	}
	return b.String() + n.Exp
}

// bigNum draws numbers of many digits whose exponents often make up for them.
func (g G) bigNum() BigNum {
	n := BigNum{Neg: g.p(1, 3), Int: pick(g, "0", "1", "123", "9", "18446744073709551615", "9223372036854775808", "4503599627370496", "25", g.intDigits(1+g.n(19)))}
	size := pick(g, 40, 400, 3000, 30000, 70000)
	e := 0
	switch g.n(4) {
	case 0: // 123000...e-N
		n.ZI = g.near(size)
		e = -n.ZI
		if g.p(1, 2) {
			n.Dot, n.Frac, n.ZT = true, pick(g, "", "5", "25"), g.n(5)
		}
	case 1: // 0.000...123eN
		n.Int, n.Dot = "0", true
		n.ZF, n.Frac = g.near(size), pick(g, "1", "5", "123", "18446744073709551615", "9223372036854775807", g.intDigits(1+g.n(20)))
		e = n.ZF + len(n.Frac)
		if g.p(1, 4) {
			n.ZT = g.near(size)
		}
	case 2: // 12.3000...
		n.Dot, n.Frac, n.ZT = true, pick(g, "", "5", "123", "000", "0000001"), g.near(size)
		e = g.rng(-30, 30)
	default: // 1999...
		n.Rep = g.near(size)
		e = -n.Rep
	}
	if n.Int[0] == '0' && n.ZI+n.Rep > 0 {
		n.Int = "7"
	}
	if e += pick(g, 0, 0, 0, 1, -1, g.rng(-25, 25)); e != 0 && !g.p(1, 12) {
		n.Exp = pick(g, "e", "E") + strconv.Itoa(e)
		if e > 0 && g.p(1, 3) {
			n.Exp = "e+" + strings.Repeat("0", g.n(5)) + strconv.Itoa(e)
		}
	}
	return n
}

func init() {
	const what = "numbers of up to 70000 digits whose exponents mostly make up for the zeros; non-trivial: over 100 characters"
	add := func(prop string, quick, thorough int, check func(s string) error) {
		reg(prop, "long-numbers", what, quick, thorough, func(t *rapid.T) BigNum { return G{t}.bigNum() },
			func(c BigNum, r *Rec) error {
				s := c.text()
				if !json.Valid([]byte(s)) {
					panic(harnessBug{fmt.Errorf("%+v", c)})
				}
				r.NonTrivial(len(s) > 100)
				r.Label(len(s) > 1000, "over 1000")
				r.Label(len(s) > 10000, "over 10000")
				_, isInt := refInteger(s)
				r.Label(isInt, "integral")
				if err := check(s); err != nil {
					return errf("%s: %v", mustJSON(c), short(err.Error()))
				}
				return nil
			})
	}
	add("C14", 8000, 200000, checkParseFloat)
	add("C15", 8000, 200000, checkParseInts)
	add("C07", 4000, 100000, func(s string) error { return checkNumberText(s, "[", &Rec{}) })
}
