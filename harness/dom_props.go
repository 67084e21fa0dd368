package main

import (
	"math"

	"pgregory.net/rapid"
)

var domKeys = []string{"a", "b", "c", "", "0", `\u0061`, `k\"q`, "é", "longer_than_sixteen_bytes"}

type domMix struct {
	docs     int
	weights  map[string]int
	maxOps   int
	docDepth int
	wide     bool // documents start with long arrays and objects
}

// wideDoc has one or two long containers.
func (g G) wideDoc() Q {
	n := pick(g, 9, 15, 16, 17, 31, 32, 33, 41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300)
	v := &Big{K: pick(g, "arr", "arr", "obj"), N: n, Pre: "a", Kid: &Big{K: "lit", S: g.domText(1)}}
	if v.K == "arr" {
		v.S = Q(pick(g, "$", "[$]", `"$"`, `{"a":$}`, "[]", "{}"))
	} else {
		v.S = Q(pick(g, `"k$":$`, `"$":[$]`, `"k$":{"a":$}`))
	}
	switch g.n(3) {
	case 0:
		v = &Big{K: "nest", N: 1, Pre: `[0,`, Post: pick[Q](g, "]", ",1]", ",[2]]"), Kid: v}
	case 1:
		v = &Big{K: "nest", N: 1, Pre: `{"a":`, Post: pick[Q](g, "}", `,"b":1}`), Kid: v}
	}
	return Q(v.text())
}

func (g G) domText(depth int) Q {
	o := docOpts{depth: g.rng(0, depth), maxKids: 4, strPcs: 2}
	for i := 0; i < 3; i++ {
		s := g.domDoc(o)
		if len(s) < 600 {
			return Q(s)
		}
	}
	return `{"a":[1,{"b":2}],"c":{}}`
}

// domDoc: like docText but with the small key pool and without giant shapes.
func (g G) domDoc(o docOpts) string {
	if o.depth <= 0 || g.p(1, 4) {
		return pick(g, "null", "true", "false", "1", "-2.50e3", `"x"`, `""`, `"q\"\\"`, `"\u00e9é"`, "[]", "{}", "9007199254740993")
	}
	n := g.size(4)
	s := ""
	obj := g.p(1, 2)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ","
		}
		if obj {
			s += `"` + pickS(g, domKeys) + `":`
		}
		o2 := o
		o2.depth--
		s += g.domDoc(o2)
	}
	if obj {
		return "{" + s + "}"
	}
	return "[" + s + "]"
}

var badTexts = []Q{`{"a":[1,2,`, `[1,2,{"x":tru}]`, `{"a":1,}`, `"abc`, `[[[[[[[[`, `{"q":{"r":[1,2,3]},"s":nope}`, ``, `[[1,2,3,4],[5,6,7,8],{"a":1,"b":2,"c":3`, `{"a":{"b":{"c":[{"d":[{"e":1},2]},3]}}]`}

func (g G) domOp(mix domMix, names []string) Op {
	op := Op{Op: pickS(g, names)}
	if mix.docs > 1 {
		op.D = g.n(mix.docs)
	}
	op.H = g.n(24) + pick(g, 0, 24, 24)
	idx := func() int64 {
		if mix.wide && g.p(1, 2) {
			return int64(g.n(300))
		}
		if g.p(1, 12) {
			return pick[int64](g, -1, math.MinInt64, math.MaxInt64, 1000, 64)
		}
		return int64(g.n(5))
	}
	switch op.Op {
	case "parse":
		op.Text = g.domText(mix.docDepth)
		if mix.wide && g.p(1, 2) {
			op.Text = g.wideDoc()
		}
	case "badparse":
		op.Text = pickS(g, badTexts)
	case "new":
		op.I = int64(pick(g, 0, 1, 0, 1, 0, 1, 2, 3, 4))
	case "text", "setstring":
		op.Text = Q(g.rawBytes(4))
		op.I = int64(g.n(2))
	case "raw", "setraw":
		op.Text = Q(g.strBody(3))
	case "number", "setfloat":
		op.I = int64(math.Float64bits(g.float64()))
	case "get", "del", "strip":
		op.Key = Q(pickS(g, domKeys))
	case "getnth", "index", "remove":
		op.I = idx()
	case "slice":
		op.I, op.J = idx(), idx()
		if g.p(2, 3) && op.I > op.J {
			op.I, op.J = op.J, op.I
		}
	case "lookup":
		n := g.size(4)
		for i := 0; i < n; i++ {
			op.Keys = append(op.Keys, Q(pick(g, "a", "b", "c", "0", "1", "2", "", "longer_than_sixteen_bytes", "-1", "a0", "18446744073709551616", "é")))
		}
	case "set":
		op.Key = Q(pickS(g, domKeys))
		op.V = []int{g.n(24) + pick(g, 0, 24, 48)}
	case "append":
		n := g.size(4)
		op.V = []int{}
		for i := 0; i < n; i++ {
			op.V = append(op.V, g.n(24)+pick(g, 0, 24, 48))
		}
	case "replace":
		op.I = idx()
		op.V = []int{g.n(24) + pick(g, 0, 24, 48)}
	case "setint", "setuint":
		op.I = pick[int64](g, 0, 1, -1, 42, math.MaxInt64, math.MinInt64, int64(g.bits(64)))
	case "setlit":
		op.I = int64(g.n(3))
	case "with":
		op.V = []int{g.n(24) + pick(g, 0, 24, 48)}
		op.I = int64(g.n(5))
	}
	return op
}

func genDom(mix domMix) func(t *rapid.T) DomCase {
	var names []string
	for _, n := range []string{"parse", "badparse", "new", "text", "raw", "number", "get", "getnth", "index", "lookup", "set", "append", "replace", "remove", "slice", "del", "strip", "setint", "setuint", "setfloat", "setstring", "setraw", "setlit", "reset", "close", "pool", "with"} {
		for i := 0; i < mix.weights[n]; i++ {
			names = append(names, n)
		}
	}
	return func(t *rapid.T) DomCase {
		g := G{t}
		c := DomCase{Docs: mix.docs}
		// A container to work on first.
		if mix.wide {
			c.Ops = append(c.Ops, Op{Op: "parse", Text: g.wideDoc()})
		} else if g.p(3, 4) {
			c.Ops = append(c.Ops, Op{Op: "parse", Text: g.domText(mix.docDepth)})
		}
		c.Ops = append(c.Ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
			return G{t}.domOp(mix, names)
		}), pick(g, 1, mix.maxOps/6, mix.maxOps/3, mix.maxOps*2/3), mix.maxOps).Draw(t, "ops")...)
		return c
	}
}

func init() {
	reg("C09", "edits", "programs of 1-45 constructor, navigation and edit calls on one document, checked against a plain tree after every step; non-trivial: at least one edit took effect",
		120000, 4000000, genDom(domMix{docs: 1, maxOps: 45, docDepth: 3, weights: map[string]int{
			"parse": 3, "badparse": 1, "new": 6, "text": 2, "raw": 1, "number": 2, "get": 2, "getnth": 4, "index": 4, "lookup": 2,
			"set": 8, "append": 8, "replace": 4, "remove": 4, "slice": 3, "del": 4, "strip": 3,
			"setint": 1, "setuint": 1, "setfloat": 1, "setstring": 2, "setraw": 1, "setlit": 2, "with": 1}}),
		func(c DomCase, r *Rec) error {
			m, err := runDom(c, r)
			r.NonTrivial(m.edits > 0)
			return err
		})
	reg("C10", "alias", "programs that insert nodes of one document into each other, themselves, ancestors and descendants, interleaved with edits through every handle; non-trivial: at least two insertions took effect",
		120000, 4000000, genDom(domMix{docs: 1, maxOps: 40, docDepth: 2, weights: map[string]int{
			"parse": 1, "new": 6, "getnth": 5, "index": 5, "set": 12, "append": 12, "replace": 6, "remove": 2, "slice": 1, "del": 2, "setint": 2, "setlit": 1, "setraw": 1}}),
		func(c DomCase, r *Rec) error {
			m, err := runDom(c, r)
			r.NonTrivial(m.inserts > 1)
			return err
		})
	reg("C11", "cross", "programs over three documents that insert values across documents, edit, reset, close and refill them; non-trivial: at least one cross-document insertion took effect",
		120000, 4000000, genDom(domMix{docs: 3, maxOps: 45, docDepth: 3, weights: map[string]int{
			"parse": 6, "badparse": 1, "new": 6, "text": 1, "getnth": 4, "index": 4, "set": 9, "append": 9, "replace": 4, "remove": 2, "slice": 1, "del": 2, "strip": 1, "setint": 2, "setraw": 1, "setlit": 1, "reset": 1, "close": 1, "pool": 1}}),
		func(c DomCase, r *Rec) error {
			m, err := runDom(c, r)
			r.NonTrivial(m.cross > 0)
			return err
		})
	// The same on wide containers.
	for _, prop := range []string{"C09", "C10", "C11"} {
		mix := domMix{docs: 1, maxOps: 14, docDepth: 1, wide: true, weights: map[string]int{
			"parse": 1, "new": 2, "getnth": 6, "index": 6, "get": 1, "set": 6, "append": 6, "replace": 4, "remove": 6, "slice": 4, "del": 3, "strip": 2, "setint": 1, "setlit": 1}}
		if prop == "C11" {
			mix.docs, mix.weights["parse"], mix.weights["reset"], mix.weights["pool"] = 2, 4, 1, 1
		}
		reg(prop, "wide", "programs of up to 15 steps on arrays and objects of 9-300 values; non-trivial: at least one edit or insertion took effect",
			20000, 600000, genDom(mix), func(c DomCase, r *Rec) error {
				m, err := runDom(c, r)
				if prop == "C09" {
					r.NonTrivial(m.edits > 0)
				} else {
					r.NonTrivial(m.inserts+m.cross > 0)
				}
				return err
			})
	}
	reg("C04", "programs", "parse/build/edit/failed-parse programs on two documents with resets and pool round trips in between, each read checked against a plain tree; non-trivial: at least one reset followed by at least one value",
		120000, 4000000, genDom(domMix{docs: 2, maxOps: 45, docDepth: 4, weights: map[string]int{
			"parse": 12, "badparse": 5, "new": 4, "text": 1, "number": 1, "getnth": 2, "index": 2, "set": 4, "append": 4, "replace": 1, "remove": 2, "slice": 2, "del": 2, "strip": 1, "setint": 1, "setlit": 1, "reset": 5, "close": 4, "pool": 4}}),
		func(c DomCase, r *Rec) error {
			m, err := runDom(c, r)
			live := 0
			for _, h := range m.hs {
				if h.m != nil {
					live++
				}
			}
			r.NonTrivial(m.resets > 0 && live > 0)
			return err
		})
	reg("C05", "stale", "programs in which many handles are stale or empty (after resets, closes, failed lookups) and are used as receivers and as arguments of every call, while documents are refilled; non-trivial: at least one call used an empty handle after a reset",
		120000, 4000000, genDom(domMix{docs: 2, maxOps: 45, docDepth: 3, weights: map[string]int{
			"parse": 6, "badparse": 1, "new": 4, "get": 3, "getnth": 2, "index": 3, "lookup": 3, "set": 5, "append": 5, "replace": 3, "remove": 2, "slice": 2, "del": 2, "strip": 2, "setint": 1, "setuint": 1, "setfloat": 1, "setstring": 1, "setraw": 1, "setlit": 1, "reset": 4, "close": 2, "pool": 1, "with": 2}}),
		func(c DomCase, r *Rec) error {
			m, err := runDom(c, r)
			r.NonTrivial(m.deadUse > 0 && m.resets > 0)
			return err
		})
}
