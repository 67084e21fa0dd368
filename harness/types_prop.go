package main

import (
	"fmt"
	"strings"

	"github.com/alxarch/njson"
	"pgregory.net/rapid"
)

var singleTypes = []struct {
	t    njson.Type
	text string // a value of the type
}{
	{njson.TypeString, `"s"`}, {njson.TypeObject, `{"a":1}`}, {njson.TypeArray, `[1]`},
	{njson.TypeNumber, `12`}, {njson.TypeBoolean, `true`}, {njson.TypeNull, `null`},
}

func checkMask(t njson.Type) error {
	types := t.Types()
	var union njson.Type
	seen := map[njson.Type]bool{}
	for _, x := range types {
		if x == 0 || x&(x-1) != 0 {
			return errf("Types of mask %d: %d is not a single type", uint8(t), uint8(x))
		}
		if seen[x] {
			return errf("Types of mask %d lists %d twice", uint8(t), uint8(x))
		}
		if t&x == 0 {
			return errf("Types of mask %d lists %d", uint8(t), uint8(x))
		}
		seen[x] = true
		union |= x
	}
	if union != t {
		return errf("Types of mask %d have the union %d", uint8(t), uint8(union))
	}
	if len(types) > 0 { // the result belongs to the caller
		types[0] = 0
		if again := t.Types(); again[0] == 0 {
			return errf("Types of mask %d: results share memory", uint8(t))
		}
	}
	isValue := false
	names := map[string]njson.Type{}
	for _, s := range singleTypes {
		isValue = isValue || t&s.t != 0
		n := s.t.String()
		if n == "" || names[n] != 0 {
			return errf("name %q of type %d is empty or taken by %d", n, uint8(s.t), uint8(names[n]))
		}
		names[n] = s.t
	}
	if t.IsValue() != isValue {
		return errf("IsValue of mask %d is %v", uint8(t), t.IsValue())
	}
	if bad := njson.TypeInvalid.String(); bad == "" || names[bad] != 0 {
		return errf("name %q of TypeInvalid is empty or taken by %d", bad, uint8(names[bad]))
	}
	str := t.String()
	if t != njson.TypeAnyValue { // has a name of its own
		for n, x := range names {
			if strings.Contains(str, n) != (t&x != 0) {
				return errf("String of mask %d is %q: %s", uint8(t), str, n)
			}
		}
	} else if names[str] != 0 || str == njson.TypeInvalid.String() || str == "" {
		return errf("String of TypeAnyValue is %q", str)
	}
	return nil
}

func checkTypeError(want njson.Type) error {
	d := njson.Document{}
	nodes := []njson.Node{{}, d.Object(), d.Array(), d.Text("x"), d.Number(1), d.True(), d.False(), d.Null()}
	types := []njson.Type{0, njson.TypeObject, njson.TypeArray, njson.TypeString, njson.TypeNumber, njson.TypeBoolean, njson.TypeBoolean, njson.TypeNull}
	for _, s := range singleTypes {
		n, _, err := d.Parse(s.text)
		if err != nil {
			return errf("Parse(%q): %v", s.text, err)
		}
		nodes = append(nodes, n)
		types = append(types, s.t)
	}
	for i, n := range nodes {
		t := types[i]
		if n.Type() != t {
			return errf("node %d has type %v, want %v", i, n.Type(), t)
		}
		err := n.TypeError(want)
		if err == nil {
			return errf("TypeError(%d) of a %v is nil", uint8(want), t)
		}
		msg := err.Error()
		if !strings.Contains(msg, t.String()) {
			return errf("TypeError(%d) of a %v does not name it: %q", uint8(want), t, msg)
		}
		if t&want != 0 {
			continue // not a mismatch
		}
		for _, s := range singleTypes {
			if named := strings.Contains(msg, s.t.String()); named != (want&s.t != 0 || t == s.t) {
				return errf("TypeError(%d) of a %v: %q (%v)", uint8(want), t, msg, s.t)
			}
		}
	}
	// other errors that name a type must not fail to print
	for _, t := range []njson.Type{want} {
		if msg := njson.UnexpectedEOF(t).Error(); !strings.Contains(msg, t.String()) {
			return errf("UnexpectedEOF(%d): %q", uint8(t), msg)
		}
	}
	return nil
}

// TypeCase is a mask.
type TypeCase struct {
	Mask uint8 `json:"mask"`
}

func init() {
	at := func(i int) TypeCase { return TypeCase{uint8(i)} }
	regEnum("C30", "masks", "all 256 values of Type: Types, IsValue, String; non-trivial: more than one member", 256, 256, at,
		func(c TypeCase, r *Rec) error {
			r.NonTrivial(c.Mask&(c.Mask-1) != 0)
			return checkMask(njson.Type(c.Mask))
		})
	regEnum("C30", "type-errors", "TypeError of nodes of every type (and of no node) with all 256 wanted masks; non-trivial: at least one value type wanted", 256, 256, at,
		func(c TypeCase, r *Rec) error {
			r.NonTrivial(njson.Type(c.Mask).IsValue())
			return checkTypeError(njson.Type(c.Mask))
		})
	reg("C30", "parse-errors", "errors of failed parses print their position and type without panicking; non-trivial: a ParseError",
		40000, 1000000, func(t *rapid.T) TextCase {
			g := G{t}
			var b strings.Builder
			g.value(&b, docOpts{maxKids: 4}, 2)
			return TextCase{Text: Q(g.mutate(b.String()))}
		}, func(c TextCase, r *Rec) error {
			d := njson.Document{}
			_, _, err := d.Parse(string(c.Text))
			if err == nil {
				return nil
			}
			msg := err.Error()
			if pe, ok := err.(*njson.ParseError); ok {
				r.NonTrivial(true)
				if !strings.Contains(msg, fmt.Sprint(pe.Pos())) || !strings.Contains(msg, pe.Type().String()) {
					return errf("error of Parse(%q) does not name position %d and type %v: %q", string(c.Text), pe.Pos(), pe.Type(), msg)
				}
			}
			return nil
		})
}
