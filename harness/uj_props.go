package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"pgregory.net/rapid"
)

// EncCase is a value of some type to encode.
type EncCase struct {
	T      TSpec `json:"t"`
	V      VSpec `json:"v"`
	Ptr    bool  `json:"ptr,omitempty"` // pass a pointer to the value
	Prefix Q     `json:"prefix,omitempty"`
	Spare  int   `json:"spare,omitempty"`
}

func (c *EncCase) values() (x interface{}, twin interface{}, v, tv reflect.Value) {
	v = build(c.T.typ(false), c.V, false)
	tv = build(c.T.typ(true), c.V, true)
	if c.Ptr {
		return v.Addr().Interface(), tv.Addr().Interface(), v, tv
	}
	return v.Interface(), tv.Interface(), v, tv
}

func jsonMarshal(x interface{}) (b []byte, err error) {
	defer func() {
		if p := recover(); p != nil { // methods on values encoding/json cannot handle
			err = fmt.Errorf("encoding/json panics: %v", p)
		}
	}()
	return json.Marshal(x)
}

func bigEnough(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && bigEnough(v.Elem())
	case reflect.Slice, reflect.Array, reflect.Map:
		return v.Len() > 0
	case reflect.Struct:
		return v.NumField() > 0
	case reflect.String:
		return v.Len() > 2
	}
	return false
}

// encodeAll encodes x by all entry points and checks that they agree.
// The order of members of maps is free, so only the first output is compared
// when there are maps.
func encodeAll(c *EncCase, x interface{}, typ reflect.Type, ordered bool) ([]byte, error) {
	out, err := unjson.Marshal(x)
	if err != nil {
		return nil, errf("Marshal: %v", err)
	}
	check := func(what string, f func(b []byte) ([]byte, error)) error {
		pre := buffer(string(c.Prefix), c.Spare)
		got, err := f(pre)
		if err != nil {
			return errf("%s: %v", what, err)
		}
		if !bytes.HasPrefix(got, []byte(c.Prefix)) || string(pre) != string(c.Prefix) {
			return errf("%s changed the destination: %q then %q", what, string(c.Prefix), got)
		}
		return sameOutput(got[len(c.Prefix):], out, ordered)
	}
	if !json.Valid(out) {
		return nil, errf("Marshal: not valid JSON: %s", out)
	}
	if err := check("AppendJSON", func(b []byte) ([]byte, error) { return unjson.AppendJSON(b, x) }); err != nil {
		return nil, err
	}
	if typ == nil { // nil in an empty interface
		return out, nil
	}
	enc, err := unjson.NewTypeEncoder(typ, unjson.DefaultOptions())
	if err != nil {
		return nil, errf("NewTypeEncoder: %v", err)
	}
	if err := check("Encode", func(b []byte) ([]byte, error) { return enc.Encode(b, x) }); err != nil {
		return nil, err
	}
	return out, nil
}

func checkEncode(c EncCase, r *Rec) error {
	x, twin, v, _ := c.values()
	ordered := !manyKeys(v)
	before := dump(v)
	r.NonTrivial(bigEnough(v))
	r.Label(!ordered, "map of several keys")
	r.Label(v.Kind() == reflect.Struct, "struct")
	want, werr := jsonMarshal(twin)
	if werr != nil {
		return errSkipCase
	}
	out, err := encodeAll(&c, x, reflect.TypeOf(x), ordered)
	if err != nil {
		return err
	}
	if err := sameOutput(out, want, ordered); err != nil {
		return errf("Marshal gives %s, encoding/json %s: %v", out, want, err)
	}
	for i := range out[:cap(out)] { // the result belongs to the caller
		out[:cap(out)][i] = 'X'
	}
	if after := dump(v); after != before {
		return errf("encoding changed, or the result shares, the value: %s", diff(after, before))
	}
	return nil
}

// DecCase is a text to decode into a fresh value of a type.
type DecCase struct {
	T    TSpec  `json:"t"`
	Text Q      `json:"text"`
	Bad  Q      `json:"bad,omitempty"`  // decoded before with the same decoder
	Next Q      `json:"next,omitempty"` // parsed afterwards in the same document
	Into *VSpec `json:"into,omitempty"` // what the target holds before
	Full bool   `json:"full,omitempty"` // without nil slices
	Room int    `json:"room,omitempty"` // spare capacity of its slices
}

// giveRoom gives slices spare capacity, with stale elements in it if asked.
func giveRoom(v reflect.Value, room int, stale bool) {
	if room == 0 || !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		if v.Type().PkgPath() == "math/big" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			giveRoom(v.Field(i), room, stale)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			giveRoom(v.Index(i), room, stale)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			giveRoom(v.Elem(), room, stale)
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := v.Len()
		for i := 0; i < n; i++ {
			giveRoom(v.Index(i), room/3, stale)
		}
		w := reflect.MakeSlice(v.Type(), n+room, n+room)
		reflect.Copy(w, v)
		if stale && n > 0 {
			for i := n; i < n+room; i++ {
				w.Index(i).Set(v.Index(i % n))
				unshare(w.Index(i))
			}
		}
		v.Set(w.Slice(0, n))
	}
}

func jsonUnmarshal(text string, p interface{}) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("encoding/json panics: %v", x)
		}
	}()
	return json.Unmarshal([]byte(text), p)
}

// dump writes a value. A null leaves a slice nil or empty.
func (c DecCase) dump(v reflect.Value) string {
	if c.Into != nil {
		return dumpAlike(v)
	}
	return dump(v)
}

// target makes a pointer to a value to decode into.
func (c DecCase) target(t reflect.Type) reflect.Value {
	p := reflect.New(t)
	if c.Into != nil {
		p.Elem().Set(build(t, *c.Into, c.Full))
		giveRoom(p.Elem(), c.Room, false)
	}
	return p
}

// decodeAll decodes by all entry points. When the reference fails only errors are compared.
func decodeAll(c DecCase, want string, werr error, skipErr bool) error {
	t := c.T.typ(false)
	text := string(c.Text)
	verdict := func(what string, p reflect.Value, err error) error {
		switch {
		case werr == nil && err != nil:
			return errf("%s of %s: %v (encoding/json accepts)", what, text, err)
		case werr != nil && err == nil && !skipErr:
			return errf("%s of %s: no error but %s, encoding/json: %v", what, text, c.dump(p.Elem()), werr)
		case werr == nil:
			if got := c.dump(p.Elem()); got != want {
				return errf("%s of %s: %s", what, text, diff(got, want))
			}
		}
		return nil
	}
	// []byte, then the buffer is reused
	p := c.target(t)
	data := []byte(text)
	err := unjson.Unmarshal(data, p.Interface())
	if string(data) != text {
		return errf("Unmarshal changed its input")
	}
	for i := range data {
		data[i] = 'X'
	}
	if err := verdict("Unmarshal", p, err); err != nil {
		return err
	}
	// string
	ps := c.target(t)
	err = unjson.UnmarshalFromString(text, ps.Interface())
	if err := verdict("UnmarshalFromString", ps, err); err != nil {
		return err
	}
	// node and decoders
	dec, err := unjson.NewTypeDecoder(reflect.PtrTo(t), "")
	if err != nil {
		return errf("NewTypeDecoder: %v", err)
	}
	if c.Bad != "" {
		bd := njson.Document{}
		if n, _, err := bd.Parse(string(c.Bad)); err == nil {
			dec.Decode(reflect.New(t).Interface(), n)
		}
	}
	d := njson.Blank()
	defer func() { d.Close() }()
	n, tail, err := d.Parse(text)
	if err != nil || strings.Trim(tail, " \t\r\n") != "" {
		if werr == nil {
			return errf("Parse of %s: %v, tail %q", text, err, tail)
		}
		return nil
	}
	before, err := serial(n)
	if err != nil {
		return errf("AppendJSON of the node: %v", err)
	}
	pn, pd, pd2 := c.target(t), c.target(t), c.target(t)
	if err := verdict("UnmarshalFromNode", pn, unjson.UnmarshalFromNode(n, pn.Interface())); err != nil {
		return err
	}
	if err := verdict("Decode", pd, dec.Decode(pd.Interface(), n)); err != nil {
		return err
	}
	if err := verdict("second Decode", pd2, dec.Decode(pd2.Interface(), n)); err != nil {
		return err
	}
	if t == basicTypes["iface"] {
		for _, it := range []reflect.Type{t, nil} {
			idec, err := unjson.NewTypeDecoder(it, "")
			if err != nil {
				return errf("NewTypeDecoder(%v): %v", it, err)
			}
			pi := c.target(t)
			if err := verdict("Decode by the decoder of interfaces", pi, idec.Decode(pi.Interface(), n)); err != nil {
				return err
			}
		}
	}
	if after, err := serial(n); err != nil || after != before {
		return errf("decoding changed the node from %s to %s (%v)", before, after, err)
	}
	if werr != nil {
		return nil
	}
	// what happens later does not matter
	d.Reset()
	if c.Next != "" {
		d.Parse(string(c.Next))
	}
	wreckValue(pd2.Elem())
	for _, x := range []reflect.Value{p, ps, pn, pd} {
		if got := c.dump(x.Elem()); got != want {
			return errf("value decoded from %s changed later: %s", text, diff(got, want))
		}
	}
	return nil
}

// wreckValue overwrites everything reachable that can be overwritten in place.
func wreckValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Type().PkgPath() == "" && v.Type().Elem().PkgPath() != "math/big" {
			wreckValue(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() && v.CanInterface() {
			wreck(v.Interface())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			wreckValue(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			wreckValue(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			wreckValue(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			wreckValue(v.Field(i))
		}
	default:
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	}
}

// unshare replaces the slices in a value by copies.
func unshare(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			unshare(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() {
			return
		}
		w := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		reflect.Copy(w.Slice(0, v.Cap()), v.Slice(0, v.Cap()))
		v.Set(w)
		for i := 0; i < w.Cap(); i++ {
			unshare(w.Slice(0, w.Cap()).Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			unshare(v.Index(i))
		}
	}
}

func checkDecode(c DecCase, r *Rec) error {
	tt := c.T.typ(true)
	tp := c.target(tt)
	old := c.dump(tp.Elem())
	werr := jsonUnmarshal(string(c.Text), tp.Interface())
	r.Label(werr != nil, "refused by encoding/json")
	if werr != nil {
		return errSkipCase
	}
	want := c.dump(tp.Elem())
	r.NonTrivial(want != old)
	r.Label(strings.Contains(string(c.Text), `\`), "escapes")
	return decodeAll(c, want, nil, false)
}

func genDec(g G, o typeOpts, d docGen, depth int) DecCase {
	return genDecOf(g, g.typ(o, depth), o, d, depth)
}

func genDecOf(g G, t TSpec, o typeOpts, d docGen, depth int) DecCase {
	rt := t.typ(false)
	d.init(rt, o.tagKey)
	doc := d.doc(g, rt, o.tagKey, depth+2)
	c := DecCase{T: t, Text: Q(g.ws() + doc + g.ws())}
	if g.p(1, 4) {
		c.Next = Q(g.anyDoc(simpleDoc, 2))
	}
	if g.p(1, 4) {
		bd := d
		bd.wrong = 100
		c.Bad = Q(bd.doc(g, rt, o.tagKey, depth+2))
	}
	return c
}

// laxNumber: encoding/json refuses the spelling of a number that has an exact integer value.
func laxNumber(err error) bool {
	var te *json.UnmarshalTypeError
	if !errors.As(err, &te) || !strings.HasPrefix(te.Value, "number ") {
		return false
	}
	s := strings.TrimPrefix(te.Value, "number ")
	switch te.Type.Kind() {
	case reflect.Float32, reflect.Float64:
		return false
	}
	if s == "-0" {
		return true
	}
	if !strings.ContainsAny(s, ".eE") {
		return false
	}
	// integral?
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		return true // decided by C14 and C07
	}
	return strings.Trim(s[strings.IndexByte(s, '.')+1:], "0") == ""
}

// foldClash: the text holds a string that encoding/json takes for a member
// name although it is spelled in another case.
func foldClash(text string, t reflect.Type, key string) bool {
	var structs []map[string]bool
	structNames(t, key, &structs, map[reflect.Type]bool{})
	for i := 0; i < len(text); i++ {
		if text[i] != '"' {
			continue
		}
		j := i + 1
		for j < len(text) && text[j] != '"' {
			if text[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(text) {
			break
		}
		var s string
		if json.Unmarshal([]byte(text[i:j+1]), &s) == nil {
			for _, names := range structs {
				if names[s] {
					continue
				}
				for n := range names {
					if strings.EqualFold(n, s) {
						return true
					}
				}
			}
		}
		i = j
	}
	return false
}

func dupKeys(text string) (dup bool) {
	mustRef(text).walk(func(v *JV) {
		seen := map[string]bool{}
		for _, k := range v.Keys {
			k = decodeBody(k)
			dup = dup || seen[k]
			seen[k] = true
		}
	})
	return
}

func checkRefuse(c DecCase, r *Rec) error {
	tt := c.T.typ(true)
	if foldClash(string(c.Text), tt, "json") {
		return errSkipCase
	}
	tp := reflect.New(tt)
	werr := jsonUnmarshal(string(c.Text), tp.Interface())
	skip := false
	if werr != nil {
		var se *json.SyntaxError
		if errors.As(werr, &se) {
			p := &refParser{s: string(c.Text)}
			v := p.value(0)
			// a lax scalar: njson does not check the inner spelling of strings and numbers
			skip = p.lax || v != nil && strings.Trim(string(c.Text)[v.End:], " \t\r\n") == "" && p.status == refOK
			r.Label(true, "malformed")
		} else {
			r.Label(true, "type mismatch")
			skip = laxNumber(werr)
		}
		r.Label(skip, "lax spelling")
		r.NonTrivial(!skip)
	}
	if werr == nil && dupKeys(string(c.Text)) {
		return errSkipCase // merging is up to the implementation
	}
	return decodeAll(c, c.dump(tp.Elem()), werr, skip)
}

func init() {
	reg("C17", "plain", "the value is composite or a string longer than two bytes", 40000, 1500000, func(t *rapid.T) EncCase {
		g := G{t}
		o := plainTypes()
		c := EncCase{T: g.typ(o, g.rng(0, 4)), Ptr: g.p(1, 3), Prefix: Q(pick(g, "", "", "x", "[1,", "\x00\xff")), Spare: pick(g, 0, 0, 1, 5, 64, 1000)}
		if g.p(1, 2) {
			c.T = g.structType(o, 3)
		}
		c.V = g.val(c.T.typ(false), valOpts{zeroProb: pick(g, 0, 2, 8)}, 6)
		return c
	}, checkEncode)

	reg("C17", "library", "the value is composite or a string longer than two bytes", 10000, 300000, func(t *rapid.T) EncCase {
		g := G{t}
		o := plainTypes()
		o.libProb = 5
		c := EncCase{T: *g.lib("plain"), Ptr: g.p(1, 2)}
		if g.p(1, 3) {
			c.T = g.typ(o, 2)
		}
		c.V = g.val(c.T.typ(false), valOpts{zeroProb: pick(g, 0, 2)}, 7)
		return c
	}, checkEncode)

	noBytes := func() typeOpts {
		o := plainTypes()
		o.bytes = false
		return o
	}
	reg("C18", "plain", "the decoded value is not the zero value", 40000, 1500000, func(t *rapid.T) DecCase {
		g := G{t}
		return genDec(g, noBytes(), docGen{noise: true, dups: true}, g.rng(0, 4))
	}, checkDecode)
	reg("C18", "library", "the decoded value is not the zero value", 10000, 300000, func(t *rapid.T) DecCase {
		g := G{t}
		o := noBytes()
		o.libProb = 8
		return genDec(g, o, docGen{noise: true, dups: true}, 2)
	}, checkDecode)
	reg("C18", "prefilled", "decoding changes the value", 25000, 800000, func(t *rapid.T) DecCase {
		g := G{t}
		o := noBytes()
		o.flat, o.libProb = true, 0
		c := genDec(g, o, docGen{noise: true, noNulls: true, ptrNulls: true}, g.rng(1, 4))
		rt := c.T.typ(false)
		v := g.val(rt, valOpts{zeroProb: pick(g, 0, 1), generic: true}, 6)
		c.Into = &v
		c.Room = pick(g, 0, 0, 1, 3, 8)
		return c
	}, checkDecode)
	reg("C18", "exact", "the decoded value is not the zero value", 10000, 300000, func(t *rapid.T) DecCase {
		g := G{t}
		o := noBytes()
		v := g.typ(o, 3)
		if g.p(1, 2) {
			v = g.structType(o, 3)
		}
		x := build(v.typ(false), g.val(v.typ(false), valOpts{validUTF8: true}, 5), false)
		text, err := json.Marshal(x.Interface())
		if err != nil {
			text = []byte("null")
		}
		return DecCase{T: v, Text: Q(text)}
	}, checkDecode)

	reg("C20", "mismatch", "encoding/json refuses the text for its type or structure", 40000, 1500000, func(t *rapid.T) DecCase {
		g := G{t}
		o := noBytes()
		c := genDec(g, o, docGen{noise: true, wrong: pick(g, 30, 100, 300)}, g.rng(0, 3))
		c.Next = ""
		return c
	}, checkRefuse)
	reg("C20", "refused", "encoding/json refuses the value for the scalar type", 20000, 400000, genScalarRefuse, checkScalarRefuse)
	reg("C20", "malformed", "encoding/json refuses the text for its type or structure", 15000, 400000, func(t *rapid.T) DecCase {
		g := G{t}
		o := noBytes()
		c := genDec(g, o, docGen{noise: true}, g.rng(0, 3))
		c.Next, c.Bad = "", ""
		c.Text = Q(g.mutate(string(c.Text)))
		if g.p(1, 6) {
			c.Text += Q(pick(g, "x", " 1", ",", "}", "]", "null", "\x00", "{}", "\u00a0"))
		}
		c.Text = Q(sanitize(string(c.Text)))
		return c
	}, checkRefuse)
}

// ScalarCase decodes a value into a scalar that already holds one.
type ScalarCase struct {
	K    string `json:"k"`
	Old  VSpec  `json:"old"`
	Text Q      `json:"text"`
	Wrap string `json:"wrap"` // "", ptr, field, elem
}

func genScalarRefuse(t *rapid.T) ScalarCase {
	g := G{t}
	c := ScalarCase{K: pick(g, "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "bool", "iface"), Wrap: pick(g, "", "ptr", "field", "elem")}
	ts := TSpec{K: c.K}
	rt := ts.typ(false)
	c.Old = g.val(rt, valOpts{validUTF8: true, zeroProb: 1, generic: true}, 1)
	if c.K == "iface" { // only numbers beyond float64 are refused
		c.Text = Q(pick(g, "1e309", "-1e400", "2"+strings.Repeat("0", 308), "1.8e308", "12345e99999"))
		return c
	}
	switch g.n(4) {
	case 0:
		c.Text = Q(pick(g, "true", "false", `"true"`, `"1"`, `"x"`, `""`, "[]", "{}", "[1]", `{"a":1}`, "0", "1"))
	case 1:
		c.Text = Q(g.nearLimit())
	default:
		c.Text = Q(g.number())
	}
	return c
}

func checkScalarRefuse(c ScalarCase, r *Rec) error {
	ts := TSpec{K: c.K}
	rt := ts.typ(false)
	old := build(rt, c.Old, false)
	if err := json.Unmarshal([]byte(c.Text), reflect.New(rt).Interface()); err == nil || c.K != "iface" && laxNumber(err) {
		return nil
	}
	r.NonTrivial(true)
	r.Label(true, c.K)
	doc := string(c.Text)
	var target, at reflect.Value
	var before, after reflect.Value
	switch c.Wrap {
	case "ptr":
		target = reflect.New(reflect.PtrTo(rt))
		target.Elem().Set(reflect.New(rt))
		at = target.Elem().Elem()
	case "field":
		st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf("")}, {Name: "B", Type: rt}, {Name: "C", Type: reflect.TypeOf("")}})
		target = reflect.New(st)
		at, before, after = target.Elem().Field(1), target.Elem().Field(0), target.Elem().Field(2)
		doc = `{"A":"new","B":` + doc + `,"C":"late"}`
	case "elem":
		target = reflect.New(reflect.ArrayOf(2, rt))
		at = target.Elem().Index(1)
		doc = "[null," + doc + "]"
	default:
		target = reflect.New(rt)
		at = target.Elem()
	}
	at.Set(old)
	if before.IsValid() {
		before.SetString("old")
		after.SetString("old")
	}
	for i, f := range []func() error{
		func() error { return unjson.Unmarshal([]byte(doc), target.Interface()) },
		func() error { return unjson.UnmarshalFromString(doc, target.Interface()) },
		func() error {
			d := njson.Document{}
			n, _, err := d.Parse(doc)
			if err != nil {
				return err
			}
			return unjson.UnmarshalFromNode(n, target.Interface())
		},
		func() error {
			d := njson.Document{}
			n, _, err := d.Parse(doc)
			if err != nil {
				return err
			}
			typ := target.Type()
			if c.Wrap == "" && c.K == "iface" {
				typ = rt // the decoder of an interface type takes a pointer to it
			}
			dec, err := unjson.NewTypeDecoder(typ, "json")
			if err != nil {
				panic(harnessBug{err})
			}
			return dec.Decode(target.Interface(), n)
		},
		func() error {
			return unjson.NewLineDecoder(strings.NewReader(doc + "\n")).Decode(target.Interface())
		},
	} {
		if err := f(); err == nil {
			return errf("%s into %v (%q, call %d): no error", doc, rt, c.Wrap, i)
		}
		if got, want := dump(at), dump(old); got != want {
			return errf("%s into %v (%q, call %d): refused, but the target changed from %s to %s", doc, rt, c.Wrap, i, want, got)
		}
	}
	if before.IsValid() {
		if s := before.String(); s != "old" && s != "new" {
			return errf("%s: member before the refused one is %q", doc, s)
		}
		if s := after.String(); s != "old" && s != "late" {
			return errf("%s: member after the refused one is %q", doc, s)
		}
	}
	return nil
}
