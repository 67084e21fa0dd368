package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
	"pgregory.net/rapid"
)

// RoundCase is a value to write and read back, into Into if it is given.
type RoundCase struct {
	T    TSpec  `json:"t"`
	V    VSpec  `json:"v"`
	Into *VSpec `json:"into,omitempty"`
	Room int    `json:"room,omitempty"` // spare capacity of the slices in Into, with stale elements
}

func checkRound(c RoundCase, r *Rec) error {
	t := c.T.typ(false)
	v := build(t, c.V, false)
	r.NonTrivial(bigEnough(v))
	out, err := unjson.Marshal(v.Interface())
	if err != nil {
		return errf("Marshal: %v", err)
	}
	target := reflect.New(t)
	if c.Into != nil {
		target.Elem().Set(build(t, *c.Into, false))
		giveRoom(target.Elem(), c.Room, true)
	}
	if err := unjson.Unmarshal(out, target.Interface()); err != nil {
		return errf("Unmarshal of Marshal's output %s: %v", out, err)
	}
	if got, want := dumpNorm(target.Elem()), dumpNorm(v); got != want {
		return errf("round trip of %s: %s", out, diff(got, want))
	}
	again, err := unjson.Marshal(target.Interface())
	if err != nil {
		return errf("second Marshal: %v", err)
	}
	if err := sameOutput(again, out, !manyKeys(v)); err != nil {
		return errf("second Marshal gives %s after %s: %v", again, out, err)
	}
	return nil
}

// ---- C20 ----

// TargetCase is an unusable target.
type TargetCase struct {
	T    TSpec `json:"t"`
	Kind int   `json:"kind"`
	Text Q     `json:"text"`
}

func checkTarget(c TargetCase, r *Rec) error {
	t := c.T.typ(false)
	r.NonTrivial(true)
	d := njson.Document{}
	n, _, err := d.Parse(string(c.Text))
	if err != nil {
		return errSkipCase
	}
	var x interface{}
	switch c.Kind {
	case 0:
		x = nil
	case 1: // not a pointer
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		x = reflect.Zero(t).Interface()
		if t.Kind() == reflect.Interface {
			x = 1
		}
		if reflect.TypeOf(x).Kind() == reflect.Ptr {
			return errSkipCase
		}
	case 2: // nil pointer
		x = reflect.Zero(reflect.PtrTo(t)).Interface()
	}
	r.Label(true, fmt.Sprintf("kind %d", c.Kind))
	if err := unjson.Unmarshal([]byte(c.Text), x); err == nil {
		return errf("Unmarshal to %T: no error", x)
	}
	if err := unjson.UnmarshalFromString(string(c.Text), x); err == nil {
		return errf("UnmarshalFromString to %T: no error", x)
	}
	if err := unjson.UnmarshalFromNode(n, x); err == nil {
		return errf("UnmarshalFromNode to %T: no error", x)
	}
	ld := unjson.NewLineDecoder(strings.NewReader(string(c.Text) + "\n"))
	if err := ld.Decode(x); err == nil {
		return errf("LineDecoder.Decode to %T: no error", x)
	}
	// a decoder or encoder of another type
	dec, err := unjson.NewTypeDecoder(reflect.PtrTo(t), "json")
	if err != nil {
		return errf("NewTypeDecoder: %v", err)
	}
	if err := dec.Decode(x, n); err == nil {
		return errf("Decode to %T: no error", x)
	}
	type other struct{ A int }
	if err := dec.Decode(&other{}, n); err == nil {
		return errf("Decode to a pointer of another type: no error")
	}
	if dec, err := unjson.NewTypeDecoder(reflect.TypeOf(&other{}), ""); err != nil {
		return errf("NewTypeDecoder: %v", err)
	} else if err := dec.Decode(x, n); err == nil {
		return errf("Decode of %T by a decoder of another type: no error", x)
	}
	// a decoder of interfaces decodes into nothing but interfaces
	for _, it := range []reflect.Type{nil, typeOf[interface{}]()} {
		dec, err := unjson.NewTypeDecoder(it, "")
		if err != nil {
			return errf("NewTypeDecoder(%v): %v", it, err)
		}
		for _, y := range []interface{}{x, &other{}, (*interface{})(nil), 1} {
			if err := dec.Decode(y, n); err == nil {
				return errf("Decode to %T by a decoder of interfaces: no error", y)
			}
		}
	}
	enc, err := unjson.NewTypeEncoder(reflect.TypeOf(other{}), unjson.DefaultOptions())
	if err != nil {
		return errf("NewTypeEncoder: %v", err)
	}
	if _, err := enc.Encode(nil, x); err == nil {
		return errf("Encode of %T by an encoder of another type: no error", x)
	}
	// a node without value
	p := reflect.New(t)
	if err := unjson.UnmarshalFromNode(njson.Node{}, p.Interface()); err == nil {
		return errf("UnmarshalFromNode of an empty Node: no error")
	}
	return nil
}

// UnsupCase wraps an unsupported type.
type UnsupCase struct {
	T   TSpec `json:"t"`
	Bad bool  `json:"bad"` // false: the unsupported type is hidden
	// Only one direction is not supported
	Only string `json:"only,omitempty"` // enc, dec
}

func checkUnsupported(c UnsupCase, r *Rec) error {
	t := c.T.typ(false)
	r.NonTrivial(c.T.K != "chan")
	r.Label(!c.Bad, "hidden")
	r.Label(c.Only != "", "one direction")
	v := build(t, G{}.zeroDeep(t), false)
	_, e1 := unjson.NewTypeEncoder(t, unjson.DefaultOptions())
	_, e2 := unjson.Marshal(v.Interface())
	_, e3 := unjson.AppendJSON([]byte("x"), v.Addr().Interface())
	_, d1 := unjson.NewTypeDecoder(reflect.PtrTo(t), "")
	d2 := unjson.Unmarshal([]byte(`{}`), reflect.New(t).Interface())
	_, e4 := unjson.Marshal(map[string]interface{}{"a": v.Interface()})
	for i, err := range []error{e1, e2, e3, e4, d1, d2} {
		what := []string{"NewTypeEncoder", "Marshal", "AppendJSON", "Marshal of an interface", "NewTypeDecoder", "Unmarshal"}[i]
		if c.Only == "enc" && i >= 4 || c.Only == "dec" && i < 4 {
			continue
		}
		if c.Bad && err == nil {
			return errf("%s of %s: no error", what, t)
		}
		if !c.Bad && err != nil && i < 5 {
			return errf("%s of %s: %v", what, t, err)
		}
	}
	return nil
}

func (g G) zeroDeep(t reflect.Type) VSpec { return zeroV(t) }

// wrapBad puts an unsupported type at some place of a type.
func (g G) wrapBad(depth int, hide bool) (t TSpec, only string) {
	switch g.n(10) {
	case 0: // encoding/json refuses such keys too
		t = TSpec{K: "map", Key: &TSpec{K: pick(g, "bool", "float64", "iface", "struct", "AddrKey")}, Elem: &TSpec{K: pick(g, "int", "string", "iface")}}
	case 1:
		t, only = TSpec{K: "map", Key: &TSpec{K: "DecKey"}, Elem: &TSpec{K: "int"}}, "enc"
		if g.p(1, 2) {
			t.Key.K, only = "EncKey", "dec"
		}
	case 2:
		t, only = TSpec{K: pick(g, "IfaceJM", "IfaceTM", "IfaceX")}, "dec"
	default:
		t = TSpec{K: pick(g, "chan", "func", "complex64", "complex128")}
	}
	for i := 0; i < depth; i++ {
		e := t
		k := g.n(7)
		if hide && i == depth-1 {
			k = 6
		}
		switch k {
		case 0:
			t = TSpec{K: "ptr", Elem: &e}
		case 1:
			t = TSpec{K: "slice", Elem: &e}
		case 2:
			t = TSpec{K: "array", Len: g.n(3), Elem: &e}
		case 3:
			t = TSpec{K: "map", Key: &TSpec{K: "string"}, Elem: &e}
		case 4:
			t = TSpec{K: "struct", F: []FSpec{{Name: "A", T: e, Tag: Q(pick(g, "", `json:"a"`, `json:"a,omitempty"`))}}}
		case 5:
			in := TSpec{K: "struct", F: []FSpec{{Name: "A", T: e}}}
			t = TSpec{K: "struct", F: []FSpec{{Name: "B", T: TSpec{K: "int"}}, {Name: "E", T: in, Emb: true}}}
		default:
			f := FSpec{Name: "A", T: e}
			if hide && i == depth-1 {
				if f.Tag = `json:"-"`; g.p(1, 3) {
					f.Tag, f.Name, f.Hidden = "", "a", true
				}
			}
			t = TSpec{K: "struct", F: []FSpec{{Name: "X", T: TSpec{K: "string"}}, f}}
		}
	}
	return
}

func checkUnencodable(c EncCase, r *Rec) error {
	x, twin, v, _ := c.values()
	_, werr := jsonMarshal(twin)
	r.NonTrivial(werr != nil)
	var isBoom error
	for _, e := range boomErrors {
		if errors.Is(werr, e) {
			isBoom = e
		}
	}
	r.Label(isBoom != nil, "failing method")
	if werr == nil {
		_, err := encodeAll(&c, x, reflect.TypeOf(x), !manyKeys(v))
		return err
	}
	bad := func(what string, err error) error {
		if err == nil {
			return errf("%s: no error, encoding/json: %v", what, werr)
		}
		if isBoom != nil && !c.hasNonFinite() {
			for _, e := range boomErrors { // of several failing methods any may come first
				if strings.Contains(err.Error(), e.Error()) {
					return nil
				}
			}
			return errf("%s: error %q hides the method's error %q", what, err.Error(), isBoom.Error())
		}
		return nil
	}
	_, e1 := unjson.Marshal(x)
	if err := bad("Marshal", e1); err != nil {
		return err
	}
	_, e2 := unjson.AppendJSON([]byte(c.Prefix), x)
	if err := bad("AppendJSON", e2); err != nil {
		return err
	}
	enc, err := unjson.NewTypeEncoder(reflect.TypeOf(x), unjson.DefaultOptions())
	if err == nil {
		_, err = enc.Encode([]byte(c.Prefix), x)
	}
	if err := bad("Encode", err); err != nil {
		return err
	}
	var w strings.Builder
	le := unjson.NewLineEncoder(&w)
	if err := bad("LineEncoder.Encode", le.Encode(x)); err != nil {
		return err
	}
	// the failure leaves nothing behind
	if err := le.Encode(map[string]int{"after": 1}); err != nil || w.String() != "{\"after\":1}\n" {
		return errf("LineEncoder after a failure: %v, wrote %q", err, w.String())
	}
	return nil
}

func (c *EncCase) hasNonFinite() bool {
	var walk func(v VSpec) bool
	walk = func(v VSpec) bool {
		if f := math.Float64frombits(v.Flt); f-f != 0 {
			return true
		}
		for _, x := range v.L {
			if walk(x) {
				return true
			}
		}
		return false
	}
	return walk(c.V)
}

// ---- C21 ----

// OptCase is a struct value with options.
type OptCase struct {
	T          TSpec `json:"t"`
	V          VSpec `json:"v"`
	Key        string
	OmitEmpty  bool
	OmitMethod string
	AllowNaN   bool
	AllowInf   bool
	Ptr        bool
	Doc        Q `json:"doc,omitempty"`
}

func (c *OptCase) options() unjson.Options {
	return unjson.Options{Tag: c.Key, OmitEmpty: c.OmitEmpty, OmitMethod: c.OmitMethod, AllowNaN: c.AllowNaN, AllowInf: c.AllowInf}
}

func (c *OptCase) key() string {
	if c.Key == "" {
		return "json"
	}
	return c.Key
}

type presence int

const (
	present presence = iota
	omitted
	either
)

// omitMethodOf calls the omit method of a value if it has one.
func (c *OptCase) omitMethodOf(v reflect.Value) (omit, found bool) {
	name := c.OmitMethod
	if name == "" {
		name = "Omit"
	}
	t := v.Type()
	if t.Kind() == reflect.Interface { // its methods have no receiver
		if m, ok := t.MethodByName(name); ok && m.Type.NumIn() == 0 {
			return v.IsNil() || v.Elem().MethodByName(name).Call(nil)[0].Bool(), true
		}
		return false, false
	}
	if t.Kind() == reflect.Ptr {
		if _, has := t.MethodByName(name); has && v.IsNil() {
			m, _ := t.MethodByName(name)
			return true, isOmit(m.Type)
		}
	}
	if m, ok := t.MethodByName(name); ok && isOmit(m.Type) {
		return v.MethodByName(name).Call(nil)[0].Bool(), true
	}
	if t.Kind() != reflect.Ptr && v.CanAddr() {
		if m, ok := reflect.PtrTo(t).MethodByName(name); ok && isOmit(m.Type) {
			return v.Addr().MethodByName(name).Call(nil)[0].Bool(), true
		}
	}
	return false, false
}

func isOmit(f reflect.Type) bool {
	return f.NumIn() == 1 && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool
}

func (c *OptCase) empty(v reflect.Value) presence {
	yes := func(b bool) presence {
		if b {
			return omitted
		}
		return present
	}
	if omit, ok := c.omitMethodOf(v); ok {
		return yes(omit)
	}
	switch v.Kind() {
	case reflect.Bool:
		return yes(!v.Bool())
	case reflect.Ptr, reflect.Interface:
		return yes(v.IsNil())
	case reflect.String, reflect.Slice, reflect.Map:
		return yes(v.Len() == 0)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if c.empty(v.Index(i)) == present {
				return present
			}
		}
		if v.Len() == 0 {
			return omitted
		}
		return either // empty for this library, not for encoding/json
	case reflect.Struct:
		for _, m := range c.model(v).members {
			if m.p == present {
				return present
			}
		}
		return either
	}
	return yes(v.IsZero())
}

// mval is what the output should be.
type mval struct {
	kind    byte // { [ or leaf
	members []mmember
	elems   []*mval
	leaf    string // JSON by encoding/json
	html    bool
	raw     bool
	dyn     bool   // inside an interface
	str     string // of a string
	isStr   bool
}

type mmember struct {
	name string
	p    presence
	v    *mval
}

func byIndex(v reflect.Value, index []int) (reflect.Value, bool) {
	for _, i := range index {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, true
}

func (c *OptCase) model(v reflect.Value) *mval {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && (v.Kind() == reflect.Ptr || v.NumMethod() == 0) {
			m := c.model(v.Elem())
			m.dyn = m.dyn || v.Kind() == reflect.Interface
			return m
		}
	case reflect.Slice, reflect.Array:
		m := &mval{kind: '['}
		for i := 0; i < v.Len(); i++ {
			m.elems = append(m.elems, c.model(v.Index(i)))
		}
		return m
	case reflect.Map:
		if v.IsNil() {
			break
		}
		m := &mval{kind: '{'}
		for _, k := range v.MapKeys() {
			m.members = append(m.members, mmember{k.String(), present, c.model(v.MapIndex(k))})
		}
		return m
	case reflect.Struct:
		m := &mval{kind: '{'}
		for _, f := range members(v.Type(), c.key()) {
			fv, ok := byIndex(v, f.index)
			if !ok {
				continue
			}
			p := present
			if c.OmitEmpty || strings.Contains(f.opts, ",omitempty,") {
				p = c.empty(fv)
			}
			mv := c.model(fv)
			if strings.Contains(f.opts, ",html,") {
				mv.markHTML()
			} else if strings.Contains(f.opts, ",8bit,") {
				mv.markRaw()
			}
			m.members = append(m.members, mmember{f.name, p, mv})
		}
		return m
	}
	b, err := json.Marshal(v.Interface())
	if err != nil {
		panic(harnessBug{err})
	}
	m := &mval{leaf: string(b)}
	if v.Kind() == reflect.String {
		m.str, m.isStr = v.String(), true
	}
	return m
}

func (m *mval) markRaw() {
	if m.dyn {
		return
	}
	m.raw = true
	for _, e := range m.elems {
		e.markRaw()
	}
}

func (m *mval) markHTML() {
	if m.dyn {
		return
	}
	m.html = true
	for _, e := range m.elems {
		e.markHTML()
	}
}

func (m *mval) matches(v *JV) error {
	switch m.kind {
	case '[':
		if v.K != '[' || len(v.A) != len(m.elems) {
			return errf("%s instead of an array of %d", v.text(), len(m.elems))
		}
		for i, e := range m.elems {
			if err := e.matches(v.A[i]); err != nil {
				return err
			}
		}
	case '{':
		if v.K != '{' {
			return errf("%s instead of an object", v.text())
		}
		i := 0
		for _, x := range m.members {
			if x.p == omitted {
				continue
			}
			if i < len(v.A) && decodeBody(v.Keys[i]) == x.name {
				if err := x.v.matches(v.A[i]); err != nil {
					return errf("member %q: %v", x.name, err)
				}
				i++
				continue
			}
			if x.p == present {
				return errf("member %q missing or out of order in %s", x.name, v.text())
			}
		}
		if i < len(v.A) {
			return errf("unexpected member %q in %s", decodeBody(v.Keys[i]), v.text())
		}
	default:
		if m.html && strings.ContainsAny(v.Raw, "<>&") {
			return errf("%s is not escaped for HTML", v.Raw)
		}
		if m.isStr && !m.html && strings.Count(v.Raw, "<") != strings.Count(m.str, "<") {
			return errf("%s is escaped for HTML although its member is not tagged", v.Raw)
		}
		if m.isStr && m.raw && !m.html && v.Raw != m.str {
			return errf("%s is escaped although its member is tagged 8bit", v.Raw)
		}
		return sameJSON(v, mustRef(m.leaf), true)
	}
	return nil
}

// count tells if there are members, and members that are or may be omitted.
func (m *mval) count() (some, omitted bool) {
	for _, k := range m.members {
		some = true
		omitted = omitted || k.p != present
	}
	for _, e := range m.elems {
		s, o := e.count()
		some, omitted = some || s, omitted || o
	}
	return
}

func checkOptions(c OptCase, r *Rec) error {
	t := c.T.typ(false)
	v := build(t, c.V, false)
	x := v.Interface()
	if c.Ptr {
		x = v.Addr().Interface()
	}
	mv := v
	if !c.Ptr {
		mv = reflect.ValueOf(x) // not addressable
	}
	m := c.model(mv)
	some, nt := m.count()
	st := t
	for st.Kind() != reflect.Struct && st.Kind() != reflect.Interface {
		st = st.Elem()
	}
	r.Label(nt, "omitted member")
	r.Label(st.Kind() == reflect.Struct && len(flatten(st, c.key(), nil, nil)) != len(members(st, c.key())), "hidden member")
	r.Label(t.Kind() != reflect.Struct, "struct inside another type")
	r.NonTrivial(some)
	et := t // an encoder of structs takes pointers too
	if t.Kind() != reflect.Struct {
		et = reflect.TypeOf(x)
	}
	enc, err := unjson.NewTypeEncoder(et, c.options())
	if err != nil {
		return errf("NewTypeEncoder: %v", err)
	}
	cache := unjson.Cache{Options: c.options()}
	cenc, err := cache.Encoder(reflect.TypeOf(x))
	if err != nil {
		return errf("Cache.Encoder: %v", err)
	}
	for i, e := range []unjson.Encoder{enc, cenc, enc} {
		what := []string{"Encoder", "Cache.Encoder", "Encoder again"}[i]
		out, err := e.Encode([]byte("pre"), x)
		if err != nil {
			return errf("%s: %v", what, err)
		}
		if !strings.HasPrefix(string(out), "pre") || !json.Valid(out[3:]) {
			return errf("%s: not valid JSON after the prefix: %s", what, out)
		}
		if err := m.matches(mustRef(string(out[3:]))); err != nil {
			return errf("%s gives %s: %v", what, out[3:], err)
		}
	}
	if c.Doc == "" {
		return nil
	}
	want := reflect.New(t).Elem()
	c.project(want, v)
	dec, err := unjson.NewTypeDecoder(reflect.PtrTo(t), c.Key)
	if err != nil {
		return errf("NewTypeDecoder: %v", err)
	}
	cdec, err := cache.Decoder(reflect.PtrTo(t))
	if err != nil {
		return errf("Cache.Decoder: %v", err)
	}
	d := njson.Document{}
	n, _, err := d.Parse(string(c.Doc))
	if err != nil {
		panic(harnessBug{fmt.Errorf("doc %s: %v", string(c.Doc), err)})
	}
	for i, dd := range []unjson.Decoder{dec, cdec} {
		got := reflect.New(t)
		if err := dd.Decode(got.Interface(), n); err != nil {
			return errf("Decode of %s: %v", string(c.Doc), err)
		}
		if a, b := dumpNorm(got.Elem()), dumpNorm(want); a != b {
			return errf("decoder %d, tag %q, of %s: %s", i, c.Key, string(c.Doc), diff(a, b))
		}
	}
	return nil
}

// project copies the members of src, nothing else.
func (c *OptCase) project(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
			c.project(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			c.project(dst.Index(i), src.Index(i))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			c.project(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeMap(src.Type()))
		for _, k := range src.MapKeys() {
			e := reflect.New(src.Type().Elem()).Elem()
			c.project(e, src.MapIndex(k))
			dst.SetMapIndex(k, e)
		}
	case reflect.Struct:
		for _, f := range members(src.Type(), c.key()) {
			fv, ok := byIndex(src, f.index)
			if !ok {
				continue
			}
			d := dst
			for _, i := range f.index {
				if d.Kind() == reflect.Ptr {
					if d.IsNil() {
						d.Set(reflect.New(d.Type().Elem()))
					}
					d = d.Elem()
				}
				d = d.Field(i)
			}
			c.project(d, fv)
		}
	default:
		dst.Set(src)
	}
}

// docOf writes all members of a value, in any order, with noise.
func (c *OptCase) docOf(g G, d *docGen, v reflect.Value) string {
	var parts []string
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			return c.docOf(g, d, v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, c.docOf(g, d, v.Index(i)))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case reflect.Map:
		if v.IsNil() {
			break
		}
		for _, k := range v.MapKeys() {
			parts = append(parts, g.spell(k.String())+":"+c.docOf(g, d, v.MapIndex(k)))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case reflect.Struct:
		for _, f := range members(v.Type(), c.key()) {
			if fv, ok := byIndex(v, f.index); ok {
				parts = append(parts, g.spell(f.name)+g.ws()+":"+c.docOf(g, d, fv))
			}
		}
		if g.p(1, 3) {
			parts = append(parts, g.spell(d.unknownKey(g))+":"+g.anyDoc(simpleDoc, 1))
		}
		for i := len(parts) - 1; i > 0; i-- {
			if g.p(1, 3) {
				j := g.n(i + 1)
				parts[i], parts[j] = parts[j], parts[i]
			}
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	b, err := json.Marshal(v.Interface())
	if err != nil {
		panic(harnessBug{err})
	}
	return string(b)
}

var weirdNames = append([]string{`q"uote`, `back\slash`, "nl\n", "tab\t", "'", "\u2028", "\x7f", `{}`, `[1]`, "a:b"}, jsonNames...)

func (g G) optStruct(key string) TSpec {
	keys := []string{"json", "njson", "bson"}
	o := typeOpts{ptrs: true, maps: true, structs: true, emb: true, omit: true, omitAll: true, hide: true, libProb: 3, cat: "omitter", tagKey: key, namePool: weirdNames, conflicts: true}
	var gen func(depth int) TSpec
	gen = func(depth int) TSpec {
		t := TSpec{K: "struct"}
		n := g.size(6)
		for i := 0; i < n; i++ {
			f := FSpec{Name: pick(g, "A", "B", "C", "Foo", "ID")}
			for _, x := range t.F {
				if x.Name == f.Name {
					f.Name = fmt.Sprintf("F%d", i)
				}
			}
			switch {
			case depth > 0 && g.p(1, 4): // embedded
				f.Emb, f.Name = true, fmt.Sprintf("E%d", i)
				f.T = gen(depth - 1)
				if g.p(1, 3) {
					e := f.T
					f.T = TSpec{K: "ptr", Elem: &e}
				}
			case depth > 0 && g.p(1, 5):
				f.T = gen(depth - 1)
				if g.p(1, 3) {
					e := f.T
					f.T = TSpec{K: pick(g, "ptr", "slice", "array"), Len: 1 + g.n(2), Elem: &e}
				}
			case g.p(1, 3):
				f.T = *g.lib("omitter")
				if g.p(1, 3) {
					e := f.T
					f.T = TSpec{K: pick(g, "ptr", "ptr", "slice", "array"), Len: g.n(3), Elem: &e}
					if e.K == "IfaceO" && f.T.K == "ptr" {
						f.T.K = "slice"
					}
					if f.T.K == "array" && g.p(1, 4) {
						f.T.Len = g.rng(3, 9)
					}
				}
			case g.p(1, 4):
				f.T = TSpec{K: "string"}
				if g.p(1, 3) {
					f.T = TSpec{K: pick(g, "slice", "ptr", "array"), Len: 1, Elem: &TSpec{K: "string"}}
				}
			default:
				f.T = g.typ(typeOpts{ptrs: true, maps: true, ifaces: true, libProb: 1, cat: "tags"}, 2)
				if f.T.typ(false).Kind() == reflect.Slice && f.T.typ(false).Elem().Kind() == reflect.Uint8 {
					f.T = TSpec{K: "int"}
				}
			}
			tags := []string{}
			for _, k := range keys {
				if k != key && !g.p(1, 4) || k == key && g.p(1, 6) {
					continue
				}
				oo := o
				oo.tagKey = k
				name := pickS(g, weirdNames)
				if f.Emb && !g.p(1, 8) {
					name = ""
				}
				opts := ""
				hints := []string{"omitempty", "html", "8bit", pick(g, "other", "", "xomitempty", "omitempty2", "OmitEmpty", "xhtml", "html5", "18bit", "8bits", "raw", " html")}
				if k := g.n(4); g.p(1, 3) {
					hints = append(append([]string{}, hints[k:]...), hints[:k]...)
				}
				for _, h := range hints {
					if g.p(1, 3) {
						opts += "," + h
					}
				}
				if g.p(1, 14) {
					name, opts = "-", pick(g, "", "", ",")
				}
				if name == "" && opts == "" {
					continue
				}
				tags = append(tags, k+":"+strconv.Quote(name+opts))
			}
			f.Tag = Q(strings.Join(tags, " "))
			if g.p(1, 20) && !f.Emb {
				f.Hidden, f.Name = true, "hidden"+strconv.Itoa(i)
			}
			t.F = append(t.F, f)
		}
		return t
	}
	return gen(pick(g, 1, 2, 2, 2, 2, 3, 4))
}

// checkNonFinite: NaN and infinities with and without permission.
func checkNonFinite(c OptCase, r *Rec) error {
	const marker = 12345.678
	t := c.T.typ(false)
	nan, inf := 0, 0
	var vals []float64
	var sub func(v VSpec) VSpec
	sub = func(v VSpec) VSpec {
		f := math.Float64frombits(v.Flt)
		if f-f != 0 {
			if f != f {
				nan++
			} else {
				inf++
			}
			vals = append(vals, f)
			v.Flt = math.Float64bits(marker)
		}
		l := v.L
		v.L = nil
		for _, x := range l {
			v.L = append(v.L, sub(x))
		}
		return v
	}
	mv := sub(c.V)
	r.NonTrivial(len(vals) > 0)
	enc, err := unjson.NewTypeEncoder(t, c.options())
	if err != nil {
		return errf("NewTypeEncoder: %v", err)
	}
	out, err := enc.Encode(nil, build(t, c.V, false).Interface())
	refuse := nan > 0 && !c.AllowNaN || inf > 0 && !c.AllowInf
	r.Label(refuse, "not allowed")
	if refuse {
		if err == nil {
			return errf("no error: %s", out)
		}
		return nil
	}
	if err != nil {
		return errf("Encode: %v", err)
	}
	ref, err := enc.Encode(nil, build(t, mv, false).Interface())
	if err != nil || !json.Valid(ref) {
		return errf("Encode of finite values: %v, %s", err, ref)
	}
	pieces := strings.Split(string(ref), "12345.678")
	if len(pieces) != len(vals)+1 {
		return errSkipCase
	}
	rest := string(out)
	for i, p := range pieces {
		if !strings.HasPrefix(rest, p) {
			return errf("output %s differs from %s in more than the special values", out, ref)
		}
		rest = rest[len(p):]
		if i < len(vals) {
			j := strings.IndexAny(rest, ",]}")
			if j < 0 {
				j = len(rest)
			}
			f, err := strconv.ParseFloat(strings.Trim(rest[:j], `"`), 64)
			if err != nil || f != vals[i] && !(f != f && vals[i] != vals[i]) {
				return errf("%v is written as %q", vals[i], rest[:j])
			}
			rest = rest[j:]
		}
	}
	if rest != "" {
		return errf("output %s goes on after %s", out, ref)
	}
	return nil
}

// ---- C22 ----

func checkMethodsDecode(c DecCase, r *Rec) error {
	tt := c.T.typ(true)
	if foldClash(string(c.Text), tt, "json") {
		return errSkipCase
	}
	tp := reflect.New(tt)
	if c.Into != nil {
		tp.Elem().Set(build(tt, *c.Into, true))
	}
	werr := jsonUnmarshal(string(c.Text), tp.Interface())
	r.NonTrivial(true)
	r.Label(werr != nil, "error")
	r.Label(c.Into != nil && strings.Contains(string(c.Text), "null"), "null into a value that holds something")
	if werr != nil && laxNumber(werr) {
		return errSkipCase
	}
	return decodeAll(c, c.dump(tp.Elem()), werr, false)
}

func init() {
	round := func(g G) typeOpts {
		return typeOpts{cat: "round", libProb: 2, bytes: true, ptrs: true, maps: true, ifaces: true, structs: true, emb: true, omit: true, omitAll: true, tagKey: "json"}
	}
	reg("C19", "fresh", "the value is composite or a string longer than two bytes", 40000, 1500000, func(t *rapid.T) RoundCase {
		g := G{t}
		o := round(g)
		c := RoundCase{T: g.typ(o, g.rng(0, 4))}
		if g.p(1, 2) {
			c.T = g.structType(o, 3)
		}
		c.V = g.val(c.T.typ(false), valOpts{validUTF8: true, generic: true, zeroProb: pick(g, 0, 2, 8)}, 6)
		return c
	}, checkRound)
	reg("C19", "prefilled", "the value is composite or a string longer than two bytes", 25000, 800000, func(t *rapid.T) RoundCase {
		g := G{t}
		o := round(g)
		o.cat, o.omit, o.ptrs, o.maps, o.ifaces = "simple", false, false, false, false
		c := RoundCase{T: g.typ(o, g.rng(0, 4))}
		if g.p(2, 3) {
			c.T = g.structType(o, 3)
		}
		c.V = g.val(c.T.typ(false), valOpts{validUTF8: true, zeroProb: pick(g, 0, 2, 8)}, 6)
		w := g.val(c.T.typ(false), valOpts{zeroProb: pick(g, 0, 1)}, 6)
		c.Into = &w
		c.Room = pick(g, 0, 0, 1, 3, 8)
		return c
	}, checkRound)

	reg("C20", "targets", "always: nil, non-pointer and nil pointer targets, decoders and encoders of other types", 6000, 100000, func(t *rapid.T) TargetCase {
		g := G{t}
		o := plainTypes()
		if g.p(1, 3) {
			o.cat, o.libProb = "method", 6
		}
		return TargetCase{T: g.typ(o, 2), Kind: g.n(3), Text: Q(pick(g, "null", "{}", "[]", "1", `"x"`, `{"a":1}`, "[null]", "true"))}
	}, checkTarget)
	reg("C20", "unsupported", "the unsupported type is wrapped", 3000, 50000, func(t *rapid.T) UnsupCase {
		g := G{t}
		c := UnsupCase{Bad: !g.p(1, 4)}
		d := g.n(4)
		if !c.Bad {
			d++
		}
		c.T, c.Only = g.wrapBad(d, !c.Bad)
		return c
	}, checkUnsupported)
	reg("C20", "unencodable", "encoding/json refuses the value", 20000, 500000, func(t *rapid.T) EncCase {
		g := G{t}
		o := plainTypes()
		o.bytes = false
		vo := valOpts{}
		if g.p(1, 2) {
			o.cat, o.libProb = "method", 4
			vo.boom, vo.ifaceCat = true, "method"
		} else {
			vo.nonFinite = true
		}
		if g.p(1, 8) {
			o.cat, o.libProb = "badkind", 4
			o.ifaces, vo.nonFinite, vo.boom = g.p(1, 2), false, false
		}
		c := EncCase{T: g.typ(o, g.rng(1, 3)), Ptr: g.p(1, 2)}
		c.V = g.val(c.T.typ(false), vo, 5)
		return c
	}, checkUnencodable)

	reg("C21", "options", "the struct has at least one member", 40000, 1200000, func(t *rapid.T) OptCase {
		g := G{t}
		c := OptCase{Key: pick(g, "json", "", "njson", "bson")}
		ts := g.optStruct(c.key())
		if g.p(1, 5) {
			for i := g.rng(1, 2); i > 0; i-- {
				e := ts
				ts = TSpec{K: pick(g, "slice", "map", "array", "ptr"), Len: g.rng(1, 2), Key: &TSpec{K: "string"}, Elem: &e}
			}
		}
		return g.optCase(ts, c.Key)
	}, checkOptions)
	reg("C21", "nonfinite", "the value holds NaN or an infinity", 8000, 200000, func(t *rapid.T) OptCase {
		g := G{t}
		c := OptCase{OmitEmpty: g.p(1, 4), AllowNaN: g.p(1, 2), AllowInf: g.p(1, 2)}
		var typ func(d int) TSpec
		typ = func(d int) TSpec {
			if d == 0 || g.p(1, 4) {
				return TSpec{K: pick(g, "float64", "float64", "float32", "NFloat")}
			}
			e := typ(d - 1)
			switch g.n(5) {
			case 0:
				return TSpec{K: "ptr", Elem: &e}
			case 1:
				return TSpec{K: "slice", Elem: &e}
			case 2:
				return TSpec{K: "array", Len: 2, Elem: &e}
			case 3:
				return TSpec{K: "map", Key: &TSpec{K: "string"}, Elem: &e}
			}
			return TSpec{K: "struct", F: []FSpec{{Name: "A", T: TSpec{K: "float64"}}, {Name: "B", T: e, Tag: Q(pick(g, "", `json:"b,omitempty"`))}}}
		}
		c.T = typ(3)
		c.V = g.val(c.T.typ(false), valOpts{nonFinite: true, oneKey: true, fill: true}, 5)
		return c
	}, checkNonFinite)

	methodTypes := func(g G) typeOpts {
		o := plainTypes()
		o.bytes, o.cat, o.libProb, o.textKeys = false, "method", 5, []string{"TInt", "TKey"}
		o.ifaces = g.p(1, 2)
		return o
	}
	reg("C22", "encode", "the value is composite or a string longer than two bytes", 40000, 1000000, func(t *rapid.T) EncCase {
		g := G{t}
		o := methodTypes(g)
		c := EncCase{T: g.typ(o, g.rng(0, 3)), Ptr: g.p(1, 2)}
		switch g.n(8) {
		case 3: // all there is to their kinds is their methods
			o := o
			o.cat = "badkind"
			c.T = g.structType(o, 1)
		case 0:
			e := *g.lib("ifaces")
			c.T = TSpec{K: pick(g, "ptr", "slice", "array"), Len: 2, Elem: &e}
		case 1:
			c.T = g.structType(o, 2)
		case 2: // keys of an interface type
			if g.p(1, 4) {
				e := g.typ(o, 1)
				c.T = TSpec{K: "map", Key: &TSpec{K: "IfaceTM"}, Elem: &e}
				vo := valOpts{validUTF8: true, ifaceCat: "method"}
				seen := map[string]bool{}
				for i := g.size(3); i > 0; i-- {
					k := TSpec{K: pick(g, "TKey", "TInt", "TV", "AMix")}
					kv := g.val(k.typ(false), vo, 1)
					if id := k.K + dump(build(k.typ(false), kv, false)); seen[id] {
						continue
					} else {
						seen[id] = true
					}
					if g.p(1, 3) && k.K != "AMix" {
						kk := k
						k, kv = TSpec{K: "ptr", Elem: &kk}, VSpec{L: []VSpec{kv}}
					}
					c.V.MK = append(c.V.MK, VSpec{X: &k, L: []VSpec{kv}})
					c.V.L = append(c.V.L, g.val(e.typ(false), vo, 2))
				}
				return c
			}
		}
		c.V = g.val(c.T.typ(false), valOpts{validUTF8: true, ifaceCat: "method", zeroProb: pick(g, 0, 2)}, 5)
		return c
	}, checkEncode)
	reg("C22", "decode", "always", 40000, 1000000, func(t *rapid.T) DecCase {
		g := G{t}
		o := methodTypes(g)
		o.ifaces = true
		return genDec(g, o, docGen{noise: true, wrong: pick(g, 0, 0, 60, 200)}, g.rng(0, 3))
	}, checkMethodsDecode)
	reg("C22", "prefilled", "always", 15000, 400000, func(t *rapid.T) DecCase {
		g := G{t}
		o := methodTypes(g)
		var gen func(depth int) TSpec
		gen = func(depth int) TSpec {
			if depth == 0 || g.p(1, 3) {
				return *g.lib("method")
			}
			switch g.n(6) {
			case 0, 1, 2:
				e := gen(depth - 1)
				return TSpec{K: "ptr", Elem: &e}
			case 3:
				e := gen(depth - 1)
				return TSpec{K: pick(g, "map", "array"), Key: &TSpec{K: pick(g, "string", "TKey")}, Len: g.n(3), Elem: &e}
			}
			s := TSpec{K: "struct"}
			for i := g.size(4); i > 0; i-- {
				s.F = append(s.F, FSpec{Name: fmt.Sprintf("F%d", i), T: gen(depth - 1)})
			}
			return s
		}
		ts := gen(4)
		c := genDecOf(g, ts, o, docGen{noise: true, noNulls: true, ptrNulls: true}, 3)
		v := g.val(c.T.typ(false), valOpts{zeroProb: pick(g, 0, 1), generic: true}, 6)
		c.Into, c.Full = &v, true
		return c
	}, checkMethodsDecode)
}

// optCase draws options, a value and a text for a struct type.
func (g G) optCase(ts TSpec, key string) OptCase {
	c := OptCase{Key: key, OmitEmpty: g.p(1, 3), OmitMethod: pick(g, "", "Omit", "Skip", "None"), Ptr: g.p(2, 3), AllowNaN: g.p(1, 2), AllowInf: g.p(1, 2)}
	c.T = ts
	rt := c.T.typ(false)
	c.V = g.val(rt, valOpts{validUTF8: true, generic: true, oneKey: true, zeroProb: 6, unescaped: strings.Contains(string(mustJSON(c.T)), ",8bit")}, 6)
	d := docGen{}
	d.init(rt, c.key())
	if !strings.Contains(string(mustJSON(c.T)), `"IfaceO"`) { // nothing to decode into
		c.Doc = Q(c.docOf(g, &d, build(rt, c.V, false)))
	}
	return c
}
