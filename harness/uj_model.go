package main

import (
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/alxarch/njson"
)

// TSpec describes a Go type built with reflection.
type TSpec struct {
	K    string  `json:"k"`              // bool int.. float.. string ptr slice array map iface struct, or the name of a library type
	Len  int     `json:"len,omitempty"`  // array
	Elem *TSpec  `json:"elem,omitempty"` // ptr slice array map
	Key  *TSpec  `json:"key,omitempty"`  // map
	F    []FSpec `json:"f,omitempty"`    // struct
}

// FSpec is one field of a struct.
type FSpec struct {
	Name   string `json:"name"`
	Tag    Q      `json:"tag,omitempty"` // the whole tag
	T      TSpec  `json:"t"`
	Emb    bool   `json:"emb,omitempty"`
	Hidden bool   `json:"hidden,omitempty"` // unexported
}

// VSpec is a value of some type, to be read along with the type.
type VSpec struct {
	Nil bool    `json:"nil,omitempty"`
	B   bool    `json:"b,omitempty"`
	I   int64   `json:"i,omitempty"`
	U   uint64  `json:"u,omitempty"`
	Flt uint64  `json:"f,omitempty"` // float64 bits
	S   Q       `json:"s,omitempty"`
	L   []VSpec `json:"l,omitempty"` // elements, fields, map values, pointer target
	MK  []VSpec `json:"mk,omitempty"`
	X   *TSpec  `json:"x,omitempty"` // dynamic type of an interface, its value is L[0]
}

var basicTypes = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "string": reflect.TypeOf(""),
	"int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"iface": reflect.TypeOf((*interface{})(nil)).Elem(),
	// not supported by any JSON package
	"chan": reflect.TypeOf((chan int)(nil)), "func": reflect.TypeOf((func())(nil)), "complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)),
}

var scalarNames = []string{"bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

// typ builds the type. With twin set it builds the type encoding/json is asked about.
func (t *TSpec) typ(twin bool) reflect.Type {
	if b := basicTypes[t.K]; b != nil {
		return b
	}
	switch t.K {
	case "ptr":
		return reflect.PtrTo(t.Elem.typ(twin))
	case "slice":
		if twin && t.Elem.K == "uint8" {
			return reflect.TypeOf([]uint16(nil)) // encoding/json writes byte slices as base64
		}
		return reflect.SliceOf(t.Elem.typ(twin))
	case "array":
		return reflect.ArrayOf(t.Len, t.Elem.typ(twin))
	case "map":
		return reflect.MapOf(t.Key.typ(twin), t.Elem.typ(twin))
	case "struct":
		fields := make([]reflect.StructField, len(t.F))
		for i, f := range t.F {
			fields[i] = reflect.StructField{Name: f.Name, Type: f.T.typ(twin), Tag: reflect.StructTag(f.Tag), Anonymous: f.Emb}
			if f.Hidden {
				fields[i].PkgPath = "main"
			}
		}
		return reflect.StructOf(fields)
	}
	l, ok := library[t.K]
	if !ok {
		panic(harnessBug{fmt.Errorf("unknown type %q", t.K)})
	}
	if twin && l.twin != nil {
		return l.twin
	}
	return l.typ
}

// libType is a type written out in Go.
type libType struct {
	typ  reflect.Type
	twin reflect.Type // what encoding/json is given instead
	cats string       // categories it may be used in
}

// custom handles types with internal structure.
type custom struct {
	gen   func(g G) VSpec
	build func(v VSpec, dst reflect.Value)
	dump  func(v reflect.Value) string
	doc   func(g G) string
}

var (
	library = map[string]*libType{}
	customs = map[reflect.Type]*custom{}
)

func libNames(cat string) (names []string) {
	for n, l := range library {
		if strings.Contains(" "+l.cats+" ", " "+cat+" ") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return
}

var libCache = map[string][]string{}

// build makes a settable value of the type. With full set nil slices become empty ones.
func build(t reflect.Type, v VSpec, twin bool) reflect.Value {
	defer func() {
		if p := recover(); p != nil {
			panic(harnessBug{fmt.Errorf("build %s: %v", t, p)})
		}
	}()
	dst := reflect.New(t).Elem()
	fill(dst, v, twin)
	return dst
}

func fill(dst reflect.Value, v VSpec, twin bool) {
	t := dst.Type()
	if c := customs[t]; c != nil && c.build != nil {
		c.build(v, dst)
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		dst.SetBool(v.B)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		dst.SetInt(v.I)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		dst.SetUint(v.U)
	case reflect.Float32, reflect.Float64:
		dst.SetFloat(math.Float64frombits(v.Flt))
	case reflect.String:
		dst.SetString(string(v.S))
	case reflect.Ptr:
		if !v.Nil {
			dst.Set(reflect.New(t.Elem()))
			fill(dst.Elem(), v.L[0], twin)
		}
	case reflect.Slice:
		if v.Nil && !twin {
			return
		}
		dst.Set(reflect.MakeSlice(t, len(v.L), len(v.L)))
		for i := range v.L {
			fill(dst.Index(i), v.L[i], twin)
		}
	case reflect.Array:
		for i := 0; i < t.Len() && i < len(v.L); i++ {
			fill(dst.Index(i), v.L[i], twin)
		}
	case reflect.Map:
		if v.Nil {
			return
		}
		dst.Set(reflect.MakeMap(t))
		for i := range v.L {
			dst.SetMapIndex(build(t.Key(), v.MK[i], twin), build(t.Elem(), v.L[i], twin))
		}
	case reflect.Interface:
		if v.Nil || v.X == nil {
			return
		}
		dst.Set(build(v.X.typ(twin), v.L[0], twin))
	case reflect.Struct:
		for i := 0; i < t.NumField() && i < len(v.L); i++ {
			if f := dst.Field(i); f.CanSet() || t.Field(i).Anonymous && f.Kind() == reflect.Struct {
				fill(f, v.L[i], twin)
			}
		}
	case reflect.Chan:
		dst.Set(reflect.MakeChan(t, 0))
	case reflect.Complex64, reflect.Complex128:
		dst.SetComplex(complex(float64(v.I), 0))
	case reflect.Uintptr:
		dst.SetUint(v.U)
	case reflect.Func:
	default:
		panic(harnessBug{fmt.Errorf("fill %s", t)})
	}
}

// ---- generation ----

type typeOpts struct {
	cat       string // category of library types used
	libProb   int    // of 10
	bytes     bool   // byte slices
	ptrs      bool
	maps      bool
	ifaces    bool
	structs   bool
	emb       bool
	conflicts bool // embedded fields of equal names at different depths
	omit      bool
	omitAll   bool // omitempty on structs, arrays and types with omit methods too
	hide      bool // "-" tags and unexported fields
	tagKey    string
	textKeys  []string // library names usable as map keys
	namePool  []string
	flat      bool // slices hold scalars only
}

func plainTypes() typeOpts {
	return typeOpts{cat: "plain", libProb: 1, bytes: true, ptrs: true, maps: true, ifaces: true, structs: true, emb: true, conflicts: true, omit: true, hide: true, tagKey: "json"}
}

var jsonNames = []string{"", "", "a", "b", "c", "foo", "bar", "x", "id", "ID", "A", "Foo", "naïve", "日本", "a-b", "a.b", "a b", "$ref", "<tag>", "_", "0", "a&b", "key_longer_than_sixteen_bytes", "key_longer_than_thirty-two_bytes_1", "key_longer_than_thirty-two_bytes_2"}
var goNames = []string{"A", "B", "C", "Foo", "Bar", "X", "ID", "Name", "Value", "Élan", "ANameOfMoreThanSixteenBytes"}

func (g G) lib(cat string) *TSpec {
	names, ok := libCache[cat]
	if !ok {
		names = libNames(cat)
		libCache[cat] = names
	}
	if len(names) == 0 {
		return &TSpec{K: "int"}
	}
	return &TSpec{K: pickS(g, names)}
}

func (g G) typ(o typeOpts, depth int) TSpec {
	if o.libProb > 0 && g.p(o.libProb, 10) {
		return *g.lib(o.cat)
	}
	if depth <= 0 {
		if o.ifaces && g.p(1, 12) {
			return TSpec{K: "iface"}
		}
		return TSpec{K: pickS(g, scalarNames)}
	}
	switch g.n(12) {
	case 0, 1, 2:
		return g.typ(o, 0)
	case 3:
		if o.ptrs {
			e := g.typ(o, depth-1)
			return TSpec{K: "ptr", Elem: &e}
		}
	case 4, 5:
		d := depth - 1
		if o.flat {
			d = 0
		}
		e := g.typ(o, d)
		if e.K == "uint8" {
			if !o.bytes {
				e.K = "uint16"
			} else if g.p(1, 3) {
				return TSpec{K: pick(g, "NBytes", "NByteS")}
			}
		}
		return TSpec{K: "slice", Elem: &e}
	case 6:
		e := g.typ(o, depth-1)
		n := g.n(4)
		if g.p(1, 6) {
			n = g.rng(4, 9)
		}
		return TSpec{K: "array", Len: n, Elem: &e}
	case 7:
		if o.maps {
			e := g.typ(o, depth-1)
			k := TSpec{K: "string"}
			if g.p(1, 4) {
				k.K = "NStr"
			}
			if len(o.textKeys) > 0 && g.p(1, 2) {
				k.K = pickS(g, o.textKeys)
			}
			return TSpec{K: "map", Key: &k, Elem: &e}
		}
	case 8:
		if o.ifaces {
			return TSpec{K: "iface"}
		}
	default:
		if o.structs {
			return g.structType(o, depth)
		}
	}
	return g.typ(o, 0)
}

func (g G) structType(o typeOpts, depth int) TSpec {
	t := TSpec{K: "struct"}
	n := g.size(6)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		f := FSpec{Name: pickS(g, goNames)}
		if used[f.Name] {
			f.Name = fmt.Sprintf("F%d", i)
		}
		if o.emb && depth > 0 && g.p(1, 6) {
			f.Emb = true
			f.Name = fmt.Sprintf("E%d", i)
			f.T = g.structType(o, depth-1)
			if o.ptrs && g.p(1, 3) {
				e := f.T
				f.T = TSpec{K: "ptr", Elem: &e}
			}
			switch g.n(8) {
			case 0:
				f.Tag = Q(o.tagKey + `:",omitempty"`)
				if !o.omit {
					f.Tag = Q(o.tagKey + `:","`)
				}
			case 1:
				f.Tag = Q(g.tag(o, &f, "e"+strconv.Itoa(i)))
			}
		} else {
			f.T = g.typ(o, depth-1)
			pool := o.namePool
			if pool == nil {
				pool = jsonNames
			}
			name := pickS(g, pool)
			if g.p(1, 40) {
				name = pick(g, "k", "key_") + strings.Repeat(pick(g, "x", "é", "y "), g.n(120))
			}
			f.Tag = Q(g.tag(o, &f, name))
			if o.hide && g.p(1, 16) {
				f.Hidden = true
				f.Name = "hidden" + strconv.Itoa(i)
			}
		}
		cand := t
		cand.F = append(append([]FSpec(nil), t.F...), f)
		if ambiguous(cand.typ(false), o.tagKey, o.conflicts) {
			continue
		}
		used[f.Name] = true
		t = cand
	}
	return t
}

// omitOK: fields for which encoding/json and njson agree on emptiness.
func omitOK(t TSpec) bool {
	k := t.typ(false)
	if l := library[t.K]; l != nil && strings.Contains(l.cats, "omitter") {
		return false
	}
	switch k.Kind() {
	case reflect.Struct:
		return false
	case reflect.Array:
		return k.Len() == 0
	}
	return true
}

func (g G) tag(o typeOpts, f *FSpec, name string) string {
	if o.hide && g.p(1, 14) {
		name = pick(g, "-", "-,")
		return o.tagKey + ":" + strconv.Quote(name)
	}
	opts := ""
	if o.omit && g.p(1, 3) && (o.omitAll || omitOK(f.T)) {
		opts = ",omitempty"
		if g.p(1, 10) {
			opts = pick(g, ",unknown,omitempty", ",omitempty,unknown", ",omitempty,", ",omitemptyx", ",xomitempty", ",x,OmitEmpty")
		}
	}
	if name == "" && opts == "" && g.p(1, 2) {
		return ""
	}
	s := o.tagKey + ":" + strconv.Quote(name+opts)
	if g.p(1, 10) {
		s = pick(g, `xml:"z" `, `yaml:"-" `) + s
	}
	if g.p(1, 10) {
		s += ` bson:"q,omitempty"`
	}
	return s
}

// flat is one member a struct may have.
type flat struct {
	name  string
	depth int
	index []int
	field reflect.StructField
	opts  string
}

// flatten lists all candidate members of a struct in field order, before names are resolved.
func flatten(t reflect.Type, key string, index []int, parents []reflect.Type) (out []flat) {
	for _, p := range parents {
		if p == t {
			return nil
		}
	}
	parents = append(append([]reflect.Type(nil), parents...), t)
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get(key)
		if tag == "-" {
			continue
		}
		name, opts := tag, ""
		if j := strings.IndexByte(tag, ','); j >= 0 {
			name, opts = tag[:j], tag[j:]
		}
		idx := append(append([]int(nil), index...), i)
		if f.Anonymous && name == "" {
			e := f.Type
			if e.Kind() == reflect.Ptr && e.Name() == "" {
				e = e.Elem()
			}
			if e.Kind() == reflect.Struct {
				out = append(out, flatten(e, key, idx, parents)...)
				continue
			}
		}
		if f.PkgPath != "" {
			continue
		}
		if name == "" {
			name = f.Name
		}
		out = append(out, flat{name, len(idx), idx, f, opts + ","})
	}
	return
}

// members resolves the names: the shallowest wins, then the first.
func members(t reflect.Type, key string) []flat {
	all := flatten(t, key, nil, nil)
	var out []flat
	for i, f := range all {
		win := true
		for j, h := range all {
			if h.name == f.name && (h.depth < f.depth || h.depth == f.depth && j < i) {
				win = false
			}
		}
		if win {
			out = append(out, f)
		}
	}
	return out
}

// ambiguous: two members of a name at the depth that wins (or at all).
func ambiguous(t reflect.Type, key string, conflicts bool) bool {
	min := map[string]int{}
	cnt := map[string]int{}
	for _, f := range flatten(t, key, nil, nil) {
		d, ok := min[f.name]
		switch {
		case !ok || f.depth < d:
			if ok && !conflicts {
				return true
			}
			min[f.name], cnt[f.name] = f.depth, 1
		case f.depth == d:
			cnt[f.name]++
		case !conflicts:
			return true
		}
	}
	for _, c := range cnt {
		if c > 1 {
			return true
		}
	}
	return false
}

type valOpts struct {
	boom      bool // payloads that make methods fail
	validUTF8 bool
	generic   bool // interfaces hold what decoding gives
	oneKey    bool // maps of at most one key
	zeroProb  int  // of 16: zero values
	nonFinite bool
	ifaceCat  string
	unescaped bool // strings that need no escapes
	fill      bool // no nil pointers unless the depth is used up
}

func (g G) goString(o valOpts) string {
	var s string
	if o.unescaped {
		return pick(g, "", "a", "foo", "omit", "<b>", "x>y&z", "é", "日本", "\U0001f600 <", "\u007f", "true", "{}", "[1,2]", " ") + pick(g, "", "", "", "<&>", "tail")
	}
	if o.boom && g.p(1, 4) {
		return pick(g, boom, "a"+boom, boom+"\n")
	}
	switch g.n(5) {
	case 0:
		s = pick(g, "", "a", "foo", "<b>&amp;", `"quoted"`, `back\slash`, "nl\n", "\u2028", "\x00", "\x7f", "é", "\U0001f600", "null", "123", "\ufffd")
	case 1:
		s = g.plainRun(12)
	case 2, 3:
		s = decodeBody(g.strBody(4))
	default:
		s = g.rawBytes(8)
	}
	if o.validUTF8 && !utf8.ValidString(s) {
		s = sanitize(s)
	}
	return s
}

func (g G) intOf(bits int) int64 {
	switch g.n(4) {
	case 0:
		return int64(g.rng(-20, 20))
	case 1:
		return pick(g, int64(-1)<<(bits-1), int64(1)<<(bits-1)-1, -1<<(bits-1)+1, 0, -1, 1)
	case 2:
		if bits == 64 {
			return pick[int64](g, 1<<53, 1<<53+1, -1<<53-1, 1<<62+1, 999999999999999999, -999999999999999999)
		}
	}
	return int64(g.bits(bits)) << (64 - bits) >> (64 - bits)
}

func (g G) uintOf(bits int) uint64 {
	max := ^uint64(0) >> (64 - bits)
	switch g.n(4) {
	case 0:
		return uint64(g.n(40))
	case 1:
		return pick(g, max, max-1, max>>1, max>>1+1, 0)
	}
	return g.bits(bits)
}

func (g G) val(t reflect.Type, o valOpts, depth int) VSpec {
	if c := customs[t]; c != nil && c.gen != nil {
		return c.gen(g)
	}
	if o.zeroProb > 0 && g.p(o.zeroProb, 16) {
		return zeroV(t)
	}
	switch t.Kind() {
	case reflect.Bool:
		return VSpec{B: g.p(1, 2)}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return VSpec{I: g.intOf(t.Bits())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return VSpec{U: g.uintOf(t.Bits())}
	case reflect.Float32:
		if o.nonFinite && g.p(1, 3) {
			return VSpec{Flt: math.Float64bits(pick(g, math.NaN(), math.Inf(1), math.Inf(-1)))}
		}
		return VSpec{Flt: math.Float64bits(float64(g.float32()))}
	case reflect.Float64:
		if o.nonFinite && g.p(1, 3) {
			return VSpec{Flt: math.Float64bits(pick(g, math.NaN(), math.Inf(1), math.Inf(-1)))}
		}
		return VSpec{Flt: math.Float64bits(g.float64())}
	case reflect.String:
		return VSpec{S: Q(g.goString(o))}
	case reflect.Ptr:
		if depth <= 0 || !o.fill && g.p(1, 4) {
			return VSpec{Nil: true}
		}
		e := g.val(t.Elem(), o, depth-1)
		if k := t.Elem().Kind(); o.generic && e.Nil && (k == reflect.Ptr || k == reflect.Interface || k == reflect.Map) {
			return VSpec{Nil: true} // null cannot tell a pointer to null from a null pointer
		}
		return VSpec{L: []VSpec{e}}
	case reflect.Slice:
		if g.p(1, 6) {
			return VSpec{Nil: true}
		}
		v := VSpec{L: []VSpec{}}
		if depth <= 0 {
			return v
		}
		n := g.size(4)
		if depth > 2 && g.p(1, 30) {
			n = pick(g, 8, 16, 17, 33, 64, 100)
		}
		for i := 0; i < n; i++ {
			d := depth - 1
			if n > 5 {
				d = 0
			}
			v.L = append(v.L, g.val(t.Elem(), o, d))
		}
		return v
	case reflect.Array:
		v := VSpec{}
		for i := 0; i < t.Len(); i++ {
			v.L = append(v.L, g.val(t.Elem(), o, depth-1))
		}
		return v
	case reflect.Map:
		if g.p(1, 6) {
			return VSpec{Nil: true}
		}
		v := VSpec{L: []VSpec{}}
		if depth <= 0 {
			return v
		}
		max := 4
		if o.oneKey {
			max = 1
		}
		n := g.size(max)
		seen := map[string]bool{}
		ko := o
		ko.validUTF8, ko.zeroProb = true, 0
		for i := 0; i < n; i++ {
			k := g.val(t.Key(), ko, depth-1)
			id := dump(build(t.Key(), k, false))
			if seen[id] {
				continue
			}
			seen[id] = true
			v.MK = append(v.MK, k)
			v.L = append(v.L, g.val(t.Elem(), o, depth-1))
		}
		return v
	case reflect.Interface:
		return g.ifaceVal(t, o, depth)
	case reflect.Struct:
		v := VSpec{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !(f.Anonymous && f.Type.Kind() == reflect.Struct) {
				v.L = append(v.L, VSpec{Nil: true})
				continue
			}
			v.L = append(v.L, g.val(f.Type, o, depth-1))
		}
		return v
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.Uintptr:
		return VSpec{I: int64(g.n(3)), U: uint64(g.n(3))}
	}
	panic(harnessBug{fmt.Errorf("val %s", t)})
}

func zeroV(t reflect.Type) VSpec {
	switch t.Kind() {
	case reflect.Array:
		v := VSpec{}
		for i := 0; i < t.Len(); i++ {
			v.L = append(v.L, zeroV(t.Elem()))
		}
		return v
	case reflect.Struct:
		v := VSpec{}
		for i := 0; i < t.NumField(); i++ {
			v.L = append(v.L, zeroV(t.Field(i).Type))
		}
		return v
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return VSpec{Nil: true}
	}
	return VSpec{}
}

func (g G) ifaceVal(t reflect.Type, o valOpts, depth int) VSpec {
	if depth <= 0 || g.p(1, 5) {
		return VSpec{Nil: true}
	}
	var x TSpec
	if t == typeOf[IfaceO]() {
		x = TSpec{K: "ptr", Elem: &TSpec{K: "OJ"}}
		return VSpec{X: &x, L: []VSpec{{L: []VSpec{g.val(x.Elem.typ(false), o, depth)}}}}
	}
	if t.NumMethod() > 0 {
		var ok []string
		for _, n := range libNames("method") {
			if library[n].typ.Implements(t) && library[n].twin == nil && (t == typeOf[json.Marshaler]() || !library[n].typ.Implements(typeOf[json.Marshaler]())) {
				ok = append(ok, n)
			}
		}
		if len(ok) == 0 {
			return VSpec{Nil: true}
		}
		x = TSpec{K: pickS(g, ok)}
		if x.K != "BigInt" && g.p(1, 3) {
			e := x
			x = TSpec{K: "ptr", Elem: &e}
		}
	} else if o.generic {
		iface := &TSpec{K: "iface"}
		switch g.n(5) {
		case 0:
			x = TSpec{K: "bool"}
		case 1:
			x = TSpec{K: "float64"}
		case 2:
			x = TSpec{K: "string"}
		case 3:
			x = TSpec{K: "slice", Elem: iface}
		default:
			x = TSpec{K: "map", Key: &TSpec{K: "string"}, Elem: iface}
		}
	} else {
		to := plainTypes()
		if o.ifaceCat != "" {
			to.cat, to.libProb = o.ifaceCat, 4
		}
		x = g.typ(to, 2)
	}
	v := g.val(x.typ(false), o, depth-1)
	if t.NumMethod() > 0 {
		// encoding/json calls the method of a nil pointer in such an interface
		if v.Nil && x.K == "ptr" {
			v = VSpec{L: []VSpec{g.val(x.Elem.typ(false), o, depth)}}
		}
		if v.S == "" && x.K == "BigInt" {
			v.S = "0"
		}
	}
	if o.generic && v.Nil {
		v = VSpec{L: []VSpec{}} // decoding never gives nil slices or maps here
	}
	return VSpec{X: &x, L: []VSpec{v}}
}

// ---- comparison of Go values ----

// dump writes a value in a form that does not name types. Floats are written
// with all their bits, nil and empty are told apart.
func dump(v reflect.Value) string {
	var b strings.Builder
	dumpTo(&b, v, dumpExact)
	return b.String()
}

// dumpAlike is dump without the difference of nil and empty slices.
func dumpAlike(v reflect.Value) string {
	var b strings.Builder
	dumpTo(&b, v, dumpEmpty)
	return b.String()
}

type dumpMode int

const (
	dumpExact dumpMode = iota
	dumpEmpty          // nil and empty slices alike
	dumpLoose          // for round trips
)

// dumpNorm is dump without the difference of nil and empty slices and maps,
// and of nil and zero embedded pointers.
func dumpNorm(v reflect.Value) string {
	var b strings.Builder
	dumpTo(&b, v, dumpLoose)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, mode dumpMode) {
	norm := mode == dumpLoose
	if !v.IsValid() {
		b.WriteString("invalid")
		return
	}
	t := v.Type()
	if c := customs[t]; c != nil && c.dump != nil && v.CanInterface() {
		b.WriteString(c.dump(v))
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if norm && f == 0 {
			f = 0 // -0 is empty as well
		}
		fmt.Fprintf(b, "%x(%v)", math.Float64bits(f), f)
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(b, v.Complex())
	case reflect.String:
		b.WriteString(strconv.QuoteToASCII(v.String()))
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if norm && writesNull(v.Elem()) {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dumpTo(b, v.Elem(), mode)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "<%s>", v.Elem().Kind())
		dumpTo(b, v.Elem(), mode)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() && mode == dumpExact {
			b.WriteString("nil")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpTo(b, v.Index(i), mode)
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() && !norm {
			b.WriteString("nil")
			return
		}
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dumpTo(&e, k, mode)
			e.WriteByte(':')
			dumpTo(&e, v.MapIndex(k), mode)
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString("map[" + strings.Join(es, " ") + "]")
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < t.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			f := v.Field(i)
			if norm && t.Field(i).Anonymous && f.Kind() == reflect.Ptr && t.Field(i).Type.Elem().Kind() == reflect.Struct {
				if f.IsNil() || dumpNorm(f.Elem()) == dumpNorm(reflect.Zero(f.Type().Elem())) {
					b.WriteString("zero")
					continue
				}
			}
			dumpTo(b, f, mode)
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "<%s>", t)
	}
}

func writesNull(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return v.IsNil() || writesNull(v.Elem())
	case reflect.Map:
		return v.IsNil()
	}
	return false
}

// diff points at the first difference of two dumps.
func diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string {
		a, z := i-40, i+60
		if a < 0 {
			a = 0
		}
		if z > len(s) {
			z = len(s)
		}
		return s[a:z]
	}
	return fmt.Sprintf("got ...%s..., want ...%s...", cut(got), cut(want))
}

// ---- comparison of JSON texts ----

// sameNumber: equal as decimal numbers, zeros of equal sign.
func sameNumber(a, b string) bool {
	if a == b {
		return true
	}
	if strings.HasPrefix(a, "-") != strings.HasPrefix(b, "-") {
		return false
	}
	for _, s := range []string{a, b} {
		if !json.Valid([]byte(s)) || len(s) > 2000 {
			return false
		}
		if i := strings.IndexAny(s, "eE"); i >= 0 {
			if e, err := strconv.Atoi(s[i+1:]); err != nil || e > 2000 || e < -2000 {
				return false
			}
		}
	}
	x, ok1 := new(big.Rat).SetString(a)
	y, ok2 := new(big.Rat).SetString(b)
	return ok1 && ok2 && x.Cmp(y) == 0
}

// sameJSON compares two trees; ordered also compares the order of members.
func sameJSON(a, b *JV, ordered bool) error {
	if a.K != b.K {
		return errf("%s instead of %s", a.text(), b.text())
	}
	switch a.K {
	case '#':
		if !sameNumber(a.Raw, b.Raw) {
			return errf("number %s instead of %s", a.Raw, b.Raw)
		}
	case 's':
		if x, y := decodeBody(a.Raw), decodeBody(b.Raw); x != y {
			return errf("string %q instead of %q", x, y)
		}
	case '[', '{':
		if len(a.A) != len(b.A) {
			return errf("%d elements instead of %d: %s instead of %s", len(a.A), len(b.A), a.text(), b.text())
		}
		ai, bi := order(a, ordered), order(b, ordered)
		for i := range ai {
			x, y := ai[i], bi[i]
			if a.K == '{' {
				if kx, ky := decodeBody(a.Keys[x]), decodeBody(b.Keys[y]); kx != ky {
					return errf("member %q instead of %q in %s", kx, ky, a.text())
				}
			}
			if err := sameJSON(a.A[x], b.A[y], ordered); err != nil {
				return err
			}
		}
	default:
		if a.Raw != b.Raw {
			return errf("%s instead of %s", a.Raw, b.Raw)
		}
	}
	return nil
}

func order(v *JV, ordered bool) []int {
	idx := make([]int, len(v.A))
	for i := range idx {
		idx[i] = i
	}
	if !ordered && v.K == '{' {
		keys := make([]string, len(v.Keys))
		for i, k := range v.Keys {
			keys[i] = decodeBody(k)
		}
		sort.SliceStable(idx, func(i, j int) bool { return keys[idx[i]] < keys[idx[j]] })
	}
	return idx
}

// sameOutput compares JSON written by njson with JSON written by encoding/json.
func sameOutput(got, want []byte, ordered bool) error {
	if !json.Valid(got) {
		return errf("not valid JSON: %s", got)
	}
	return sameJSON(mustRef(string(got)), mustRef(string(want)), ordered)
}

// manyKeys: the order of members is not determined.
func manyKeys(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil() && manyKeys(v.Elem())
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if manyKeys(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if manyKeys(v.MapIndex(k)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if manyKeys(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// ---- documents for a type ----

type docGen struct {
	noise    bool // unknown members, missing members, nulls, spellings
	noNulls  bool
	ptrNulls bool // nulls where the type has a pointer or slice
	wrong    int  // per mille of values that get a wrong type
	names    map[string]bool
	dups     bool
	nonPlain bool // integer values spelled as floats
}

// spell writes a string as JSON with random escapes.
func (g G) spell(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	style := g.n(4)
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			if style == 1 && g.p(1, 2) {
				b.WriteString(`\u` + g.hex4(uint32(r)))
			} else {
				b.WriteByte('\\')
				b.WriteRune(r)
			}
		case r < 0x20 || style == 1 && g.p(1, 2) && r < 0x10000 && r != utf8.RuneError:
			b.WriteString(`\u` + g.hex4(uint32(r)))
		case r >= 0x10000 && style == 1:
			b.WriteString(`\u` + g.hex4(0xD800+uint32(r-0x10000)>>10) + `\u` + g.hex4(0xDC00+uint32(r-0x10000)&0x3ff))
		case r == '/' && style == 2:
			b.WriteString(`\/`)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// structNames collects the candidate member names of every struct in a type.
func structNames(t reflect.Type, key string, out *[]map[string]bool, seen map[reflect.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		structNames(t.Elem(), key, out, seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			structNames(t.Field(i).Type, key, out, seen)
		}
		names := map[string]bool{}
		for _, f := range flatten(t, key, nil, nil) {
			names[f.name] = true
		}
		*out = append(*out, names)
	}
}

func (d *docGen) init(t reflect.Type, key string) {
	d.names = map[string]bool{} // unknown keys stay away from all of them
	var structs []map[string]bool
	structNames(t, key, &structs, map[reflect.Type]bool{})
	for _, names := range structs {
		for n := range names {
			d.names[n] = true
		}
	}
}

func (d *docGen) unknownKey(g G) string {
	var known []string
	for n := range d.names {
		known = append(known, n)
	}
	sort.Strings(known)
	for i := 0; i < 4; i++ {
		s := ""
		if len(known) > 0 && g.p(1, 2) { // one character away from a known one
			r := []rune(pickS(g, known))
			if len(r) > 0 {
				k := g.n(len(r))
				switch g.n(5) {
				case 0:
					r = append(r[:k], r[k+1:]...)
				case 1:
					r = append(r, 'x')
				default:
					r[k] = rune(pick(g, 'q', 'Q', '_', '0'))
				}
			}
			s = string(r)
		} else {
			s = pick(g, "unknown", "zzz", "", "Hidden", "nothing here", "esc\"aped", "hidden0", "e0x")
		}
		ok := true
		for n := range d.names {
			if strings.EqualFold(n, s) {
				ok = false
			}
		}
		if ok {
			return s
		}
	}
	return "\u2603 no such member"
}

var simpleDoc = docOpts{depth: 2, maxKids: 3, strPcs: 3, finite: true}

func (g G) anyDoc(o docOpts, depth int) string {
	var b strings.Builder
	g.value(&b, o, depth)
	return b.String()
}

func (d *docGen) doc(g G, t reflect.Type, key string, depth int) string {
	if d.wrong > 0 && g.n(1000) < d.wrong {
		return g.anyDoc(simpleDoc, 1)
	}
	if c := customs[t]; c != nil && c.doc != nil {
		return c.doc(g)
	}
	if p := reflect.PtrTo(t); t.Kind() != reflect.Ptr {
		switch {
		case p.Implements(typeOf[njson.Unmarshaler]()), p.Implements(typeOf[json.Unmarshaler]()):
			s := g.anyDoc(simpleDoc, 2)
			if d.wrong == 0 && strings.Contains(s, boom) {
				return "1"
			}
			return s
		case p.Implements(typeOf[encoding.TextUnmarshaler]()):
			if d.noise && !d.noNulls && g.p(1, 12) {
				return "null"
			}
			return `"` + g.strBody(4) + `"`
		}
	}
	if d.noise && !d.noNulls && g.p(1, 12) {
		return "null"
	}
	w := func() string {
		if d.noise {
			return g.ws()
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Bool:
		return pick(g, "false", "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if d.wrong > 0 && g.p(1, 20) {
			return pick(g, "128", "-129", "32768", "-32769", "2147483648", "-2147483649", "9223372036854775808", "-9223372036854775809", "1.5", "1e19", "1e-1", "100000000000000000000000")
		}
		return strconv.FormatInt(g.intOf(t.Bits()), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if d.wrong > 0 && g.p(1, 20) {
			return pick(g, "256", "-1", "65536", "4294967296", "18446744073709551616", "1.5", "1e20", "-128", "99999999999999999999999")
		}
		return strconv.FormatUint(g.uintOf(t.Bits()), 10)
	case reflect.Float32:
		if d.wrong > 0 && g.p(1, 20) {
			return pick(g, "1e39", "-3.5e38", "1e400")
		}
		if g.p(1, 2) {
			return strconv.FormatFloat(float64(g.float32()), 'g', -1, 32)
		}
		return g.numberFor(simpleDoc)
	case reflect.Float64:
		if d.wrong > 0 && g.p(1, 20) {
			return pick(g, "1e309", "-1e400", "1e99999")
		}
		return g.numberFor(simpleDoc)
	case reflect.String:
		return `"` + g.strBody(4) + `"`
	case reflect.Ptr:
		if depth <= 0 || d.ptrNulls && g.p(1, 6) {
			return "null"
		}
		return d.doc(g, t.Elem(), key, depth-1)
	case reflect.Interface:
		return g.anyDoc(simpleDoc, 2)
	case reflect.Slice, reflect.Array:
		if d.ptrNulls && t.Kind() == reflect.Slice && g.p(1, 8) {
			return "null"
		}
		if depth <= 0 {
			if t.Kind() == reflect.Slice {
				return "[]"
			}
			return "null"
		}
		n := g.size(4)
		if t.Kind() == reflect.Array {
			n = t.Len()
			if d.noise && g.p(1, 4) {
				n = g.n(n + 3)
			}
		} else if g.p(1, 30) {
			n = pick(g, 8, 17, 40)
			depth = 1
		}
		var b strings.Builder
		b.WriteString("[" + w())
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + w())
			}
			b.WriteString(d.doc(g, t.Elem(), key, depth-1) + w())
		}
		return b.String() + "]"
	case reflect.Map:
		if depth <= 0 {
			return "{}"
		}
		n := g.size(4)
		var b strings.Builder
		b.WriteString("{" + w())
		seen := map[string]bool{}
		first := true
		for i := 0; i < n; i++ {
			var k string
			if c := customs[t.Key()]; c != nil && c.doc != nil {
				k = c.doc(g)
			} else if t.Key().Kind() == reflect.String {
				k = `"` + g.key() + `"`
			} else {
				k = g.spell(pick(g, "k", "v", "w", "text key", "q\"uote", ""))
				if d.wrong > 0 && g.p(1, 8) {
					k = g.spell(pick(g, boom, "a"+boom, boom+" "))
				}
			}
			if dk := decodeBody(k[1 : len(k)-1]); seen[dk] {
				continue
			} else {
				seen[dk] = true
			}
			if !first {
				b.WriteString("," + w())
			}
			first = false
			b.WriteString(k + w() + ":" + w() + d.doc(g, t.Elem(), key, depth-1) + w())
		}
		return b.String() + "}"
	case reflect.Struct:
		ms := members(t, key)
		var parts []string
		for _, m := range ms {
			if d.noise && g.p(1, 5) {
				continue
			}
			name := g.spell(m.name)
			dd := depth - 1
			if k := m.field.Type.Kind(); d.dups && (k <= reflect.Float64 || k == reflect.String) && customs[m.field.Type] == nil && m.field.Type.PkgPath() == "" && g.p(1, 12) {
				plain := *d
				plain.noise = false // null has no effect in encoding/json
				parts = append(parts, name+w()+":"+w()+plain.doc(g, m.field.Type, key, dd)+w(), g.spell(m.name)+":"+plain.doc(g, m.field.Type, key, dd)+w())
				continue
			}
			parts = append(parts, name+w()+":"+w()+d.doc(g, m.field.Type, key, dd)+w())
		}
		if d.noise {
			if g.p(1, 4) {
				parts = append(parts, g.spell(d.unknownKey(g))+":"+g.anyDoc(simpleDoc, 2)+w())
			}
			for i := len(parts) - 1; i > 0; i-- { // members in any order
				if g.p(1, 3) {
					j := g.n(i + 1)
					parts[i], parts[j] = parts[j], parts[i]
				}
			}
		}
		return "{" + w() + strings.Join(parts, ","+w()) + "}"
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128:
		return "1"
	}
	panic(harnessBug{fmt.Errorf("doc %s", t)})
}
