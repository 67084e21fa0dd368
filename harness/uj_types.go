package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"io"
	"math/big"
	"net"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/unjson"
)

// ---- types without methods ----

type (
	NInt   int8
	NUint  uint64
	NStr   string
	NFloat float32
	NBool  bool
	NSlice []NInt
	NArr   [2]NStr
	NMap   map[NStr]*NInt
	NBytes []byte
	NByte  uint8
	NByteS []NByte // encoding/json writes it as base64

	SliceRec []SliceRec
	MapRec   map[string]MapRec

	Tree struct {
		V    int    `json:"v"`
		Kids []Tree `json:"kids,omitempty"`
	}
	List struct {
		V    string
		Next *List `json:"next"`
	}
	Mutual1 struct {
		A map[string]*Mutual2 `json:"a"`
		N int
	}
	Mutual2 struct {
		B []Mutual1 `json:"b,omitempty"`
		S [2]*Mutual1
	}
	Base struct {
		ID   int    `json:"id"`
		Name string `json:"name,omitempty"`
	}
	base struct {
		X int `json:"x"`
		y int
		Z *string
	}
	deepest struct {
		W float64
		X string `json:"x"`
	}
	WithBase struct {
		Base
		Other bool `json:"other"`
	}
	WithPtrBase struct {
		First string
		*Base
		Name []string `json:"name"` // hides Base.Name
	}
	Unexp struct {
		base
		X      uint8 `json:"x"` // hides base.X
		hidden string
	}
	Unexp2 struct {
		base
		Q string
	}
	UnexpPtr struct {
		*base
		Q string
	}
	Deep3 struct {
		*Deep2
		A int
	}
	Deep2 struct {
		Deep1
		B int
	}
	Deep1 struct {
		A string // hidden by Deep3.A
		C string
		deepest
	}
	RecEmb struct {
		*RecEmb
		X int
	}
	EmbScalar struct {
		NInt
		*NStr
		NSlice `json:"list"`
	}
	EmbNamed struct {
		Base `json:"base"`
		ID   string `json:"id"`
	}
	EmbIface struct {
		Any
		X int
	}
	Any   interface{}
	Empty struct{}
	Skips struct {
		A int    `json:"-"`
		B int    `json:"-,"`
		c int    `yaml:"c"`
		D string `json:"d,omitempty" xml:"-"`
	}
)

// Different types that print alike, also in one value.
func sameNames() (t1, t2, t3, both reflect.Type) {
	type Twin struct {
		A int `json:"a"`
		N []string
	}
	t1 = reflect.TypeOf(Twin{})
	f1 := func() reflect.Type {
		type Twin struct {
			A string `json:"a,omitempty"`
			B *bool
		}
		t3 = reflect.TypeOf([2]Twin{})
		return reflect.TypeOf(Twin{})
	}
	t2 = f1()
	f2 := func() reflect.Type {
		type Both struct {
			X Twin `json:"x"`
			P *Twin
		}
		type Y Twin
		type Twin struct {
			Both
			A []Y `json:"a"`
		}
		return reflect.TypeOf(Twin{})
	}
	return t1, t2, t3, f2()
}

func init() {
	t1, t2, t3, both := sameNames()
	for i, t := range []reflect.Type{t1, t2, t3, both} {
		library["Same"+strconv.Itoa(i)] = &libType{typ: t, cats: "plain round same"}
	}
	st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t2}, {Name: "B", Type: t1, Tag: `json:"b"`}, {Name: "C", Type: reflect.SliceOf(both)}, {Name: "D", Type: reflect.PtrTo(t2)}})
	like := func() reflect.Type { // convertible to t1
		type Twin struct {
			A int      `json:"A,omitempty"`
			N []string `json:"a"`
		}
		return reflect.TypeOf(Twin{})
	}()
	library["Same6"] = &libType{typ: like, cats: "plain round same"}
	inner := func() reflect.Type { // embeds a type of its own name
		type Old struct{ Z bool }
		type Twin struct {
			A int
			C string `json:"c"`
		}
		return func() reflect.Type {
			type Base = Twin
			type Twin struct {
				*Old
				Base
				B uint8 `json:"b"`
			}
			return reflect.TypeOf(Twin{})
		}()
	}()
	library["Same7"] = &libType{typ: inner, cats: "plain round same"}
	library["Same4"] = &libType{typ: st, cats: "plain round same"}
	library["Same5"] = &libType{typ: reflect.SliceOf(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.PtrTo(t1)}, {Name: "B", Type: reflect.SliceOf(t2)}, {Name: "C", Type: reflect.SliceOf(t1)}})), cats: "plain round same"}
}

var _ = base{y: 1}
var _ = Unexp{hidden: ""}
var _ = Skips{c: 1}

// ---- types with methods ----

const boom = "boom"

// boomErrors are errors of methods, some with a meaning elsewhere.
var boomErrors = []error{errors.New("boom happened"), errors.New("boom happened"), io.EOF, io.ErrUnexpectedEOF, io.ErrShortBuffer, njson.UnexpectedEOF(njson.TypeObject)}

func boomError(text string) error {
	n := 0
	for i := range text {
		n += int(text[i])
	}
	return boomErrors[n%len(boomErrors)]
}

func compacted(data []byte) string {
	var b bytes.Buffer
	if err := json.Compact(&b, data); err != nil {
		return "invalid:" + string(data)
	}
	return b.String()
}

func marshalBody(tag, p string) ([]byte, error) {
	if strings.Contains(p, boom) {
		if len(p)%2 == 0 { // the bytes do not count
			return []byte(`{"partial":1}`), boomError(p)
		}
		return nil, boomError(p)
	}
	q, _ := json.Marshal(p)
	switch len(p) % 4 {
	case 1:
		return []byte("[" + string(q) + ",1]"), nil
	case 2:
		return q, nil
	case 3:
		return []byte("null"), nil
	}
	return []byte(`{"` + tag + `":` + string(q) + `}`), nil
}

func unmarshalBody(p *string, data []byte) error {
	s := compacted(data)
	if strings.Contains(s, boom) {
		return boomError(s)
	}
	*p += "got:" + s
	return nil
}

func unmarshalNode(p *string, n njson.Node) error {
	b, err := n.AppendJSON(nil)
	if err != nil {
		return err
	}
	return unmarshalBody(p, b)
}

func textBody(tag, p string) ([]byte, error) {
	if strings.Contains(p, boom) {
		if len(p)%2 == 0 {
			return []byte("partial"), boomError(p)
		}
		return nil, boomError(p)
	}
	return []byte(tag + ":" + p), nil
}

func untextBody(p *string, b []byte) error {
	if bytes.Contains(b, []byte(boom)) {
		return boomError(string(b))
	}
	*p += "text:" + string(b)
	for i := range b {
		b[i] = '!' // the text belongs to the callee
	}
	return nil
}

type (
	// JSON methods
	JVal   struct{ P string }
	JP     struct{ P string }
	JStr   string
	JInt   int
	JSlice []string
	JMap   map[string]string
	JArr   [1]string
	// text methods
	TV   struct{ P string }
	TP   struct{ P string }
	TStr string
	TInt int
	TKey struct{ A, B string }
	// both
	JT struct{ P string }
	// njson's own, and what encoding/json is given
	AV    struct{ P string }
	AVt   struct{ P string }
	AP    struct{ P string }
	APt   struct{ P string }
	AStr  string
	AStrt string
	AInt  uint32
	AIntt uint32
	AAll  struct{ P string } // all three kinds of methods
	AAllt struct{ P string }
	AMix  struct{ P string } // pointer AppendJSON, value MarshalText
	AMixt struct{ P string }
	Nest  struct{ P []string } // calls the library from its methods
	Nestt struct{ P []string }
	EmbJ  struct { // promoted methods
		JVal
		X int
	}
	EmbJPtr struct {
		*JP
		X int
	}
)

func (v JVal) MarshalJSON() ([]byte, error)   { return marshalBody("jv", v.P) }
func (v *JVal) UnmarshalJSON(b []byte) error  { return unmarshalBody(&v.P, b) }
func (v *JP) MarshalJSON() ([]byte, error)    { return marshalBody("jp", v.P) }
func (v *JP) UnmarshalJSON(b []byte) error    { return unmarshalBody(&v.P, b) }
func (v JStr) MarshalJSON() ([]byte, error)   { return marshalBody("js", string(v)) }
func (v *JStr) UnmarshalJSON(b []byte) error  { return unmarshalBody((*string)(v), b) }
func (v *JInt) MarshalJSON() ([]byte, error)  { return []byte(`"#` + strconv.Itoa(int(*v)) + `"`), nil }
func (v *JInt) UnmarshalJSON(b []byte) error  { *v = JInt(len(compacted(b))); return nil }
func (v JSlice) MarshalJSON() ([]byte, error) { return marshalBody("jl", strings.Join(v, ",")) }
func (v *JSlice) UnmarshalJSON(b []byte) error {
	var s string
	err := unmarshalBody(&s, b)
	*v = append(*v, s)
	return err
}
func (v JMap) MarshalJSON() ([]byte, error) { return marshalBody("jm", v["k"]) }
func (v *JMap) UnmarshalJSON(b []byte) error {
	var s string
	err := unmarshalBody(&s, b)
	*v = JMap{"k": s}
	return err
}
func (v *JArr) MarshalJSON() ([]byte, error) { return marshalBody("ja", v[0]) }
func (v *JArr) UnmarshalJSON(b []byte) error { return unmarshalBody(&v[0], b) }

func (v TV) MarshalText() ([]byte, error)    { return textBody("tv", v.P) }
func (v *TV) UnmarshalText(b []byte) error   { return untextBody(&v.P, b) }
func (v *TP) MarshalText() ([]byte, error)   { return textBody("tp", v.P) }
func (v *TP) UnmarshalText(b []byte) error   { return untextBody(&v.P, b) }
func (v TStr) MarshalText() ([]byte, error)  { return textBody("ts", string(v)) }
func (v *TStr) UnmarshalText(b []byte) error { return untextBody((*string)(v), b) }
func (v TInt) MarshalText() ([]byte, error)  { return []byte("\"" + strconv.Itoa(int(v)) + "\\<"), nil }
func (v *TInt) UnmarshalText(b []byte) error {
	*v = TInt(len(b)) + 1000*TInt(len(bytes.TrimLeft(b, "ab\"\\")))
	return nil
}
func (v TKey) MarshalText() ([]byte, error) { return textBody("tk", v.A+"|"+v.B) }
func (v *TKey) UnmarshalText(b []byte) error {
	if len(b) > 0 {
		v.B = string(b[len(b)-1:])
	}
	return untextBody(&v.A, b)
}
func (v JT) MarshalJSON() ([]byte, error)  { return marshalBody("jt", v.P) }
func (v *JT) UnmarshalJSON(b []byte) error { return unmarshalBody(&v.P, b) }
func (v JT) MarshalText() ([]byte, error)  { return textBody("WRONG", v.P) }
func (v *JT) UnmarshalText([]byte) error   { v.P = "WRONG"; return nil }

func appendBody(b []byte, tag, p string) ([]byte, error) {
	body, err := marshalBody(tag, p)
	return append(b, body...), err
}

func (v AV) AppendJSON(b []byte) ([]byte, error)     { return appendBody(b, "av", v.P) }
func (v *AV) UnmarshalNodeJSON(n njson.Node) error   { return unmarshalNode(&v.P, n) }
func (v AVt) MarshalJSON() ([]byte, error)           { return marshalBody("av", v.P) }
func (v *AVt) UnmarshalJSON(b []byte) error          { return unmarshalBody(&v.P, b) }
func (v *AP) AppendJSON(b []byte) ([]byte, error)    { return appendBody(b, "ap", v.P) }
func (v *AP) UnmarshalNodeJSON(n njson.Node) error   { return unmarshalNode(&v.P, n) }
func (v *APt) MarshalJSON() ([]byte, error)          { return marshalBody("ap", v.P) }
func (v *APt) UnmarshalJSON(b []byte) error          { return unmarshalBody(&v.P, b) }
func (v AStr) AppendJSON(b []byte) ([]byte, error)   { return appendBody(b, "as", string(v)) }
func (v *AStr) UnmarshalNodeJSON(n njson.Node) error { return unmarshalNode((*string)(v), n) }
func (v AStrt) MarshalJSON() ([]byte, error)         { return marshalBody("as", string(v)) }
func (v *AStrt) UnmarshalJSON(b []byte) error        { return unmarshalBody((*string)(v), b) }
func (v *AInt) AppendJSON(b []byte) ([]byte, error) {
	return append(b, `["`+strconv.Itoa(int(*v))+`"]`...), nil
}
func (v *AInt) UnmarshalNodeJSON(n njson.Node) error {
	b, err := n.AppendJSON(nil)
	*v = AInt(len(b))
	return err
}
func (v *AIntt) MarshalJSON() ([]byte, error) {
	return []byte(`["` + strconv.Itoa(int(*v)) + `"]`), nil
}
func (v *AIntt) UnmarshalJSON(b []byte) error        { *v = AIntt(len(compacted(b))); return nil }
func (v AAll) AppendJSON(b []byte) ([]byte, error)   { return appendBody(b, "aa", v.P) }
func (v *AAll) UnmarshalNodeJSON(n njson.Node) error { return unmarshalNode(&v.P, n) }
func (v AAll) MarshalJSON() ([]byte, error)          { return marshalBody("WRONG", v.P) }
func (v *AAll) UnmarshalJSON(b []byte) error         { v.P = "WRONG"; return nil }
func (v AAll) MarshalText() ([]byte, error)          { return textBody("WRONG", v.P) }
func (v *AAll) UnmarshalText(b []byte) error         { v.P = "WRONG"; return nil }
func (v AAllt) MarshalJSON() ([]byte, error)         { return marshalBody("aa", v.P) }
func (v *AAllt) UnmarshalJSON(b []byte) error        { return unmarshalBody(&v.P, b) }
func (v *AMix) AppendJSON(b []byte) ([]byte, error)  { return appendBody(b, "am", v.P) }
func (v AMix) MarshalText() ([]byte, error)          { return textBody("am", v.P) }
func (v *AMix) UnmarshalJSON(b []byte) error         { return unmarshalBody(&v.P, b) }
func (v *AMix) UnmarshalText(b []byte) error         { v.P = "WRONG"; return nil }
func (v *AMixt) MarshalJSON() ([]byte, error)        { return marshalBody("am", v.P) }
func (v AMixt) MarshalText() ([]byte, error)         { return textBody("am", v.P) }
func (v *AMixt) UnmarshalJSON(b []byte) error        { return unmarshalBody(&v.P, b) }

type nestBody struct {
	L []string `json:"l"`
	N *nestBody
}

func (v Nest) MarshalJSON() ([]byte, error) {
	return unjson.Marshal(nestBody{append([]string{}, v.P...), &nestBody{L: []string{}}})
}
func (v *Nest) UnmarshalJSON(b []byte) error {
	var x interface{}
	if err := unjson.Unmarshal(b, &x); err != nil {
		return err
	}
	out, err := json.Marshal(x)
	v.P = append(v.P, string(out))
	return err
}
func (v Nestt) MarshalJSON() ([]byte, error) {
	return json.Marshal(nestBody{append([]string{}, v.P...), &nestBody{L: []string{}}})
}
func (v *Nestt) UnmarshalJSON(b []byte) error {
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	out, err := json.Marshal(x)
	v.P = append(v.P, string(out))
	return err
}

// DecKey can be read from the key of an object but not written as one.
type DecKey struct{ S string }

func (k *DecKey) UnmarshalText(b []byte) error { k.S = string(b); return nil }

// Types that have no JSON of their own, only methods on their pointers: a value without an address
// cannot be encoded.
type (
	PChan chan int
	PFunc func()
	PCplx complex128
	JCplx complex128
	JUptr uintptr
)

func (c JCplx) MarshalJSON() ([]byte, error)  { return json.Marshal([]float64{real(c)}) }
func (c *JCplx) UnmarshalJSON(b []byte) error { return nil }
func (u JUptr) MarshalText() ([]byte, error)  { return []byte(strconv.Itoa(int(u))), nil }
func (u *JUptr) UnmarshalText(b []byte) error { return nil }

func (*PChan) MarshalJSON() ([]byte, error) { return []byte(`{"chan":1}`), nil }
func (*PFunc) MarshalText() ([]byte, error) { return []byte("func<"), nil }
func (*PCplx) MarshalJSON() ([]byte, error) { return []byte(`[1,2]`), nil }

func (*PChan) UnmarshalJSON([]byte) error { return nil }
func (*PFunc) UnmarshalText([]byte) error { return nil }
func (*PCplx) UnmarshalJSON([]byte) error { return nil }

// AddrKey can be written as a key only if it has an address, which keys do not.
type AddrKey struct{ S string }

func (k *AddrKey) MarshalText() ([]byte, error) { return []byte(k.S), nil }

// EncKey can be written as the key of an object but not read from one.
type EncKey struct{ S string }

func (k EncKey) MarshalText() ([]byte, error) { return []byte(k.S), nil }

// IfaceX is an interface without any method for JSON.
type IfaceX interface{ Close() error }

// ---- types with omit methods ----

type (
	OV   struct{ N int } // omits 3
	OP   struct{ N int } // omits 3, pointer receiver
	OStr string          // omits "omit"
	OInt int             // never omits
	OBad struct{ N int } // a method of the name with another signature
	OArg struct{ N int } // another
	ORes struct{ N int } // another
	OVar struct{ N int } // another
	OTwo struct{ N int } // Omit and Skip disagree
	OMap map[string]int  // omits maps with a key "omit"
	OSl  []string        // Omit: one element, Skip: two
	OArr [2]int8         // Skip: first element zero
	OJ   struct{ N int } // what an IfaceO holds

	// IfaceO is an interface with omit methods.
	IfaceO interface {
		json.Marshaler
		json.Unmarshaler
		Omit() bool
		Skip() bool
	}
)

func (v *OJ) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(v.N)), nil }
func (v *OJ) UnmarshalJSON(b []byte) error { return json.Unmarshal(b, &v.N) }
func (v *OJ) Omit() bool                   { return v.N%2 == 0 }
func (v *OJ) Skip() bool                   { return v.N%3 == 0 }

func (v OV) Omit() bool            { return v.N == 3 }
func (v *OP) Omit() bool           { return v == nil || v.N == 3 }
func (v OStr) Omit() bool          { return v == "omit" }
func (v OInt) Omit() bool          { return false }
func (v OBad) Omit() int           { return 1 }
func (v OArg) Omit(int) bool       { return v.N == 1 }
func (v ORes) Omit() (bool, error) { return v.N == 1, nil }
func (v *OVar) Omit(...int) bool   { return true }
func (v *OVar) Skip() (a, b bool)  { return true, true }
func (v OTwo) Omit() bool          { return v.N == 1 }
func (v OTwo) Skip() bool          { return v.N == 2 }
func (v OSl) Omit() bool           { return len(v) == 1 }
func (v OSl) Skip() bool           { return len(v) == 2 }
func (v OArr) Skip() bool          { return v[0] == 0 }
func (v OMap) Omit() bool          { _, ok := v["omit"]; return ok }

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

func lib[T any](name, cats string) { library[name] = &libType{typ: typeOf[T](), cats: cats} }
func libTwin[T, U any](name, cats string) {
	library[name] = &libType{typ: typeOf[T](), twin: typeOf[U](), cats: cats}
}

func init() {
	lib[NInt]("NInt", "plain simple round tags")
	lib[NUint]("NUint", "plain simple round tags")
	lib[NStr]("NStr", "plain simple round tags")
	lib[NFloat]("NFloat", "plain simple round tags")
	lib[NBool]("NBool", "plain simple round tags")
	lib[NSlice]("NSlice", "plain simple round tags")
	lib[NArr]("NArr", "plain simple round")
	lib[NMap]("NMap", "plain round")
	lib[SliceRec]("SliceRec", "plain simple round")
	lib[MapRec]("MapRec", "plain round")
	lib[Tree]("Tree", "plain round")
	lib[List]("List", "plain round")
	lib[Mutual1]("Mutual1", "plain round")
	lib[Mutual2]("Mutual2", "plain round")
	lib[Base]("Base", "plain round")
	lib[WithBase]("WithBase", "plain round")
	lib[WithPtrBase]("WithPtrBase", "plain")
	lib[Unexp]("Unexp", "plain")
	lib[Unexp2]("Unexp2", "plain")
	lib[UnexpPtr]("UnexpPtr", "plain")
	lib[Deep3]("Deep3", "plain")
	lib[RecEmb]("RecEmb", "plain")
	lib[EmbScalar]("EmbScalar", "plain round")
	lib[EmbNamed]("EmbNamed", "plain")
	lib[EmbIface]("EmbIface", "plain")
	lib[Empty]("Empty", "plain round")
	lib[Skips]("Skips", "plain")
	libTwin[NBytes, []uint16]("NBytes", "bytes round simple")
	libTwin[NByteS, []uint16]("NByteS", "bytes round simple")

	lib[JVal]("JVal", "method json")
	lib[JP]("JP", "method json")
	lib[JStr]("JStr", "method json")
	lib[JInt]("JInt", "method json")
	lib[JSlice]("JSlice", "method json")
	lib[JMap]("JMap", "method json")
	lib[JArr]("JArr", "method json")
	lib[TV]("TV", "method text")
	lib[TP]("TP", "method text")
	lib[TStr]("TStr", "method text")
	lib[TInt]("TInt", "method text")
	lib[TKey]("TKey", "method text")
	lib[JT]("JT", "method json")
	libTwin[AV, AVt]("AV", "method node")
	libTwin[AP, APt]("AP", "method node")
	libTwin[AStr, AStrt]("AStr", "method node")
	libTwin[AInt, AIntt]("AInt", "method node")
	libTwin[AAll, AAllt]("AAll", "method node")
	libTwin[AMix, AMixt]("AMix", "method node")
	libTwin[Nest, Nestt]("Nest", "method json")
	lib[EmbJ]("EmbJ", "method json")
	lib[time.Time]("Time", "method std")
	lib[*big.Int]("BigInt", "method std")
	lib[net.IP]("IP", "method std")
	lib[json.RawMessage]("Raw", "method std")
	lib[json.Marshaler]("IfaceJM", "ifaces")
	lib[encoding.TextMarshaler]("IfaceTM", "ifaces")

	lib[OV]("OV", "omitter")
	lib[OP]("OP", "omitter")
	lib[OStr]("OStr", "omitter")
	lib[OInt]("OInt", "omitter")
	lib[OBad]("OBad", "omitter")
	lib[OArg]("OArg", "omitter")
	lib[ORes]("ORes", "omitter")
	lib[OVar]("OVar", "omitter")
	lib[OTwo]("OTwo", "omitter")
	lib[OMap]("OMap", "omitter")
	lib[OSl]("OSl", "omitter")
	lib[OArr]("OArr", "omitter")
	lib[IfaceO]("IfaceO", "omitter")
	lib[OJ]("OJ", "")
	lib[DecKey]("DecKey", "")
	lib[PChan]("PChan", "badkind")
	lib[PFunc]("PFunc", "badkind")
	lib[PCplx]("PCplx", "badkind")
	lib[JCplx]("JCplx", "badkind")
	lib[JUptr]("JUptr", "badkind")
	lib[AddrKey]("AddrKey", "")
	lib[EncKey]("EncKey", "")
	lib[IfaceX]("IfaceX", "")

	customs[typeOf[time.Time]()] = &custom{
		gen: func(g G) VSpec {
			return VSpec{S: Q(pick(g, "2018-10-25T23:25:22Z", "0001-01-01T00:00:00Z", "2020-02-29T12:00:00.123456789+05:30", "1999-12-31T23:59:59-08:00", "9999-12-31T23:59:59.9Z"))}
		},
		build: func(v VSpec, dst reflect.Value) {
			if v.S == "" {
				return
			}
			t, err := time.Parse(time.RFC3339Nano, string(v.S))
			if err != nil {
				panic(harnessBug{err})
			}
			dst.Set(reflect.ValueOf(t))
		},
		dump: func(v reflect.Value) string { return v.Interface().(time.Time).Format(time.RFC3339Nano) },
		doc: func(g G) string {
			return `"` + pick(g, "2018-10-25T23:25:22Z", "0001-01-01T00:00:00Z", "2020-02-29T12:00:00.123456789+05:30", "1999-12-31T23:59:59-08:00") + `"`
		},
	}
	customs[typeOf[*big.Int]()] = &custom{
		gen: func(g G) VSpec {
			return VSpec{S: Q(pick(g, "", "0", "-1", "12345678901234567890123456789", "-340282366920938463463374607431768211456", "42"))}
		},
		build: func(v VSpec, dst reflect.Value) {
			if v.S == "" {
				return
			}
			i, ok := new(big.Int).SetString(string(v.S), 10)
			if !ok {
				panic(harnessBug{errors.New("big.Int " + string(v.S))})
			}
			dst.Set(reflect.ValueOf(i))
		},
		dump: func(v reflect.Value) string { return v.Interface().(*big.Int).String() },
		doc: func(g G) string {
			return pick(g, "null", "0", "-1", "12345678901234567890123456789", "-340282366920938463463374607431768211456", "42")
		},
	}
	customs[typeOf[net.IP]()] = &custom{
		gen: func(g G) VSpec { return VSpec{S: Q(pick(g, "", "127.0.0.1", "::1", "fe80::1", "255.255.255.255"))} },
		build: func(v VSpec, dst reflect.Value) {
			if v.S != "" {
				dst.Set(reflect.ValueOf(net.ParseIP(string(v.S))))
			}
		},
		dump: func(v reflect.Value) string { return v.Interface().(net.IP).String() },
		doc:  func(g G) string { return `"` + pick(g, "", "127.0.0.1", "::1", "fe80::1", "255.255.255.255") + `"` },
	}
	customs[typeOf[json.RawMessage]()] = &custom{
		gen: func(g G) VSpec {
			if g.p(1, 5) {
				return VSpec{}
			}
			return VSpec{S: Q(g.anyDoc(docOpts{depth: 2, maxKids: 3, strPcs: 3, finite: true}, 2))}
		},
		build: func(v VSpec, dst reflect.Value) {
			if v.S != "" {
				dst.SetBytes([]byte(v.S))
			}
		},
		dump: func(v reflect.Value) string {
			r := v.Interface().(json.RawMessage)
			if r == nil {
				return "nil"
			}
			return compacted(r)
		},
		doc: func(g G) string { return g.anyDoc(simpleDoc, 2) },
	}
}
