package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/numjson"
	"github.com/alxarch/njson/strjson"
	"github.com/alxarch/njson/unjson"
	"pgregory.net/rapid"
)

// StreamCase is a stream of lines read in chunks.
type StreamCase struct {
	T      TSpec  `json:"t"`
	Lines  []Line `json:"lines"`
	Chunks []int  `json:"chunks,omitempty"` // sizes of the reads, repeated
	Buf    int    `json:"buf,omitempty"`    // size of a bufio.Reader, 0: none
	Last   bool   `json:"last,omitempty"`   // newline after the last line
	EOF    bool   `json:"eof,omitempty"`    // io.EOF together with the last bytes
	Err    bool   `json:"err,omitempty"`    // the reader fails instead of io.EOF
	Kind   int    `json:"kind,omitempty"`   // which error
	Typed  bool   `json:"typed,omitempty"`  // with a Decoder of the type
}

// Line is a value written by LineEncoder, or a broken line.
type Line struct {
	V    VSpec `json:"v"`
	Pad  int   `json:"pad,omitempty"`  // spaces after the value
	CRLF bool  `json:"crlf,omitempty"` // line ends in CR LF
	Bad  Q     `json:"bad,omitempty"`  // not JSON, instead of the value
}

// Errors of readers and writers, some with a meaning elsewhere.
var (
	readErrors  = []error{errors.New("read failed"), io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, njson.UnexpectedEOF(njson.TypeArray)}
	writeErrors = []error{errors.New("write failed"), io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe}
)

type chunkReader struct {
	data   string
	chunks []int
	i      int
	eof    bool
	err    error
	zero   bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.data == "" {
		return 0, r.err
	}
	n := len(p)
	if len(r.chunks) > 0 {
		n = r.chunks[r.i%len(r.chunks)]
		r.i++
		if n == 0 && r.zero { // never twice in a row
			n = 1
		}
		r.zero = n == 0
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if r.data == "" && r.eof {
		return n, r.err
	}
	return n, nil
}

func checkStream(c StreamCase, r *Rec) error {
	t := c.T.typ(false)
	var text, w bytes.Buffer
	le := unjson.NewLineEncoder(&w)
	var wants []string
	var made []reflect.Value
	good := 0
	for i, l := range c.Lines {
		line := string(l.Bad)
		if l.Bad == "" {
			v := build(t, l.V, false)
			w.Reset()
			if err := le.Encode(v.Interface()); err != nil {
				return errf("LineEncoder.Encode: %v", err)
			}
			line = w.String()
			if !strings.HasSuffix(line, "\n") || strings.Count(line, "\n") != 1 || !json.Valid([]byte(line)) {
				return errf("LineEncoder wrote %q, not one line of JSON", line)
			}
			direct, err := unjson.Marshal(v.Interface())
			if err != nil {
				return errf("Marshal: %v", err)
			}
			if err := sameOutput([]byte(line), direct, !manyKeys(v)); err != nil {
				return errf("LineEncoder wrote %q, Marshal gives %q: %v", line, direct, err)
			}
			line = strings.TrimSuffix(line, "\n") + strings.Repeat(" ", l.Pad)
			if got := dumpNorm(build(t, l.V, false)); got != dumpNorm(v) {
				return errf("LineEncoder changed the value: %s", diff(dumpNorm(v), got))
			}
			made = append(made, v)
			wants = append(wants, dumpNorm(v))
			good++
		} else {
			wants = append(wants, "")
			made = append(made, reflect.Value{})
		}
		text.WriteString(line)
		if i < len(c.Lines)-1 || c.Last {
			if l.CRLF {
				text.WriteByte('\r')
			}
			text.WriteByte('\n')
		}
	}
	for i, v := range made {
		if v.IsValid() && dumpNorm(v) != wants[i] {
			return errf("LineEncoder changed a value written before: %s", diff(dumpNorm(v), wants[i]))
		}
	}
	r.NonTrivial(good > 1)
	r.Label(good != len(c.Lines), "broken line")
	r.Label(c.Err, "failing reader")
	r.Label(!c.Last, "no final newline")
	r.Label(text.Len() > 4096, "longer than the default buffer")

	end := io.EOF
	if c.Err {
		end = readErrors[c.Kind]
	}
	var rd io.Reader = &chunkReader{data: text.String(), chunks: c.Chunks, eof: c.EOF, err: end}
	if c.Buf > 0 {
		rd = bufio.NewReaderSize(rd, c.Buf)
	}
	ld := unjson.NewLineDecoder(rd)
	if c.Typed && t.Kind() != reflect.Interface {
		dec, err := unjson.NewTypeDecoder(reflect.PtrTo(t), "")
		if err != nil {
			return errf("NewTypeDecoder: %v", err)
		}
		ld.Decoder = dec
	}
	var got []reflect.Value
	check := func() error {
		k := 0
		for i, want := range wants {
			if i >= len(got) {
				break
			}
			if want != "" {
				if d := dumpNorm(got[k].Elem()); d != want {
					return errf("value %d: %s", i, diff(d, want))
				}
			}
			k++
		}
		return nil
	}
	for i, want := range wants {
		p := reflect.New(t)
		err := ld.Decode(p.Interface())
		if c.Err && i == len(wants)-1 && !c.Last {
			// the line may be incomplete: the error has to be reported
			if err == nil {
				return errf("line %d is cut by a read error, but no error is reported", i)
			}
			return check()
		}
		if want == "" {
			if err == nil {
				return errf("broken line %q: no error", string(c.Lines[i].Bad))
			}
			if err == io.EOF {
				return errf("broken line %q: io.EOF", string(c.Lines[i].Bad))
			}
		} else if err != nil {
			return errf("line %d of %d: %v", i, len(wants), err)
		}
		got = append(got, p)
	}
	for i := 0; i < 2; i++ {
		p := reflect.New(t)
		if err := ld.Decode(p.Interface()); !errors.Is(err, end) {
			return errf("after the last line: %v, want %v", err, end)
		}
	}
	return check()
}

// WriteCase is a sequence of values written to a failing writer.
type WriteCase struct {
	T     TSpec   `json:"t"`
	Vals  []VSpec `json:"vals"`
	Fail  []bool  `json:"fail"`            // which writes fail
	Size  int     `json:"size"`            // bytes written by a failing write
	Kind  int     `json:"kind,omitempty"`  // which error
	Typed bool    `json:"typed,omitempty"` // with an Encoder of the type
}

type failWriter struct {
	bytes.Buffer
	fail []bool
	i    int
	size int
	err  error
}

func (w *failWriter) Write(p []byte) (int, error) {
	f := w.i < len(w.fail) && w.fail[w.i]
	w.i++
	if f {
		n := w.size
		if n > len(p) {
			n = len(p)
		}
		return n, w.err
	}
	n, err := w.Buffer.Write(p)
	for i := range p { // the buffer is only valid during the call
		_ = p[i]
	}
	return n, err
}

func checkWrites(c WriteCase, r *Rec) error {
	t := c.T.typ(false)
	w := &failWriter{fail: c.Fail, size: c.Size, err: writeErrors[c.Kind]}
	le := unjson.NewLineEncoder(w)
	if c.Typed && t.Kind() != reflect.Interface {
		enc, err := unjson.NewTypeEncoder(t, unjson.DefaultOptions())
		if err != nil {
			return errf("NewTypeEncoder: %v", err)
		}
		le.Encoder = enc
	}
	var want []string
	bad := 0
	for i, vs := range c.Vals {
		v := build(t, vs, false)
		wi := w.i
		err := le.Encode(v.Interface())
		if _, werr := jsonMarshal(v.Interface()); werr != nil {
			r.Label(true, "unencodable value")
			if err == nil {
				return errf("value %d cannot be encoded (%v), but no error is reported", i, werr)
			}
			if w.i != wi {
				return errf("value %d cannot be encoded, but something was written", i)
			}
			continue
		}
		if wi < len(c.Fail) && c.Fail[wi] {
			bad++
			if !errors.Is(err, w.err) {
				return errf("value %d: error of the writer became %v", i, err)
			}
			continue
		}
		if err != nil {
			return errf("value %d: %v", i, err)
		}
		if w.i != wi+1 {
			return errf("value %d took %d writes", i, w.i-wi)
		}
		want = append(want, dumpNorm(v))
	}
	r.NonTrivial(len(want) > 0 && bad > 0)
	lines := strings.SplitAfter(w.String(), "\n")
	if lines[len(lines)-1] != "" || len(lines)-1 != len(want) {
		return errf("%d values gave %q", len(want), w.String())
	}
	for i, d := range want {
		p := reflect.New(t)
		if err := unjson.UnmarshalFromString(lines[i], p.Interface()); err != nil {
			return errf("line %d %q: %v", i, lines[i], err)
		}
		if got := dumpNorm(p.Elem()); got != d {
			return errf("line %d: %s", i, diff(got, d))
		}
	}
	return nil
}

func (g G) streamTypes() typeOpts {
	return typeOpts{cat: "round", libProb: 2, bytes: true, ptrs: true, maps: true, ifaces: true, structs: true, tagKey: "json"}
}

// ---- C26 ----

// AppCase is a document and a value appended to a destination.
type AppCase struct {
	Doc    Q     `json:"doc"`
	T      TSpec `json:"t"`
	V      VSpec `json:"v"`
	S      Q     `json:"s"`
	F      uint64
	Prefix Q   `json:"prefix"`
	Spare  int `json:"spare"`
	Before int `json:"before"` // bytes of the array before the destination
}

// appendsTo calls f with a destination inside a larger array and checks everything around it.
func (c *AppCase) appendsTo(what string, f func(dst []byte) ([]byte, error)) error {
	want, err := f(nil)
	if err != nil {
		return errf("%s: %v", what, err)
	}
	want = append([]byte(nil), want...)
	const guard = 0xA5
	array := bytes.Repeat([]byte{guard}, c.Before+len(c.Prefix)+c.Spare+16)
	lo := c.Before
	hi := lo + len(c.Prefix)
	copy(array[lo:], c.Prefix)
	dst := array[lo : hi : hi+c.Spare]
	got, err := f(dst)
	if err != nil {
		return errf("%s with a destination: %v", what, err)
	}
	if string(got) != string(c.Prefix)+string(want) {
		return errf("%s with %d bytes and %d spare: %q, want %q then %q", what, len(c.Prefix), c.Spare, got, string(c.Prefix), want)
	}
	if string(array[lo:hi]) != string(c.Prefix) {
		return errf("%s changed the bytes of the destination to %q", what, array[lo:hi])
	}
	for i, b := range array {
		if (i < lo || i >= hi+c.Spare) && b != guard {
			return errf("%s wrote outside of the destination at %d", what, i-lo)
		}
	}
	// the result of the call without destination is not shared
	again, err := f(nil)
	if err != nil || string(again) != string(want) {
		return errf("%s again: %q, %v, want %q", what, again, err, want)
	}
	for i := range again {
		again[i] = '!'
	}
	third, err := f(make([]byte, 0, len(want)/2))
	if err != nil || string(third) != string(want) {
		return errf("%s a third time: %q, %v, want %q", what, third, err, want)
	}
	return nil
}

func checkAppends(c AppCase, r *Rec) error {
	d := njson.Document{}
	n, _, err := d.Parse(string(c.Doc))
	if err != nil {
		panic(harnessBug{err})
	}
	r.NonTrivial(len(c.Prefix) > 0)
	r.Label(c.Spare > 0, "spare capacity")
	if err := c.appendsTo("Node.AppendJSON", n.AppendJSON); err != nil {
		return err
	}
	if err := c.appendsTo("Document.AppendJSON", d.AppendJSON); err != nil {
		return err
	}
	it := n.Values()
	for i := 0; it.Next() && i < 3; i++ {
		if err := c.appendsTo("AppendJSON of an inner node", it.Value().AppendJSON); err != nil {
			return err
		}
	}
	v := build(c.T.typ(false), c.V, false)
	x := v.Interface()
	if err := c.appendsTo("unjson.AppendJSON", func(b []byte) ([]byte, error) { return unjson.AppendJSON(b, x) }); err != nil {
		return err
	}
	if x != nil {
		enc, err := unjson.NewTypeEncoder(reflect.TypeOf(x), unjson.DefaultOptions())
		if err != nil {
			return errf("NewTypeEncoder: %v", err)
		}
		if err := c.appendsTo("Encoder.Encode", func(b []byte) ([]byte, error) { return enc.Encode(b, x) }); err != nil {
			return err
		}
	}
	for _, html := range []bool{false, true} {
		if err := c.appendsTo("AppendEscaped", func(b []byte) ([]byte, error) { return strjson.AppendEscaped(b, string(c.S), html), nil }); err != nil {
			return err
		}
	}
	if err := c.appendsTo("AppendUnescaped", func(b []byte) ([]byte, error) { return strjson.AppendUnescaped(b, string(c.S)), nil }); err != nil {
		return err
	}
	f := floatOfBits(c.F)
	for _, bits := range []int{32, 64} {
		if bits == 32 && float32(f)-float32(f) != 0 {
			continue
		}
		if err := c.appendsTo("AppendFloat", func(b []byte) ([]byte, error) { return numjson.AppendFloat(b, f, bits), nil }); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	bad := []string{"{", "[1,", `"abc`, "{} {}", "1 2", "nul", "]", `{"a":}`, "tru", "x", `{"a":1}}`, "[1]x", `"a" "b"`, "[1 2]", `{"a" 1}`, `{"a":1,}`, " ", "\t\t", "1\x00", "{}\x00", "[]\x01", "null!", "true,", "1;", "{}]", "\"\"\x1f", "[]\ufeff", "\ufeff1", "1\u00a0"}
	reg("C23", "read", "at least two values", 20000, 400000, func(t *rapid.T) StreamCase {
		g := G{t}
		o := g.streamTypes()
		c := StreamCase{T: g.typ(o, g.rng(0, 2)), Last: !g.p(1, 3), EOF: g.p(1, 2), Err: g.p(1, 6), Typed: g.p(1, 2), Kind: g.n(5)}
		if g.p(1, 4) {
			c.T = TSpec{K: "string"}
		}
		for i := g.size(5); i > 0; i-- {
			c.Chunks = append(c.Chunks, pick(g, 1, 1, 2, 3, 5, 7, 15, 16, 17, 100, 0))
		}
		if len(c.Chunks) > 0 && c.Chunks[len(c.Chunks)-1] == 0 {
			c.Chunks = append(c.Chunks, 1)
		}
		if g.p(1, 2) {
			c.Buf = pick(g, 1, 16, 17, 32, 64, 4096)
		}
		rt := c.T.typ(false)
		for i := g.size(6); i > 0; i-- {
			l := Line{CRLF: g.p(1, 4)}
			if g.p(1, 8) {
				l.Pad = g.n(40)
			}
			if g.p(1, 10) {
				l.Bad = Q(pickS(g, bad))
			} else {
				l.V = g.val(rt, valOpts{validUTF8: true, generic: true}, 4)
				if c.T.K == "string" && g.p(1, 3) { // lines around the sizes of buffers
					l.V.S = Q(strings.Repeat("x", pick(g, 16, 32, 64, 4096, 8192, 4096, 8192, 16384, 32768, 65536)-pick(g, 0, 1, 2, 3, 4, 5, -9, -100)))
				}
			}
			c.Lines = append(c.Lines, l)
		}
		if n := len(c.Lines); n > 0 && !c.Last && strings.TrimSpace(string(c.Lines[n-1].Bad)) == "" && c.Lines[n-1].Bad != "" {
			c.Lines[n-1].Bad = "x"
		}
		return c
	}, checkStream)
	reg("C23", "write", "some writes succeed and some fail", 5000, 100000, func(t *rapid.T) WriteCase {
		g := G{t}
		c := WriteCase{T: g.typ(g.streamTypes(), g.rng(0, 2)), Size: g.n(5), Typed: g.p(1, 2), Kind: g.n(5)}
		if g.p(1, 4) {
			c.T = TSpec{K: "struct", F: []FSpec{{Name: "A", T: TSpec{K: "string"}}, {Name: "F", T: TSpec{K: pick(g, "float64", "float32")}}, {Name: "B", T: TSpec{K: "string"}}}}
		}
		rt := c.T.typ(false)
		bad := g.p(1, 2)
		for i := 1 + g.size(6); i > 0; i-- {
			c.Vals = append(c.Vals, g.val(rt, valOpts{validUTF8: true, generic: true, nonFinite: bad}, 4))
			c.Fail = append(c.Fail, g.p(1, 4))
		}
		return c
	}, checkWrites)

	reg("C26", "append", "the destination is not empty", 20000, 600000, func(t *rapid.T) AppCase {
		g := G{t}
		o := plainTypes()
		c := AppCase{Doc: Q(g.docText(docOpts{depth: 3, maxKids: 4})), T: g.typ(o, g.rng(0, 3)), S: Q(g.anyText())}
		c.V = g.val(c.T.typ(false), valOpts{oneKey: true}, 5)
		f := g.float64()
		c.F = bitsOfFloat(f)
		c.Prefix = Q(g.rawBytes(pick(g, 0, 4, 40)))
		if g.p(1, 12) {
			c.Prefix = Q(strings.Repeat(pick(g, "p", "\\", "é"), g.near(6000)))
		}
		c.Spare = pick(g, 0, 0, 1, 2, 3, 5, 8, 17, 64, 300, 5000)
		c.Before = g.n(8)
		return c
	}, checkAppends)
}

func floatOfBits(u uint64) float64 { return math.Float64frombits(u) }
func bitsOfFloat(f float64) uint64 { return math.Float64bits(f) }
