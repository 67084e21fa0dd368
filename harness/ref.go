package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"
)

// decodeBody decodes the raw body of a valid JSON string with encoding/json.
func decodeBody(raw string) string {
	var s string
	if err := json.Unmarshal([]byte(`"`+raw+`"`), &s); err != nil {
		panic(harnessBug{fmt.Errorf("decodeBody(%q): %v", raw, err)})
	}
	return s
}

func exactMid(a, b float64) string {
	x := new(big.Float).SetPrec(2000).SetFloat64(a)
	y := new(big.Float).SetPrec(2000).SetFloat64(b)
	x.Add(x, y)
	x.Quo(x, big.NewFloat(2))
	s := x.Text('f', 1100)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(s, "0")
		s = strings.TrimSuffix(s, ".")
	}
	return s
}

// JV is a reference parse tree with spellings and offsets.
type JV struct {
	K          byte // n t f # s [ {
	Raw        string
	Keys       []string // raw spellings
	A          []*JV
	Start, End int
}

type refStatus int

const (
	refOK refStatus = iota
	refEOF
	refBad
)

// refParser is an independent recogniser of JSON's structure. lax is set when
// a scalar's inner spelling is not JSON (which njson does not check while
// parsing), from then on the verdict is not comparable.
type refParser struct {
	s      string
	lax    bool
	status refStatus
	// offending token [pos,hi] when status is refBad
	pos, hi  int
	openTail bool // refEOF: more input could complete the text
	depth    int
}

func refIsWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (p *refParser) ws(i int) int {
	for i < len(p.s) && refIsWS(p.s[i]) {
		i++
	}
	return i
}

func (p *refParser) eof() *JV         { p.status = refEOF; p.openTail = true; return nil }
func (p *refParser) bad(i, h int) *JV { p.status = refBad; p.pos, p.hi = i, h; return nil }

// str scans a string body starting after the opening quote and returns the
// index of the closing quote or -1.
func (p *refParser) str(i int) int {
	start := i
	for i < len(p.s) {
		switch p.s[i] {
		case '"':
			if !validBody(p.s[start:i]) {
				p.lax = true
			}
			return i
		case '\\':
			i += 2
		default:
			i++
		}
	}
	return -1
}

func validBody(b string) bool {
	if strings.IndexByte(b, '\\') < 0 {
		for i := 0; i < len(b); i++ {
			if b[i] < 0x20 {
				return false
			}
		}
		return true
	}
	return json.Valid([]byte(`"` + b + `"`))
}

func validNumber(s string) bool {
	if s == "" || !(s[0] == '-' || s[0] >= '0' && s[0] <= '9') {
		return false
	}
	last := s[len(s)-1]
	return last >= '0' && last <= '9' && json.Valid([]byte(s))
}

func (p *refParser) value(i int) *JV {
	i = p.ws(i)
	if i >= len(p.s) {
		return p.eof()
	}
	lit := func(word string, k byte) *JV {
		for j := 0; j < len(word); j++ {
			if i+j >= len(p.s) {
				return p.eof()
			}
			if p.s[i+j] != word[j] {
				v := p.bad(i, i+j)
				return v
			}
		}
		return &JV{K: k, Raw: word, Start: i, End: i + len(word)}
	}
	switch c := p.s[i]; {
	case c == 'n':
		return lit("null", 'n')
	case c == 't':
		return lit("true", 't')
	case c == 'f':
		return lit("false", 'f')
	case c == '"':
		e := p.str(i + 1)
		if e < 0 {
			return p.eof()
		}
		return &JV{K: 's', Raw: p.s[i+1 : e], Start: i, End: e + 1}
	case c == '-' || c >= '0' && c <= '9':
		e := i
		for e < len(p.s) && !refIsWS(p.s[e]) && p.s[e] != ',' && p.s[e] != ']' && p.s[e] != '}' {
			e++
		}
		if !validNumber(p.s[i:e]) {
			p.lax = true
		}
		return &JV{K: '#', Raw: p.s[i:e], Start: i, End: e}
	case c == '[':
		v := &JV{K: '[', Start: i}
		j := p.ws(i + 1)
		if j >= len(p.s) {
			return p.eof()
		}
		if p.s[j] == ']' {
			v.End = j + 1
			return v
		}
		for {
			el := p.value(j)
			if el == nil {
				return nil
			}
			v.A = append(v.A, el)
			j = p.ws(el.End)
			if j >= len(p.s) {
				return p.eof()
			}
			if p.s[j] == ']' {
				v.End = j + 1
				return v
			}
			if p.s[j] != ',' {
				return p.bad(j, j)
			}
			j++
		}
	case c == '{':
		v := &JV{K: '{', Start: i}
		j := p.ws(i + 1)
		if j >= len(p.s) {
			return p.eof()
		}
		if p.s[j] == '}' {
			v.End = j + 1
			return v
		}
		for {
			j = p.ws(j)
			if j >= len(p.s) {
				return p.eof()
			}
			if p.s[j] != '"' {
				return p.bad(j, j)
			}
			e := p.str(j + 1)
			if e < 0 {
				return p.eof()
			}
			v.Keys = append(v.Keys, p.s[j+1:e])
			j = p.ws(e + 1)
			if j >= len(p.s) {
				return p.eof()
			}
			if p.s[j] != ':' {
				return p.bad(j, j)
			}
			el := p.value(j + 1)
			if el == nil {
				return nil
			}
			v.A = append(v.A, el)
			j = p.ws(el.End)
			if j >= len(p.s) {
				return p.eof()
			}
			if p.s[j] == '}' {
				v.End = j + 1
				return v
			}
			if p.s[j] != ',' {
				return p.bad(j, j)
			}
			j++
		}
	default:
		return p.bad(i, i)
	}
}

// mustRef parses a valid JSON text with the reference parser.
func mustRef(s string) *JV {
	p := &refParser{s: s}
	v := p.value(0)
	if v == nil || p.lax || strings.TrimSpace(s[v.End:]) != "" {
		panic(harnessBug{fmt.Errorf("reference parser rejects %.300q", s)})
	}
	return v
}

// compact serialises the tree without whitespace, with original spellings.
func (v *JV) compact(b *bytes.Buffer) {
	switch v.K {
	case 's':
		b.WriteByte('"')
		b.WriteString(v.Raw)
		b.WriteByte('"')
	case '[':
		b.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			x.compact(b)
		}
		b.WriteByte(']')
	case '{':
		b.WriteByte('{')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteByte('"')
			b.WriteString(v.Keys[i])
			b.WriteString(`":`)
			x.compact(b)
		}
		b.WriteByte('}')
	default:
		b.WriteString(v.Raw)
	}
}

func (v *JV) text() string {
	var b bytes.Buffer
	v.compact(&b)
	return b.String()
}

func (v *JV) walk(f func(*JV)) {
	f(v)
	for _, x := range v.A {
		x.walk(f)
	}
}

func (v *JV) depth() int {
	d := 0
	for _, x := range v.A {
		if n := x.depth(); n > d {
			d = n
		}
	}
	return d + 1
}

// compactJSON is encoding/json's view of "whitespace removed".
func compactJSON(s string) (string, error) {
	var b bytes.Buffer
	err := json.Compact(&b, []byte(s))
	return b.String(), err
}

func short(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-150:]
	}
	return s
}

func errf(format string, a ...interface{}) error {
	for i, x := range a {
		switch x := x.(type) {
		case string:
			a[i] = short(x)
		case []byte:
			a[i] = short(string(x))
		}
	}
	return fmt.Errorf(format, a...)
}

var errNilErr = errors.New("nil")

// sanitize replaces each invalid UTF-8 byte by U+FFFD, as encoding/json does.
func sanitize(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string([]rune(s))
}
