package main

import (
	"encoding/json"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/alxarch/njson/numjson"
	"github.com/alxarch/njson/strjson"
	"pgregory.net/rapid"
)

// buffer makes a destination with the given content and spare capacity.
func buffer(content string, spare int) []byte {
	b := make([]byte, len(content), len(content)+spare)
	copy(b, content)
	for i := range b[len(b):cap(b)] {
		b[len(b):cap(b)][i] = 0xA5
	}
	return b
}

// appends checks that f appended exactly want to a prefix; shared backing
// before the prefix must stay as it was too.
func appends(what, prefix string, spare int, want string, f func(dst []byte) ([]byte, error)) error {
	guard := "guard!"
	backing := buffer(guard+prefix, spare)
	dst := backing[len(guard):]
	got, err := f(dst)
	if err != nil {
		return errf("%s to a buffer holding %q: %v", what, prefix, err)
	}
	if string(got) != prefix+want {
		return errf("%s to a buffer holding %q (spare %d) gives %q, want %q", what, prefix, spare, string(got), prefix+want)
	}
	if string(backing[:len(guard)+len(prefix)]) != guard+prefix {
		return errf("%s changed the bytes already in the buffer: %q, had %q", what, string(backing), guard+prefix)
	}
	return nil
}

// checkEscaped checks both escaping functions on one string.
func checkEscaped(s string, html bool, prefix string, spare int) error {
	want := sanitize(s)
	body := strjson.Escaped(s, html, false)
	quoted := strjson.Escaped(s, html, true)
	if quoted != `"`+body+`"` {
		return errf("Escaped(%q) quoted %q, unquoted %q", s, quoted, body)
	}
	if !utf8.ValidString(body) {
		return errf("Escaped(%q) is not UTF-8: %q", s, body)
	}
	var back string
	if err := json.Unmarshal([]byte(quoted), &back); err != nil {
		return errf("Escaped(%q) = %q is not valid JSON: %v", s, quoted, err)
	}
	if back != want {
		return errf("Escaped(%q) = %q decodes to %q", s, quoted, back)
	}
	if u := strjson.Unescaped(body); u != want {
		return errf("Unescaped(Escaped(%q)) = %q", s, u)
	}
	for i := 0; i < len(body); i++ {
		if body[i] < 0x20 {
			return errf("Escaped(%q) holds the raw control character %#x", s, body[i])
		}
	}
	if strings.ContainsAny(body, "\u2028\u2029") {
		return errf("Escaped(%q) holds a raw line separator: %q", s, body)
	}
	if html {
		if strings.ContainsAny(body, "<>&") {
			return errf("Escaped(%q, HTML) = %q", s, body)
		}
	} else {
		for _, c := range []string{"<", ">", "&"} {
			if strings.Count(body, c) != strings.Count(s, c) {
				return errf("Escaped(%q, no HTML) = %q does not keep %s", s, body, c)
			}
		}
	}
	return appends("AppendEscaped("+strconv.Quote(short(s))+")", prefix, spare, body, func(dst []byte) ([]byte, error) {
		return strjson.AppendEscaped(dst, s, html), nil
	})
}

// refUnescape decodes any bytes: standard escapes are decoded, unpaired
// surrogates become U+FFFD, everything else is kept.
func refUnescape(s string) string {
	var b []byte
	hex := func(i int) (rune, bool) {
		if i+6 > len(s) || s[i] != '\\' || s[i+1] != 'u' {
			return 0, false
		}
		for _, c := range []byte(s[i+2 : i+6]) {
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
				return 0, false
			}
		}
		v, err := strconv.ParseUint(s[i+2:i+6], 16, 16)
		return rune(v), err == nil
	}
	for i := 0; i < len(s); {
		if s[i] != '\\' || i+1 == len(s) {
			b = append(b, s[i])
			i++
			continue
		}
		if r, ok := hex(i); ok {
			i += 6
			if utf16.IsSurrogate(r) {
				r2, ok := hex(i)
				if ok {
					r = utf16.DecodeRune(r, r2)
				} else {
					r = utf8.RuneError
				}
				if r != utf8.RuneError {
					i += 6
				}
			}
			b = utf8.AppendRune(b, r)
			continue
		}
		if k := strings.IndexByte(`"\/bfnrt`, s[i+1]); k >= 0 {
			b = append(b, "\"\\/\b\f\n\r\t"[k])
		} else {
			b = append(b, s[i], s[i+1])
		}
		i += 2
	}
	return string(b)
}

func checkUnescaped(s, want, prefix string, spare int) error {
	if got := strjson.Unescaped(s); got != want {
		return errf("Unescaped(%q) = %q, want %q", s, got, want)
	}
	for _, extra := range []int{0, 1, 64} {
		dst := buffer(strings.Repeat("x", len(s)+extra), 8)
		n := strjson.Unescape(dst, s)
		if n < 0 || n > len(s) || string(dst[:n]) != want {
			return errf("Unescape(%d bytes, %q) = %d %q, want %q", len(dst), s, n, string(dst[:max(0, min(n, len(dst)))]), want)
		}
		for _, c := range dst[:cap(dst)][len(dst):] {
			if c != 0xA5 {
				return errf("Unescape(%d bytes, %q) wrote past its buffer", len(dst), s)
			}
		}
	}
	return appends("AppendUnescaped("+strconv.Quote(short(s))+")", prefix, spare, want, func(dst []byte) ([]byte, error) {
		return strjson.AppendUnescaped(dst, s), nil
	})
}

// BufCase is a string, and a destination to append to.
type BufCase struct {
	S      Q    `json:"s"`
	HTML   bool `json:"html,omitempty"`
	Prefix Q    `json:"prefix,omitempty"`
	Spare  int  `json:"spare,omitempty"`
}

func (g G) bufCase(s string) BufCase {
	c := BufCase{S: Q(s), HTML: g.p(1, 2)}
	if g.p(2, 3) {
		c.Prefix = Q(g.rawBytes(4))
	}
	if g.p(1, 25) { // sizes around powers of two
		c.Prefix = Q(strings.Repeat(pick(g, "p", "\\", "é"), g.near(3000)))
	}
	switch g.n(5) {
	case 0:
		c.Spare = len(s) + g.rng(-2, 2)
	case 1:
		c.Spare = g.n(16)
	case 2:
		c.Spare = 3*len(s) + g.n(100)
	case 3:
		c.Spare = 6*len(s) + g.rng(-2, 2)
	}
	if c.Spare < 0 {
		c.Spare = 0
	}
	return c
}

func (g G) anyText() string {
	s := g.rawBytes(10)
	if g.p(1, 300) {
		s += g.plainRun(5000) + g.rawBytes(6)
	}
	return s
}

// brokenBody draws escaped text with broken escapes.
func (g G) brokenBody() string {
	var b strings.Builder
	n := g.size(8)
	for i := 0; i < n; i++ {
		switch g.n(9) {
		case 0:
			b.WriteByte('\\')
		case 1:
			b.WriteString(`\u`)
		case 2:
			e := g.uEscape()
			b.WriteString(e[:g.rng(2, len(e))])
		case 3:
			e := []byte(g.uEscape())
			e[g.rng(2, len(e)-1)] = pick[byte](g, 'g', 'G', '/', ':', '@', '`', 'u', '\\', 0, 0xff, 'Z', '"')
			b.Write(e)
		case 4:
			b.WriteString("\\" + string(rune(g.n(128))))
		case 5:
			b.WriteString("\\" + string([]byte{0x80 | byte(g.bits(7))}))
		case 6:
			b.WriteString(g.strBody(2))
		case 7:
			b.WriteString(g.rawBytes(3))
		default:
			b.WriteString(g.uEscape())
		}
	}
	return b.String()
}

// BlockCase is a range of an enumeration.
type BlockCase struct {
	From int `json:"from"`
	To   int `json:"to"`
}

var numberForm = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

func sameFloat(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || a != a && b != b
}

func checkParseFloat(s string) error {
	got := numjson.ParseFloat(s)
	if !numberForm.MatchString(s) {
		if got == got {
			return errf("ParseFloat(%q) = %v, want NaN", s, got)
		}
		return nil
	}
	want, _ := strconv.ParseFloat(s, 64)
	if !sameFloat(got, want) {
		return errf("ParseFloat(%q) = %v (%#x), want %v (%#x)", s, got, math.Float64bits(got), want, math.Float64bits(want))
	}
	return nil
}

func checkParseInts(s string) error {
	i, iok := numjson.ParseInt(s)
	u, uok := numjson.ParseUint(s)
	if !numberForm.MatchString(s) {
		if iok || uok {
			return errf("ParseInt/ParseUint(%q), not a number, give %v %v, %v %v", s, i, iok, u, uok)
		}
		return nil
	}
	wi, wiok := refInt64(s)
	wu, wuok := refUint64(s)
	if !validNumber(s) { // leading zeros: accepting them is not promised
		wiok, wuok = wiok && iok, wuok && uok
	}
	if iok != wiok || iok && i != wi {
		return errf("ParseInt(%q) = %v %v, want %v %v", s, i, iok, wi, wiok)
	}
	if uok != wuok || uok && u != wu {
		return errf("ParseUint(%q) = %v %v, want %v %v", s, u, uok, wu, wuok)
	}
	return nil
}

// numberLike draws numbers, nearly numbers, and other strings.
func (g G) numberLike() string {
	switch g.n(8) {
	case 0:
		return g.rawBytes(3)
	case 1:
		var b strings.Builder
		for n := g.size(8); n > 0; n-- {
			b.WriteString(pick(g, "0", "1", "9", "-", "+", ".", "e", "E", "12", "Inf", "NaN", "0x", "_", " ", "a", "\x00", "i", "n"))
		}
		return b.String()
	case 2:
		return pick(g, "Inf", "-Inf", "+Inf", "NaN", "nan", "inf", "infinity", "Infinity", "-Infinity", "0x10", "0x1p4", "1_000", "1e1_0", "0b1", "0o7", "１", " 1", "1 ", "+1", "1e+-5", "1e-+5", "1e++5", "1e--5", ".5", "5.", "1.e5", "1e", "1e5.0", "--1", "-", "", "true", "null", "1f", "1.5f", "00", "-0", "-00.5", "0e", "12345678901234567890.", "12345678901234567890e", "1e18446744073709551617", "1e9223372036854775808", "1e-18446744073709551617", "0.1e4294967297", "1234567890123456789012345678901234567890x")
	default:
		s := g.number()
		b := []byte(s)
		for k := g.n(3); k > 0 && len(b) > 0; k-- {
			i := g.n(len(b))
			switch g.n(4) {
			case 0:
				b = append(b[:i], b[i+1:]...)
			case 1:
				b[i] = pick[byte](g, '.', 'e', '-', '+', '0', 'x', ' ', '_', 'E', '/', ':')
			case 2:
				b = append(b[:i], append([]byte{pick[byte](g, '.', 'e', '-', '+', '0', 'x', '_')}, b[i:]...)...)
			case 3:
				b = b[:i]
			}
		}
		return string(b)
	}
}

const shortAlphabet = "019.-+eE"

// shortNumbers runs f on all strings of exactly n characters whose index is in the range.
func shortStrings(from, to int, f func(s string) error) error {
	for i := from; i < to; i++ {
		// index into all strings of length 0,1,2,...
		k, n, total := i, 0, 1
		for k >= total {
			k -= total
			total *= len(shortAlphabet)
			n++
		}
		b := make([]byte, n)
		for j := range b {
			b[j] = shortAlphabet[k%len(shortAlphabet)]
			k /= len(shortAlphabet)
		}
		if err := f(string(b)); err != nil {
			return err
		}
	}
	return nil
}

const shortBlock = 4096

func shortAt(i int) BlockCase { return BlockCase{i * shortBlock, (i + 1) * shortBlock} }

// NumCase is a number text.
type NumCase struct {
	S Q `json:"s"`
}

// FloatCase is a float by its bits.
type FloatCase struct {
	Bits   int    `json:"bits"`
	F      uint64 `json:"f"`
	Prefix Q      `json:"prefix,omitempty"`
	Spare  int    `json:"spare,omitempty"`
}

func checkFormat(c FloatCase) error {
	f := math.Float64frombits(c.F)
	var want []byte
	var err error
	if c.Bits == 32 {
		f = float64(math.Float32frombits(uint32(c.F)))
		want, err = json.Marshal(float32(f))
	} else {
		want, err = json.Marshal(f)
	}
	if err != nil {
		return errSkipCase
	}
	got := numjson.FormatFloat(f, c.Bits)
	if !validNumber(got) {
		return errf("FormatFloat(%v, %d) = %q is not a JSON number", f, c.Bits, got)
	}
	back, err := strconv.ParseFloat(got, c.Bits)
	if err != nil || !sameFloat(back, f) {
		return errf("FormatFloat(%v, %d) = %q reads back as %v, %v", f, c.Bits, got, back, err)
	}
	if c.Bits == 64 {
		if p := numjson.ParseFloat(got); !sameFloat(p, f) {
			return errf("FormatFloat(%v, %d) = %q: ParseFloat gives %v", f, c.Bits, got, p)
		}
	}
	if got != string(want) {
		return errf("FormatFloat(%v, %d) = %q, encoding/json writes %q", f, c.Bits, got, string(want))
	}
	return appends("AppendFloat("+string(want)+")", string(c.Prefix), c.Spare, got, func(dst []byte) ([]byte, error) {
		return numjson.AppendFloat(dst, f, c.Bits), nil
	})
}

func init() {
	reg("C12", "strings", "strings with control characters, quotes, HTML characters, U+2028/9, all rune sizes and broken UTF-8, escaped by both functions into destinations of all fill states; non-trivial: something needs escaping",
		300000, 12000000, func(t *rapid.T) BufCase {
			g := G{t}
			return g.bufCase(g.anyText())
		}, func(c BufCase, r *Rec) error {
			s := string(c.S)
			r.NonTrivial(strings.ContainsAny(s, "\"\\<>&\n\t\u2028\u2029") || !utf8.ValidString(s))
			r.Label(!utf8.ValidString(s), "invalid-utf8")
			r.Label(c.Spare < len(s), "must-grow")
			r.Label(c.HTML && strings.ContainsAny(s, "<>&"), "html")
			return checkEscaped(s, c.HTML, string(c.Prefix), c.Spare)
		})
	const runeBlock = 256
	regEnum("C12", "every-rune", "every code point from 0 to 10FFFF (surrogates as their three broken bytes), alone and between letters, with and without the HTML flag; all cases count as non-trivial",
		(0x110000+runeBlock-1)/runeBlock, (0x110000+runeBlock-1)/runeBlock, func(i int) BlockCase { return BlockCase{i * runeBlock, (i + 1) * runeBlock} },
		func(c BlockCase, r *Rec) error {
			r.NonTrivial(true)
			for i := c.From; i < c.To; i++ {
				x := string(rune(i))
				if utf16.IsSurrogate(rune(i)) {
					x = string([]byte{0xE0 | byte(i>>12), 0x80 | byte(i>>6)&0x3F, 0x80 | byte(i)&0x3F})
				}
				for _, s := range []string{x, "a" + x + "b", x + x} {
					for _, html := range []bool{false, true} {
						if err := checkEscaped(s, html, "p", 2); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	regEnum("C12", "two-bytes", "all strings of one and two bytes, with and without the HTML flag; all cases count as non-trivial",
		256, 256, func(i int) BlockCase { return BlockCase{i, i + 1} },
		func(c BlockCase, r *Rec) error {
			r.NonTrivial(true)
			for i := 0; i < 256; i++ {
				for _, html := range []bool{false, true} {
					if err := checkEscaped(string([]byte{byte(c.From), byte(i)}), html, "", 0); err != nil {
						return err
					}
				}
			}
			return checkEscaped(string([]byte{byte(c.From)}), true, "", 3)
		})

	reg("C13", "valid", "bodies of valid JSON strings with all escapes, surrogate pairs and halves, against encoding/json; non-trivial: an escape",
		300000, 12000000, func(t *rapid.T) BufCase {
			g := G{t}
			return g.bufCase(g.strBody(9))
		}, func(c BufCase, r *Rec) error {
			s := string(c.S)
			if !validBody(s) {
				return errSkipCase
			}
			r.NonTrivial(strings.Contains(s, `\`))
			r.Label(strings.Contains(s, `\u`), "unicode-escape")
			want := decodeBody(s)
			if ref := refUnescape(s); utf8.ValidString(s) && ref != want {
				panic(harnessBug{errf("refUnescape(%q) = %q, encoding/json %q", s, ref, want)})
			}
			return checkUnescaped(s, want, string(c.Prefix), c.Spare)
		})
	reg("C13", "any-bytes", "arbitrary bytes with broken, truncated and invalid escapes, against a total reference decoder; non-trivial: not the body of a valid JSON string",
		300000, 12000000, func(t *rapid.T) BufCase {
			g := G{t}
			return g.bufCase(g.brokenBody())
		}, func(c BufCase, r *Rec) error {
			s := string(c.S)
			r.NonTrivial(!validBody(s))
			want := refUnescape(s)
			r.Label(len(want) == len(s), "unchanged-length")
			return checkUnescaped(s, want, string(c.Prefix), c.Spare)
		})
	regEnum("C13", "every-escape", "every \\uXXXX escape, alone, followed by text, and followed by another escape, and every \\x for one byte x; all cases count as non-trivial",
		256, 256, func(i int) BlockCase { return BlockCase{i * 256, (i + 1) * 256} },
		func(c BlockCase, r *Rec) error {
			r.NonTrivial(true)
			h := func(i int) string { return `\u` + hex4(i) }
			var all []string
			for i := c.From; i < c.To; i++ {
				e := h(i)
				all = append(all, e, strings.ToUpper(e[2:]), e+"z", e+`\n`, e+`\u0041`, e+h(i), e+`\ud83d`, e+`\udc00`, e+`\udfff\u0042`, "a"+e[:5], e+`\`, e+`\u`, e+`\u00`)
				all = append(all, `\u`+strings.ToUpper(e[2:])+`\uDFFE`)
			}
			for x := 0; x < 256; x++ {
				all = append(all, string([]byte{'\\', byte(x)}), string([]byte{'\\', byte(x), byte(c.From >> 8)}))
				all = append(all, string([]byte{'\\', 'u', '0', byte(c.From >> 8), byte(x), '0'}), string([]byte{'\\', 'u', byte(x), '0', '0', byte(c.From >> 8)}))
			}
			for _, s := range all {
				if err := checkUnescaped(s, refUnescape(s), "", len(s)); err != nil {
					return err
				}
			}
			return nil
		})

	reg("C14", "numbers", "valid JSON numbers (shortest forms, 1-400 digits, exact halfway points, subnormals, overflow, all notations), bit for bit against strconv; non-trivial: not a plain integer below 2^53",
		500000, 30000000, func(t *rapid.T) NumCase { return NumCase{Q(G{t}.number())} },
		func(c NumCase, r *Rec) error {
			s := string(c.S)
			r.NonTrivial(len(s) > 15 || strings.ContainsAny(s, ".eE"))
			r.Label(strings.ContainsAny(s, "eE"), "exponent")
			r.Label(len(s) > 19, "long")
			return checkParseFloat(s)
		})
	reg("C14", "any-text", "mutated numbers, soups of number characters, and arbitrary bytes: NaN exactly for what is not a number; non-trivial: not a number",
		300000, 12000000, func(t *rapid.T) NumCase { return NumCase{Q(G{t}.numberLike())} },
		func(c NumCase, r *Rec) error {
			r.NonTrivial(!numberForm.MatchString(string(c.S)))
			return checkParseFloat(string(c.S))
		})
	regEnum("C14", "short-texts", "all strings over 0 1 9 . - + e E up to 6 (thorough: 7) characters; a case is a block of 4096, all count as non-trivial",
		(299593+shortBlock-1)/shortBlock, (2396745+shortBlock-1)/shortBlock, shortAt,
		func(c BlockCase, r *Rec) error {
			r.NonTrivial(true)
			return shortStrings(c.From, c.To, checkParseFloat)
		})

	reg("C15", "numbers", "valid JSON numbers near the limits of 64 bits and 2^53, integers spelled with fractions and exponents, and all other forms, against math/big; non-trivial: an integer of more than 15 digits or spelled with fraction or exponent",
		400000, 20000000, func(t *rapid.T) NumCase { return NumCase{Q(G{t}.number())} },
		func(c NumCase, r *Rec) error {
			s := string(c.S)
			_, isInt := refInteger(s)
			r.NonTrivial(isInt && (len(s) > 15 || strings.ContainsAny(s, ".eE")))
			r.Label(isInt, "integral")
			return checkParseInts(s)
		})
	reg("C15", "any-text", "mutated numbers and arbitrary text: refused when not a number; non-trivial: not a number",
		200000, 10000000, func(t *rapid.T) NumCase { return NumCase{Q(G{t}.numberLike())} },
		func(c NumCase, r *Rec) error {
			r.NonTrivial(!numberForm.MatchString(string(c.S)))
			return checkParseInts(string(c.S))
		})
	regEnum("C15", "short-texts", "all strings over 0 1 9 . - + e E up to 6 (thorough: 7) characters; a case is a block of 4096, all count as non-trivial",
		(299593+shortBlock-1)/shortBlock, (2396745+shortBlock-1)/shortBlock, shortAt,
		func(c BlockCase, r *Rec) error {
			r.NonTrivial(true)
			return shortStrings(c.From, c.To, checkParseInts)
		})

	genFloat := func(t *rapid.T) FloatCase {
		g := G{t}
		c := FloatCase{Bits: 64}
		if g.p(1, 2) {
			c.Bits = 32
			f := g.float32()
			if g.p(1, 4) {
				f = -f
			}
			c.F = uint64(math.Float32bits(f))
		} else {
			c.F = math.Float64bits(g.float64())
		}
		b := g.bufCase("123456789012345678901234567890")
		c.Prefix, c.Spare = b.Prefix, b.Spare
		return c
	}
	reg("C16", "floats", "finite floats of both sizes from all exponents and around the notation limits 1e-6 and 1e21, against encoding/json and strconv; non-trivial: not a small integer",
		400000, 20000000, genFloat, func(c FloatCase, r *Rec) error {
			f := math.Float64frombits(c.F)
			if c.Bits == 32 {
				f = float64(math.Float32frombits(uint32(c.F)))
			}
			r.NonTrivial(f != math.Trunc(f) || math.Abs(f) > 1e6)
			r.Label(c.Bits == 32, "float32")
			a := math.Abs(f)
			r.Label(a != 0 && (a < 1e-6 || a >= 1e21), "exponent-notation")
			r.Label(a == 0, "zero")
			return checkFormat(c)
		})
	reg("C16", "powers", "float32 and float64 values next to every power of ten and of two, both signs, enumerated by index; all cases count as non-trivial",
		1, 1, func(t *rapid.T) BlockCase { return BlockCase{0, 1} }, func(c BlockCase, r *Rec) error {
			r.NonTrivial(true)
			try := func(f float64) error {
				for _, s := range []float64{f, -f} {
					if err := checkFormat(FloatCase{Bits: 64, F: math.Float64bits(s)}); err != nil && err != errSkipCase {
						return err
					}
				}
				return nil
			}
			try32 := func(f float32) error {
				for _, s := range []float32{f, -f} {
					if err := checkFormat(FloatCase{Bits: 32, F: uint64(math.Float32bits(s)), Prefix: "x"}); err != nil && err != errSkipCase {
						return err
					}
				}
				return nil
			}
			var bases []float64
			for e := -324; e <= 308; e++ {
				f, _ := strconv.ParseFloat("1e"+strconv.Itoa(e), 64)
				bases = append(bases, f, 5*f, 9.5*f)
			}
			for e := -1074; e <= 1023; e++ {
				bases = append(bases, math.Ldexp(1, e), math.Ldexp(3, e))
			}
			for _, f := range bases {
				g, h := f, float32(f)
				for k := 0; k < 6; k++ {
					g = math.Nextafter(g, math.Inf(-1))
					h = math.Nextafter32(h, float32(math.Inf(-1)))
				}
				for k := 0; k < 12; k++ {
					if err := try(g); err != nil {
						return err
					}
					if err := try32(h); err != nil {
						return err
					}
					g = math.Nextafter(g, math.Inf(1))
					h = math.Nextafter32(h, float32(math.Inf(1)))
				}
			}
			return nil
		})
}

func hex4(i int) string {
	const d = "0123456789abcdef"
	return string([]byte{d[i>>12&15], d[i>>8&15], d[i>>4&15], d[i&15]})
}
