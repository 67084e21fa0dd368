package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// G draws every random choice from rapid so that shrinking and replay work.
type G struct{ t *rapid.T }

var boolGen = rapid.Bool()

// bits draws n uniform bits (all zero is the simplest value).
func (g G) bits(n int) uint64 {
	var u uint64
	for i := 0; i < n; i++ {
		u <<= 1
		if boolGen.Draw(g.t, "b") {
			u |= 1
		}
	}
	return u
}

// n draws a (nearly) uniform int in [0,k).
func (g G) n(k int) int {
	if k <= 1 {
		return 0
	}
	b := 3
	for 1<<uint(b-2) < k {
		b++
	}
	return int(g.bits(b) % uint64(k))
}

// rng draws a (nearly) uniform int in [a,b].
func (g G) rng(a, b int) int { return a + g.n(b-a+1) }

// p is true with probability about num/den; it shrinks to false.
func (g G) p(num, den int) bool { return g.n(den) >= den-num }

// size draws a small-biased length in [0,max].
func (g G) size(max int) int { return rapid.IntRange(0, max).Draw(g.t, "n") }

func pick[T any](g G, xs ...T) T { return xs[g.n(len(xs))] }

func pickS[T any](g G, xs []T) T { return xs[g.n(len(xs))] }

// ---- strings ----

var interestingRunes = []rune{0x80, 0xA0, 0x7F, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0x2027, 0x2028, 0x2029, 0x202A, 0xE9, 0x4E16, 0x754C, 0x2A28, 0x2B29, 0x0128, 0x20AC}

func (g G) rune() rune {
	if g.p(1, 2) {
		return pickS(g, interestingRunes)
	}
	for {
		r := rune(g.bits(21))
		if r >= 0x80 && utf8.ValidRune(r) {
			return r
		}
		// always ends: the simplest bits give 0, map it instead of looping
		return 0x80 + r%0x700
	}
}

const plainBytes = "abcxyz0159 _-.,:;{}[]()+*'~!?=@#|^%$`ABCXYZefnrtu"

func (g G) plainRun(max int) string {
	n := g.size(max)
	if n > 24 {
		// long runs: repeat a short pattern instead of drawing every byte
		pat := g.plainRun(7) + "a"
		return strings.Repeat(pat, n/len(pat)+1)[:n]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = plainBytes[g.n(len(plainBytes))]
	}
	return string(b)
}

func (g G) hex4(v uint32) string {
	s := fmt.Sprintf("%04x", v&0xffff)
	switch g.n(3) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		i := g.n(4)
		b[i] = strings.ToUpper(string(b[i]))[0]
		return string(b)
	}
	return s
}

func (g G) uEscape() string {
	var v uint32
	switch g.n(9) {
	case 0:
		v = uint32(g.n(0x80))
	case 1:
		v = uint32(g.n(0x20))
	case 2:
		v = 0x80 + uint32(g.n(0x780))
	case 3:
		v = 0x800 + uint32(g.n(0xD800-0x800))
	case 4:
		v = 0xE000 + uint32(g.n(0x2000))
	case 5:
		v = 0xD800 + uint32(g.n(0x400)) // high surrogate
	case 6:
		v = 0xDC00 + uint32(g.n(0x400)) // low surrogate
	case 7: // proper pair
		r := 0x10000 + uint32(g.n(0x100000))
		r -= 0x10000
		return `\u` + g.hex4(0xD800+r>>10) + `\u` + g.hex4(0xDC00+r&0x3ff)
	case 8:
		v = pick[uint32](g, 0x22, 0x5c, 0x2f, 0, 0x7f, 0x80, 0xffff, 0xfffd, 0x2028, 0x2029, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000)
	}
	return `\u` + g.hex4(v)
}

// strBody draws the raw (escaped) body of a valid JSON string.
func (g G) strBody(maxPieces int) string {
	if g.p(1, 14) { // the text of another kind of value
		return pick(g, "true", "false", "null", "0", "1", "-1", "1.5", "12345678901234567890", "1e3", "NaN", "Inf", "[]", "{}", "[1,2]", "0x10")
	}
	var b strings.Builder
	n := g.size(maxPieces)
	for i := 0; i < n; i++ {
		switch g.n(10) {
		case 0, 1:
			b.WriteString(g.plainRun(8))
		case 2:
			b.WriteString(g.plainRun(20))
		case 3, 4:
			b.WriteByte('\\')
			b.WriteByte(`"\/bfnrt`[g.n(8)])
		case 5:
			b.WriteString(strings.Repeat(`\\`, 1+g.n(4)))
		case 6, 7:
			b.WriteString(g.uEscape())
		case 8:
			b.WriteRune(g.rune())
		case 9:
			b.WriteString(pick(g, `\"`, "<", ">", "&", "/", "\x7f", `\\`, `\"\"`))
		}
	}
	if g.p(1, 400) {
		b.WriteString(g.plainRun(3000))
		b.WriteString(pick(g, "", `\"`, `\\`, `\u0041`))
	}
	return b.String()
}

var keyPool = []string{"a", "b", "c", "foo", "bar", "", "0", "1", "10", "01", "a.b", "A", "é", `\u0061`, `a\"b`, `\\`, `foo\/bar`, `k\n`, "key_longer_than_sixteen_bytes", "sixteen_bytes_xx", "seventeen_bytes_x"}

// key draws a raw object key; small pool so that lookups hit and duplicates occur.
func (g G) key() string {
	if g.p(1, 4) {
		return g.strBody(3)
	}
	return pickS(g, keyPool)
}

// rawBytes draws arbitrary bytes with structure-relevant bytes overrepresented.
func (g G) rawBytes(max int) string {
	var b strings.Builder
	n := g.size(max)
	for i := 0; i < n; i++ {
		switch g.n(8) {
		case 0:
			b.WriteByte(byte(g.bits(8)))
		case 1:
			b.WriteByte(0x80 | byte(g.bits(7)))
		case 2:
			b.WriteByte(byte(g.n(0x20)))
		case 3:
			b.WriteRune(g.rune())
		case 4:
			b.WriteByte(`"\/<>&'`[g.n(7)])
		case 5: // broken multi-byte sequences
			s := string(g.rune())
			b.WriteString(s[:1+g.n(len(s))])
		default:
			b.WriteString(g.plainRun(6))
		}
	}
	return b.String()
}

// ---- numbers ----

func (g G) digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(g.n(10))
	}
	return string(b)
}

func (g G) intDigits(n int) string {
	if n <= 1 {
		return string(rune('0' + g.n(10)))
	}
	return string(rune('1'+g.n(9))) + g.digits(n-1)
}

// number draws a valid JSON number text.
func (g G) number() string {
	if s := g.rawNumber(); validNumber(s) {
		return s
	}
	return "7"
}

func (g G) rawNumber() string {
	sign := ""
	if g.p(1, 3) {
		sign = "-"
	}
	switch g.n(16) {
	case 0, 1:
		return sign + strconv.Itoa(g.n(100))
	case 2: // near powers of two
		return sign + g.nearPow2()
	case 3: // near type limits
		return g.nearLimit()
	case 4:
		return sign + g.intDigits(1+g.n(25))
	case 5:
		return sign + g.intDigits(1+g.n(6)) + "." + g.digits(1+g.n(8))
	case 6:
		return sign + "0." + strings.Repeat("0", g.n(12)) + g.digits(1+g.n(20))
	case 7:
		return sign + g.intDigits(1+g.n(20)) + "." + g.digits(1+g.n(20))
	case 8:
		return sign + g.intDigits(1+g.n(4)) + g.exponent(30)
	case 9:
		return sign + g.intDigits(1+g.n(4)) + "." + g.digits(1+g.n(6)) + g.exponent(40)
	case 10: // shortest form of a random float
		f := g.float64()
		return g.floatText(f, -1)
	case 11:
		f := g.float64()
		return g.floatText(f, 16)
	case 12: // whole numbers spelled with fraction or exponent
		z := g.n(6)
		d := g.intDigits(1 + g.n(19))
		switch g.n(4) {
		case 0:
			return sign + d + "." + strings.Repeat("0", 1+z)
		case 1:
			return sign + d + pick(g, "e", "E") + pick(g, "", "+") + strconv.Itoa(z)
		case 2:
			return sign + d + strings.Repeat("0", z) + pick(g, "e-", "E-") + strconv.Itoa(z)
		default:
			fd := g.digits(1 + z)
			return sign + d + "." + fd + "e" + strconv.Itoa(len(fd)+g.n(2))
		}
	case 13: // halfway between two neighbouring floats
		return sign + g.halfway()
	case 14:
		return sign + pick(g, "0", "0.0", "0e5", "0E-3", "0.00e+10", "1e0", "1E+00", "1e-0", "0.1", "0.3", "2.2250738585072014e-308", "4.9e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623158e308", "5e-324", "1e22", "1e23", "9007199254740993", "123456789012345678", "1234567890123456789", "0.000001", "0.0000001", "1e21", "1e20", "1e-6", "1e-7", "1e-9", "1e-10")
	default:
		return sign + g.intDigits(1+g.n(50)) + pick(g, "", "."+g.digits(1+g.n(400)), g.exponent(400))
	}
}

func (g G) exponent(max int) string {
	return pick(g, "e", "E") + pick(g, "", "+", "-") + pick(g, "", "", "", "0", "00") + strconv.Itoa(g.n(max))
}

func (g G) nearPow2() string {
	k := g.n(66)
	d := g.rng(-3, 3)
	// compute 2^k + d with two limbs via big-free decimal arithmetic
	hi, lo := uint64(0), uint64(0)
	if k < 64 {
		lo = 1 << uint(k)
	} else {
		hi = 1 << uint(k-64)
	}
	if d >= 0 {
		n := lo + uint64(d)
		if n < lo {
			hi++
		}
		lo = n
	} else {
		n := lo - uint64(-d)
		if n > lo {
			if hi == 0 {
				return strconv.Itoa(g.n(9))
			}
			hi--
		}
		lo = n
	}
	return u128(hi, lo)
}

func u128(hi, lo uint64) string {
	if hi == 0 {
		return strconv.FormatUint(lo, 10)
	}
	var ds []byte
	for hi != 0 || lo != 0 {
		// divide by 10
		q1 := hi / 10
		r := hi % 10
		q0, r2 := div128(r, lo)
		ds = append(ds, byte('0'+r2))
		hi, lo = q1, q0
	}
	for i, j := 0, len(ds)-1; i < j; i, j = i+1, j-1 {
		ds[i], ds[j] = ds[j], ds[i]
	}
	return string(ds)
}

func div128(hi, lo uint64) (q, r uint64) { // hi < 10
	r = hi
	for i := 63; i >= 0; i-- {
		r = r<<1 | (lo>>uint(i))&1
		q <<= 1
		if r >= 10 {
			r -= 10
			q |= 1
		}
	}
	return
}

func (g G) nearLimit() string {
	base := pick(g, "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "9007199254740992", "9007199254740993", "-9007199254740993", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "9223372036854775806", "18446744073709551614", "9999999999999999999", "10000000000000000000", "99999999999999999999", "999999999999999999", "1000000000000000000", "9223372036854774784", "9223372036854775296", "18446744073709549568", "18446744073709550592", "340282346638528859811704183484516925440", "340282356779733661637539395458142568447", "340282356779733661637539395458142568448", "3.4028234663852886e38", "3.4028235677973366e38", "3.5e38", "-3.5e38", "1e39")
	switch g.n(8) {
	case 0:
		return base + pick(g, ".0", "e0", "E+0", ".00")
	}
	return base
}

// float64 draws a finite float from all exponents.
func (g G) float64() float64 {
	switch g.n(10) {
	case 0:
		return float64(g.rng(-1000, 1000))
	case 1:
		return float64(g.rng(-100000, 100000)) / pick(g, 10.0, 100.0, 1000.0, 8.0, 3.0)
	case 2: // around powers of ten, where the notation switches
		e := g.rng(-12, 24)
		f, _ := strconv.ParseFloat("1e"+strconv.Itoa(e), 64)
		return g.nudge(f)
	case 3:
		return g.nudge(pick(g, 0, math.Copysign(0, -1), 1e-6, 1e21, 9.999999999999999e20, 9.999999999999999e-7, 1e-7, 1e20, 1e-9, 1e-10, 1e-99, 1e-100, 1e99, 1e100, math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1<<53, 1<<53+2, 1<<63, 1<<64, math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 0.3, 1.0/3))
	case 4:
		return math.Ldexp(float64(1+g.n(1<<20)), g.rng(-1080, 1000))
	default:
		for i := 0; i < 4; i++ {
			f := math.Float64frombits(g.bits(64))
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
		return 1.5
	}
}

func (g G) nudge(f float64) float64 {
	k := g.rng(-2, 2)
	for ; k > 0; k-- {
		f = math.Nextafter(f, math.Inf(1))
	}
	for ; k < 0; k++ {
		f = math.Nextafter(f, math.Inf(-1))
	}
	if math.IsInf(f, 0) {
		f = math.MaxFloat64
	}
	if g.p(1, 4) {
		f = -f
	}
	return f
}

func (g G) float32() float32 {
	switch g.n(5) {
	case 0:
		f := float32(g.float64())
		if !math.IsInf(float64(f), 0) {
			return f
		}
	case 1:
		return pick[float32](g, 1e-6, 9.9999997e-7, 1e21, 9.999999e20, 1e-7, 1e-9, 1e-10, 0.1, math.MaxFloat32, math.SmallestNonzeroFloat32, 16777216, 16777218, 0.3, 3.4e38, 1.1754944e-38)
	}
	f := math.Float32frombits(uint32(g.bits(32)))
	if f != f || math.IsInf(float64(f), 0) {
		return 1.25
	}
	return f
}

// floatText spells a float as a valid JSON number.
func (g G) floatText(f float64, prec int) string {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return "0"
	}
	fm := pick[byte](g, 'e', 'E', 'f', 'g')
	if fm == 'f' && math.Abs(f) > 1e40 {
		fm = 'e'
	}
	return strconv.FormatFloat(f, fm, prec, 64)
}

func (g G) halfway() string {
	f := math.Abs(g.float64())
	if f < 1e-30 || f > 1e40 {
		f = 1 + float64(g.n(1<<30))/(1<<20)
	}
	// exact decimal of the midpoint between f and its successor
	n := math.Nextafter(f, math.Inf(1))
	s := exactMid(f, n)
	switch g.n(3) {
	case 1: // just above
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		return s + strings.Repeat("0", g.n(30)) + "1"
	case 2: // just below
		if strings.Contains(s, ".") {
			b := []byte(s)
			for i := len(b) - 1; i >= 0; i-- {
				if b[i] >= '1' && b[i] <= '9' {
					b[i]--
					break
				}
				if b[i] == '0' {
					b[i] = '9'
				}
			}
			s = string(b)
			if len(s) > 1 && s[0] == '0' && s[1] != '.' {
				s = strings.TrimLeft(s, "0")
			}
			if s == "" || s[0] == '.' {
				s = "0" + s
			}
		}
	}
	return s
}

// ---- whitespace and documents ----

func (g G) ws() string {
	switch g.n(6) {
	case 0:
		return " "
	case 1:
		return pick(g, "\n", "\t", "\r", "\r\n", "  ", " \n\t\r ")
	}
	return ""
}

// docOpts controls JSON text generation.
type docOpts struct {
	depth    int
	maxKids  int
	noWS     bool
	strPcs   int
	uniqKeys bool
	finite   bool // numbers finite in float64
	validU   bool // no lone surrogates needed? (kept for future use)
}

func (g G) docText(o docOpts) string {
	var b strings.Builder
	// Rare shapes first.
	switch {
	case g.p(1, 60):
		g.deep(&b, o)
	case g.p(1, 60):
		g.wide(&b, o)
	default:
		if !o.noWS {
			b.WriteString(g.ws())
		}
		g.value(&b, o, o.depth)
		if !o.noWS {
			b.WriteString(g.ws())
		}
	}
	return b.String()
}

func (g G) deep(b *strings.Builder, o docOpts) {
	n := pick(g, 20, 63, 64, 65, 100, 127, 128, 129, 300, 1000)
	if g.p(1, 12) {
		n = 10000
	}
	kind := g.n(3)
	var closers []byte
	for i := 0; i < n; i++ {
		obj := kind == 1 || kind == 2 && i%2 == 0
		if obj {
			b.WriteString(`{"k":`)
			closers = append(closers, '}')
		} else {
			b.WriteByte('[')
			closers = append(closers, ']')
		}
	}
	g.value(b, o, 1)
	for i := n - 1; i >= 0; i-- {
		b.WriteByte(closers[i])
	}
}

func (g G) wide(b *strings.Builder, o docOpts) {
	n := pick(g, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000)
	if g.p(1, 2) {
		b.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			if i%7 == 3 {
				g.value(b, o, 1)
			} else {
				b.WriteString(strconv.Itoa(i))
			}
		}
		b.WriteByte(']')
		return
	}
	b.WriteByte('{')
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(b, `"k%d":`, i)
		if i%7 == 3 {
			g.value(b, o, 1)
		} else {
			b.WriteString(strconv.Itoa(i))
		}
	}
	b.WriteByte('}')
}

func (g G) numberFor(o docOpts) string {
	s := g.number()
	if o.finite {
		if f, err := strconv.ParseFloat(s, 64); err != nil || math.IsInf(f, 0) {
			return "17"
		}
	}
	return s
}

func (g G) value(b *strings.Builder, o docOpts, depth int) {
	w := func() {
		if !o.noWS {
			b.WriteString(g.ws())
		}
	}
	pcs := o.strPcs
	if pcs == 0 {
		pcs = 6
	}
	k := g.n(14)
	if depth <= 0 && k >= 8 {
		k -= 8
	}
	switch k {
	case 0:
		b.WriteString("null")
	case 1:
		b.WriteString(pick(g, "true", "false"))
	case 2, 3, 4:
		b.WriteString(g.numberFor(o))
	case 5, 6, 7:
		b.WriteByte('"')
		b.WriteString(g.strBody(pcs))
		b.WriteByte('"')
	case 8, 9, 10:
		n := g.size(kids(o))
		b.WriteByte('[')
		w()
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
				w()
			}
			g.value(b, o, depth-1)
			w()
		}
		b.WriteByte(']')
	default:
		n := g.size(kids(o))
		b.WriteByte('{')
		w()
		var used map[string]bool
		if o.uniqKeys {
			used = map[string]bool{}
		}
		first := true
		for i := 0; i < n; i++ {
			key := g.key()
			if o.uniqKeys {
				if dk := decodeBody(key); used[dk] {
					continue
				} else {
					used[dk] = true
				}
			}
			if !first {
				b.WriteByte(',')
				w()
			}
			first = false
			b.WriteByte('"')
			b.WriteString(key)
			b.WriteByte('"')
			w()
			b.WriteByte(':')
			w()
			g.value(b, o, depth-1)
			w()
		}
		b.WriteByte('}')
	}
}

func kids(o docOpts) int {
	if o.maxKids == 0 {
		return 8
	}
	return o.maxKids
}
