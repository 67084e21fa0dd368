package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/strjson"
	"pgregory.net/rapid"
)

// ---- the bytemaper tool ----

// MapArg is one argument of the tool.
type MapArg struct {
	Class string `json:",omitempty"` // a built-in class, or ""
	Name  string // name of the function, "" for the class's own
	Set   Q      `json:",omitempty"` // the members of a custom set
	Spell Q      `json:",omitempty"` // how the set is written in the argument
}

// MapCase is one run of the tool.
type MapCase struct {
	Pkg, Prefix string // "" for the default
	Args        []MapArg
	File        bool // -w
	Run         bool // compile and run instead of reading the constants
}

func (a MapArg) arg() string {
	switch {
	case a.Class != "" && a.Name == "":
		return a.Class
	case a.Class != "":
		return a.Class + ":" + a.Name
	case a.Set == "" && a.Spell == "":
		return a.Name
	}
	return a.Name + ":" + string(a.Spell)
}

func (a MapArg) function() string {
	if a.Name == "" {
		return a.Class
	}
	return a.Name
}

func bit(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func ascii(r rune) byte {
	if r < 0x80 {
		return byte(r)
	}
	return 0
}

// entry is the definition of a table.
func (a MapArg) entry(c byte) byte {
	letter := c|0x20 >= 'a' && c|0x20 <= 'z'
	switch a.Class {
	case "":
		return bit(strings.IndexByte(string(a.Set), c) >= 0)
	case "IsControl":
		return bit(c < 0x20 || c >= 0x7f && c < 0xa0)
	case "IsDigit":
		return bit(c >= '0' && c <= '9')
	case "IsSpace":
		return bit(c >= 9 && c <= 13 || c == ' ' || c == 0x85 || c == 0xa0)
	case "IsPunct":
		return bit(unicode.In(rune(c), unicode.P))
	case "IsPrint":
		return bit(c == ' ' || unicode.In(rune(c), unicode.L, unicode.M, unicode.N, unicode.P, unicode.S))
	case "ToLower":
		if c >= 'A' && c <= 'Z' {
			return c + 32
		}
		return ascii(rune(c))
	case "ToUpper", "ToTitle":
		if c >= 'a' && c <= 'z' {
			return c - 32
		}
		return ascii(rune(c))
	case "ToISO3166":
		if letter {
			return c &^ 0x20
		}
		return 'Z'
	case "ToISO639":
		if letter {
			return c | 0x20
		}
		return 'z'
	case "ToHex":
		if c < 16 {
			return "0123456789abcdef"[c]
		}
		return 0xff
	case "FromHex":
		if i := strings.IndexByte("0123456789abcdef", c); i >= 0 {
			return byte(i)
		}
		if i := strings.IndexByte("ABCDEF", c); i >= 0 {
			return byte(10 + i)
		}
		return 0xff
	case "ToJSON":
		switch c {
		case '<', '>', '&':
			return 1
		case '\\', '/', '"':
			return '\\'
		case '\r':
			return 'r'
		case '\n':
			return 'n'
		case '\t':
			return 't'
		case '\f':
			return 'f'
		case '\b':
			return 'b'
		}
		switch {
		case c < 0x20 || c == 0x7f:
			return 0
		case c < 0x80:
			return utf8.RuneSelf
		}
		return 0xff
	}
	panic(harnessBug{fmt.Errorf("class %s", a.Class)})
}

var mapClasses = []string{"IsDigit", "ToJSON", "ToHex", "FromHex", "IsSpace", "IsControl", "IsPunct", "IsPrint", "ToLower", "ToUpper", "ToTitle", "ToISO3166", "ToISO639"}

func runBytemaper(c *MapCase) (string, error) {
	exe := os.Getenv("PBT_BYTEMAPER")
	if exe == "" {
		panic(harnessBug{fmt.Errorf("bytemaper is not built, use ./check")})
	}
	var args []string
	if c.Pkg != "" {
		args = append(args, "-pkg", c.Pkg)
	}
	if c.Prefix != "" {
		args = append(args, "-prefix="+c.Prefix)
	}
	dir, done := genScratch()
	defer done()
	out := filepath.Join(dir, "maps.go")
	if c.File {
		args = append(args, "-w", out)
	}
	for _, a := range c.Args {
		args = append(args, a.arg())
	}
	so, se, rc := tested(dir, nil, nil, exe, args...)
	if rc != 0 {
		return "", fmt.Errorf("bytemaper %q: exit code %d: %s", args, rc, clip(se))
	}
	if c.File {
		b, err := os.ReadFile(out)
		if err != nil || len(so) > 0 {
			return "", fmt.Errorf("bytemaper %q: %v, standard output %s", args, err, clip(so))
		}
		so = b
	}
	return string(so), nil
}

func checkBytemaper(c MapCase, r *Rec) error {
	src, err := runBytemaper(&c)
	if err != nil {
		return err
	}
	pkg := c.Pkg
	if pkg == "" {
		pkg = "main"
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "maps.go", src, 0)
	if err != nil {
		return fmt.Errorf("output: %w", err)
	}
	if f.Name.Name != pkg {
		return fmt.Errorf("package %s, want %s", f.Name.Name, pkg)
	}
	conf := types.Config{}
	p, err := conf.Check(pkg, fset, []*ast.File{f}, nil)
	if err != nil {
		return fmt.Errorf("output does not compile: %w", err)
	}
	// the functions, each once, with the right result
	want := map[string]MapArg{}
	for _, a := range c.Args {
		want[a.function()] = a
	}
	got := 0
	for _, n := range p.Scope().Names() {
		fn, ok := p.Scope().Lookup(n).(*types.Func)
		if !ok {
			continue
		}
		got++
		if _, ok := want[n]; !ok {
			return fmt.Errorf("function %s was not asked for", n)
		}
		res := "byte"
		if strings.HasPrefix(n, "Is") {
			res = "bool"
		}
		if s := fn.Type().String(); s != "func(c byte) "+res {
			return fmt.Errorf("function %s is a %s", n, s)
		}
	}
	if got != len(want) {
		return fmt.Errorf("%d functions instead of %d", got, len(want))
	}
	r.NonTrivial(true)
	r.Label(c.File, "file")
	if !c.Run {
		prefix := c.Prefix
		if prefix == "" {
			prefix = "bytemap"
		}
		for n, a := range want {
			k, ok := p.Scope().Lookup(prefix + n).(*types.Const)
			if !ok { // how the table is kept is not the point
				c.Pkg, c.Run = "", true
				return checkBytemaper(c, r)
			}
			s, err := strconv.Unquote(k.Val().ExactString())
			if err != nil || len(s) != 256 {
				return fmt.Errorf("table %s has %d entries (%v)", n, len(s), err)
			}
			for i := 0; i < 256; i++ {
				if w := a.entry(byte(i)); s[i] != w {
					return fmt.Errorf("table of %q: entry %#x is %#x, want %#x", a.arg(), i, s[i], w)
				}
			}
		}
		return nil
	}
	// run the functions
	r.Label(true, "run")
	var b strings.Builder
	b.WriteString("package main\n\nfunc main() {\n\tprint()\n\tfor i := 0; i < 256; i++ {\n\t\tc := byte(i)\n\t\t_ = c\n")
	for _, a := range c.Args {
		n := a.function()
		if strings.HasPrefix(n, "Is") {
			fmt.Fprintf(&b, "\t\tif %s(c) {\n\t\t\tprint(\"1 \")\n\t\t} else {\n\t\t\tprint(\"0 \")\n\t\t}\n", n)
		} else {
			fmt.Fprintf(&b, "\t\tprint(%s(c), \" \")\n", n)
		}
	}
	b.WriteString("\t}\n}\n")
	t := tools()
	dir, done := genScratch()
	defer done()
	obj, exe := filepath.Join(dir, "x.a"), filepath.Join(dir, "x.exe")
	if err := t.compiles(dir, "main", obj, mustWrite(filepath.Join(dir, "maps.go"), src), mustWrite(filepath.Join(dir, "main.go"), b.String())); err != nil {
		return fmt.Errorf("output does not compile: %w", err)
	}
	if so, se, rc := tool(dir, []string{"GOMAXPROCS=2"}, nil, 150*time.Second, t.link, "-s", "-w", "-importcfg", t.importcfg, "-o", exe, obj); rc != 0 {
		panic(harnessBug{fmt.Errorf("link: %s %s", clip(so), clip(se))})
	}
	_, se, rc := tested(dir, nil, nil, exe)
	fields := strings.Fields(string(se))
	if rc != 0 || len(fields) != 256*len(c.Args) {
		return fmt.Errorf("compiled tables: exit code %d, %d values, %s", rc, len(fields), clip(se))
	}
	for i := 0; i < 256; i++ {
		for j, a := range c.Args {
			w := a.entry(byte(i))
			if strings.HasPrefix(a.function(), "Is") {
				w = bit(w == 1) // a predicate
			}
			if g := fields[i*len(c.Args)+j]; g != strconv.Itoa(int(w)) {
				return fmt.Errorf("%s(%#x) of %q gives %s, want %d", a.function(), i, a.arg(), g, w)
			}
		}
	}
	return nil
}

func genMapCase(g G, run bool) MapCase {
	c := MapCase{Run: run, File: g.p(1, 3)}
	if !run {
		c.Pkg = pick(g, "", "foo", "main", "a_b", "x1")
	}
	c.Prefix = pick(g, "", "", "tbl", "X_", "b")
	used := map[string]bool{"main": true, "c": true, "i": true, "print": true, "byte": true, "bool": true}
	for n := g.rng(1, 6); n > 0; n-- {
		var a MapArg
		if g.p(1, 2) {
			a.Class = pickS(g, mapClasses)
			if g.p(1, 3) {
				a.Name = pick(g, "foo", "h", "IsFoo", "toX", "Is", "isY", "Z9")
			}
		} else {
			a.Name = pick(g, "IsEnd", "IsX", "set", "Vowel", "Isx", "k", "Is_", "IsOne")
			n := g.size(10)
			var set, sp strings.Builder
			quoted := g.p(1, 3)
			for i := 0; i < n; i++ {
				b := byte(g.n(256))
				if g.p(1, 2) {
					b = pick[byte](g, 'a', ',', '}', ']', ' ', '"', '\\', '\t', '\r', '\n', ':', 0, 0xff, '\'', '-', '`', 0x7f, 0x80)
				}
				if g.p(1, 12) {
					r := pick(g, 'é', '名', '\U0001f600', '\u2028')
					set.WriteRune(r)
					if g.p(1, 2) {
						fmt.Fprintf(&sp, `\U%08x`, r)
					} else {
						sp.WriteRune(r)
					}
					continue
				}
				set.WriteByte(b)
				switch {
				case b == '\\' || b == '"' && quoted:
					sp.WriteByte('\\')
					sp.WriteByte(b)
				case b == 0 || b == '\n' || b >= 0x80 || b < 0x20 && g.p(1, 2):
					switch {
					case b == '\n' && g.p(1, 2):
						sp.WriteString(`\n`)
					case b == '\t' && g.p(1, 2):
						sp.WriteString(`\t`)
					case g.p(1, 3):
						fmt.Fprintf(&sp, `\%03o`, b)
					default:
						fmt.Fprintf(&sp, `\x%02x`, b)
					}
				case b < 0x20 && quoted:
					fmt.Fprintf(&sp, `\x%02x`, b)
				default:
					sp.WriteByte(b)
				}
			}
			s := sp.String()
			if quoted {
				s = `"` + s + `"`
			} else if strings.HasPrefix(s, `"`) || strings.HasSuffix(s, `"`) {
				s += "a" // quotes around it would not belong to the set
				set.WriteByte('a')
				if s[0] == '"' {
					s = "b" + s
					set.WriteByte('b')
				}
			}
			a.Set, a.Spell = Q(set.String()), Q(s)
		}
		if f := a.function(); !used[f] {
			used[f] = true
			c.Args = append(c.Args, a)
		}
	}
	return c
}

// ---- the tables compiled into the packages ----

// byteContexts are texts with a place (\x00\x01) for any byte.
var byteContexts = []string{
	"@1", "@[1]", "[@]", "[@1]", "[1@]", "[1@,2]", "[1,@2]", "[1@2]", "[1 @]", "[[]@]", "[[]@,1]", "{@}", "{@\"a\":1}", "{\"a\"@:1}", "{\"a\":@1}", "{\"a\":1@}", "{\"a\":1@,\"b\":2}", "{\"a\":1,@\"b\":2}",
	"{\"a\":\"b\"@}", "{\"a\":[]@}", "{\"a\":{}@}", "[\"a\"@]", "[true@]", "[false@]", "[null@]", "[-1.5e3@]", "1@", "-1@", "0@", "12@ ", "@", "@@1", "[1@@]", "{\"a\":@@1}", "[-@]", "[-@1]", "[@0]", "[1.@]", "[1e@1]", "[1e+@]",
	"tru@", "[nul@]", "[fals@]", "[t@ue]", "[n@ll]", "[f@lse]", "[@ull]", "[@rue]", "[@alse]", "@true", "@\"a\"", "@{}", "[\"@\"]", "[\"\\@\"]", "[\"a@b\",1]", "{\"@\":1}", "{\"\\@\":1}",
	"[\"\\u@000\"]", "[\"\\u0@00\"]", "[\"\\u00@0\"]", "[\"\\u000@\"]",
}

// numberEnds: what ends a number at the place of a byte.
func checkByteContext(b byte, r *Rec) error {
	for _, ctx := range byteContexts {
		if err := checkMalformed(strings.ReplaceAll(ctx, "@", string([]byte{b})), `[1,{"a":"b"}]`, r); err != nil {
			return err
		}
	}
	end := refIsWS(b) || b == ',' || b == ']' || b == '}'
	for _, num := range []string{"1", "-12", "0.5", "1e7", "0"} {
		for _, after := range []string{"]", "2]", ",1]"} {
			s := "[" + num + string([]byte{b}) + after
			d := njson.Document{}
			n, _, err := d.Parse(s)
			if err != nil {
				continue
			}
			if e := n.Index(0); (e.Raw() == num) != end {
				return errf("first number of %q is %q", s, e.Raw())
			}
		}
	}
	// hex digits and escapes
	x := string([]byte{b})
	for _, s := range []string{`\u` + x + `123`, `\u0` + x + `61`, `\u00` + x + `1`, `\u006` + x, `\u` + x + x + x + x, `\ud83d\u` + x + `e00`, `\ud83d\ude0` + x, `\` + x, `a\` + x + `b`, `\\` + x, x, "a" + x + "b", `\ud83d` + x, x + `\n`} {
		if err := checkUnescaped(s, refUnescape(s), "p", 3); err != nil {
			return err
		}
	}
	for _, s := range []string{x, "a" + x, x + "a", "a" + x + "b", x + x, "é" + x, x + "é"} {
		for _, html := range []bool{false, true} {
			if err := checkEscaped(s, html, "pre", 5); err != nil {
				return err
			}
			e := strjson.Escaped(s, html, false)
			if plain := b >= 0x20 && b < 0x7f && b != '"' && b != '\\' && b != '/' && !strings.ContainsAny(x, "<>&"); plain && s != e {
				return errf("Escaped(%q) is %q: nothing to escape", s, e)
			}
		}
	}
	// digits
	for _, s := range []string{x, x + "1", "1" + x, "1" + x + "2", "-" + x, "1." + x, "1." + x + "5", "1e" + x, "1e" + x + "1", "1e+" + x, "-1" + x + "5", "0" + x, "123456789" + x + "123456789", x + x} {
		if err := checkParseFloat(s); err != nil {
			return err
		}
		if err := checkParseInts(s); err != nil {
			return err
		}
	}
	r.NonTrivial(true)
	return nil
}

func init() {
	regEnum("C32", "classes", "always: every built-in class, under its own and another name, all 256 entries read from the constants, and from the compiled functions", len(mapClasses)*2, len(mapClasses)*2,
		func(i int) MapCase {
			c := MapCase{Args: []MapArg{{Class: mapClasses[i/2]}, {Class: mapClasses[i/2], Name: "renamed"}, {Class: mapClasses[i/2], Name: "IsRenamed"}}}
			if i%2 == 1 {
				c.Run = true
				c.Args = c.Args[:2]
			}
			return c
		}, checkBytemaper)
	reg("C32", "tables", "always: runs of the tool with 1-6 classes and custom sets (escapes, quotes, non-ASCII), entries read from the constants", 6000, 100000,
		func(t *rapid.T) MapCase { return genMapCase(G{t}, false) }, checkBytemaper)
	reg("C32", "compiled", "always: runs of the tool with 1-6 classes and custom sets, the functions compiled and called for all 256 bytes", 80, 2000,
		func(t *rapid.T) MapCase { return genMapCase(G{t}, true) }, checkBytemaper)
	regEnum("C32", "public", "always: one byte value in every position class of a document, of a string body and of a number", 256, 256,
		func(i int) BlockCase { return BlockCase{i, i + 1} },
		func(c BlockCase, r *Rec) error { return checkByteContext(byte(c.From), r) })
}
