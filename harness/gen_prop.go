package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"go/ast"
	"go/parser"
	"go/token"

	"pgregory.net/rapid"
)

// The generator's output is compiled and run. A case holds the source of a
// package, the options of the CLI and what the compiled methods are tried on.

//go:embed gendata/prelude.go.txt
var genPrelude string

//go:embed gendata/driver.go.txt
var genDriver string

type genOp struct {
	Op, Type  string
	Doc, Doc2 Q      `json:",omitempty"`
	Bad       int    `json:",omitempty"`
	BadText   Q      `json:",omitempty"`
	NaN       int    `json:",omitempty"`
	Prefix    string `json:",omitempty"`
}

type genResult struct {
	Skip            bool
	Got, Want       string
	GotErr, WantErr string
	Lax             bool
	Note            string
}

// GenCase is one generated package.
type GenCase struct {
	Src   string   // types.go
	Twin  string   `json:",omitempty"` // twin.go: what encoding/json is given
	Types []string // the types with methods
	Flags []string `json:",omitempty"`
	Args  []string
	Ops   []genOp
}

// ---- running the tools ----

type genTools struct {
	cli, compile, link, importcfg, gopath string
}

func tools() genTools {
	t := genTools{cli: os.Getenv("PBT_NJSONGEN"), compile: os.Getenv("PBT_TOOLDIR") + "/compile", link: os.Getenv("PBT_TOOLDIR") + "/link",
		importcfg: os.Getenv("PBT_IMPORTCFG"), gopath: os.Getenv("PBT_GOPATH")}
	if t.cli == "" || t.importcfg == "" {
		panic(harnessBug{errors.New("the environment for generated code is not set up, use ./check")})
	}
	return t
}

// tool runs a tool of ours: it may not fail to start, or hang.
func tool(dir string, env []string, stdin []byte, limit time.Duration, name string, args ...string) (stdout, stderr []byte, code int) {
	stdout, stderr, code, late := run(dir, env, stdin, limit, name, args...)
	if late {
		panic(harnessBug{fmt.Errorf("%s took more than %s", name, limit)})
	}
	return stdout, stderr, code
}

// tested runs a program under test, which may hang.
func tested(dir string, env []string, stdin []byte, name string, args ...string) (stdout, stderr []byte, code int) {
	stdout, stderr, code, late := run(dir, env, stdin, 40*time.Second, name, args...)
	if late {
		panic(hangs{filepath.Base(name)})
	}
	return stdout, stderr, code
}

type hangs struct{ what string }

func (h hangs) Error() string { return h.what + " does not come to an end" }

func run(dir string, env []string, stdin []byte, limit time.Duration, name string, args ...string) (stdout, stderr []byte, code int, late bool) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	// Files, not pipes: a busy machine must not lose output.
	files := [3]*os.File{}
	for i, n := range []string{"in", "out", "err"} {
		f, err := os.CreateTemp(workDir(), "tool-"+n)
		if err != nil {
			panic(harnessBug{err})
		}
		defer os.Remove(f.Name())
		defer f.Close()
		files[i] = f
	}
	if _, err := files[0].Write(stdin); err != nil {
		panic(harnessBug{err})
	}
	if _, err := files[0].Seek(0, 0); err != nil {
		panic(harnessBug{err})
	}
	cmd.Stdin, cmd.Stdout, cmd.Stderr = files[0], files[1], files[2]
	if err := cmd.Start(); err != nil {
		panic(harnessBug{err})
	}
	var killed atomic.Bool
	timer := time.AfterFunc(limit, func() { killed.Store(true); cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	var ee *exec.ExitError
	switch {
	case err == nil:
	case killed.Load():
		late = true
	case errors.As(err, &ee) && ee.ExitCode() >= 0:
		code = ee.ExitCode()
	default:
		panic(harnessBug{fmt.Errorf("%s: %w", name, err)})
	}
	read := func(f *os.File) []byte {
		b, err := os.ReadFile(f.Name())
		if err != nil {
			panic(harnessBug{err})
		}
		return b
	}
	return read(files[1]), read(files[2]), code, late
}

func clip(b []byte) string {
	s := strings.TrimSpace(string(b))
	if len(s) > 1500 {
		s = s[:1500] + " ..."
	}
	return s
}

func genScratch() (string, func()) {
	dir, err := os.MkdirTemp(workDir(), "gen")
	if err != nil {
		panic(harnessBug{err})
	}
	return dir, func() { os.RemoveAll(dir) }
}

func mustWrite(path, text string) string {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(harnessBug{err})
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(harnessBug{err})
	}
	return path
}

func (t genTools) generate(dir string, flags []string, args ...string) (out, stderr []byte, code int) {
	return t.generateIn(dir, []string{"-p", dir}, flags, args...)
}

func (t genTools) generateIn(cwd string, path, flags []string, args ...string) (out, stderr []byte, code int) {
	all := append(append(append([]string{}, path...), flags...), args...)
	out, stderr, code = tested(cwd, []string{"GOPATH=" + t.gopath, "GOROOT=" + os.Getenv("PBT_GOROOT"), "GOMAXPROCS=2"}, nil, t.cli, all...)
	if bytes.Contains(stderr, []byte("can't find import")) {
		panic(harnessBug{fmt.Errorf("no export data: %s", clip(stderr))})
	}
	return
}

// compiles reports what the compiler says about a package.
func (t genTools) compiles(dir, pkg, out string, files ...string) error {
	args := append([]string{"-lang=go1.17", "-p", pkg, "-importcfg", t.importcfg, "-pack", "-c=2", "-o", out}, files...)
	stdout, stderr, code := tool(dir, []string{"GOMAXPROCS=2"}, nil, 150*time.Second, t.compile, args...)
	if code != 0 {
		return fmt.Errorf("%s", clip(append(stdout, stderr...)))
	}
	return nil
}

func (c *GenCase) registry() string {
	var b strings.Builder
	b.WriteString("package main\n\nvar registry = map[string][2]func() interface{}{\n")
	for _, t := range c.Types {
		x := t
		if c.Twin != "" {
			x = "X" + t
		}
		fmt.Fprintf(&b, "\t%q: {func() interface{} { return new(%s) }, func() interface{} { return new(%s) }},\n", t, t, x)
	}
	b.WriteString("}\n")
	return b.String()
}

// runGenerated generates, compiles, links and runs a case.
func runGenerated(c *GenCase) ([]genResult, error) {
	t := tools()
	dir, done := genScratch()
	defer done()
	pkg := filepath.Join(dir, "main")
	types := mustWrite(filepath.Join(pkg, "types.go"), c.Src)
	prelude := mustWrite(filepath.Join(pkg, "prelude.go"), genPrelude)
	code, stderr, rc := t.generate(pkg, c.Flags, c.Args...)
	if rc != 0 {
		return nil, fmt.Errorf("the generator failed with exit code %d: %s", rc, clip(stderr))
	}
	gen := mustWrite(filepath.Join(dir, "out", "main_njson.go"), string(code))
	files := []string{types, prelude}
	own := []string{mustWrite(filepath.Join(dir, "out", "driver.go"), genDriver), mustWrite(filepath.Join(dir, "out", "registry.go"), c.registry())}
	if c.Twin != "" {
		own = append(own, mustWrite(filepath.Join(dir, "out", "twin.go"), c.Twin))
	}
	obj := filepath.Join(dir, "out", "main.a")
	if err := t.compiles(dir, "main", obj, append(append(files, gen), own...)...); err != nil {
		// whose fault? The package must compile without the methods
		if err2 := t.compiles(dir, "main", obj, append(files, own...)...); err2 != nil {
			panic(harnessBug{fmt.Errorf("bad package: %w\n%s", err2, c.Src)})
		}
		return nil, fmt.Errorf("the generated code does not compile: %w", err)
	}
	exe := filepath.Join(dir, "out", "main.exe")
	if so, se, rc := tool(dir, []string{"GOMAXPROCS=2"}, nil, 150*time.Second, t.link, "-s", "-w", "-importcfg", t.importcfg, "-o", exe, obj); rc != 0 {
		panic(harnessBug{fmt.Errorf("link: %s %s", clip(so), clip(se))})
	}
	type wireOp struct {
		Op, Type, Doc, Doc2, BadText, Prefix string
		Bad, NaN                             int
	}
	wire := make([]wireOp, len(c.Ops))
	quote := func(q Q) string {
		if q == "" {
			return ""
		}
		return strconv.QuoteToASCII(string(q))
	}
	for i, o := range c.Ops {
		wire[i] = wireOp{o.Op, o.Type, quote(o.Doc), quote(o.Doc2), quote(o.BadText), o.Prefix, o.Bad, o.NaN}
	}
	so, se, rc := tested(dir, []string{"GOMAXPROCS=2"}, mustJSON(wire), exe)
	if rc != 0 {
		return nil, fmt.Errorf("the compiled program failed with exit code %d: %s", rc, clip(se))
	}
	var res []genResult
	if err := json.Unmarshal(so, &res); err != nil || len(res) != len(c.Ops) {
		return nil, fmt.Errorf("the compiled program gave no results: %v %s", err, clip(so))
	}
	return res, nil
}

func checkGenerated(c GenCase, r *Rec) error {
	res, err := runGenerated(&c)
	if err != nil {
		return err
	}
	used := 0
	for i, x := range res {
		o := c.Ops[i]
		fail := func(format string, args ...interface{}) error {
			return fmt.Errorf("%s of %s, document %.400s %.300s: %s", o.Op, o.Type, o.Doc, o.Doc2, fmt.Sprintf(format, args...))
		}
		if x.Skip {
			continue
		}
		if x.Note != "" {
			return fail("%s", x.Note)
		}
		switch {
		case x.GotErr != "" && x.WantErr != "":
			r.Label(true, o.Op+" refused")
			used++
			continue
		case x.GotErr != "":
			return fail("refused: %s", x.GotErr)
		case x.WantErr != "" && x.Lax:
			continue
		case x.WantErr != "":
			return fail("accepted, encoding/json says: %s", x.WantErr)
		}
		got, _ := strconv.Unquote(x.Got)
		want, _ := strconv.Unquote(x.Want)
		switch o.Op {
		case "enc", "nil":
			if err := sameOutput([]byte(got), []byte(want), false); err != nil {
				return fail("%v\ngot  %.600s\nwant %.600s", err, got, want)
			}
			r.Label(true, "encoded")
			if len(want) > 20 {
				used++
			}
		case "dec":
			if got != want {
				return fail("%s", diff(got, want))
			}
			r.Label(true, "decoded")
			r.Label(o.Doc2 != "", "decoded twice")
			used++
		}
	}
	r.NonTrivial(used >= 2)
	return nil
}

// ---- types ----

type gt struct {
	k     string // basic, lib, ptr, slice, map, struct, ref, any
	name  string // basic, lib
	ref   int
	key   *gt
	elem  *gt
	field []gf
}

type gf struct {
	name string // Go name, the type's name for embedded fields
	emb  bool
	tag  string // the whole tag without quotes
	t    gt
	// what the member is
	json string // "" if there is none
	omit bool
	raw  bool
	conf string // a comment for tests of the model, not printed
}

type libInfo struct {
	imp    string
	doc    func(g G, d *genDoc) string
	noMap  bool // methods with a pointer receiver: values in maps are not addressable
	elem   *gt  // what it is made of (for reuse of targets)
	key    bool
	omiter bool
	inline bool // a struct whose fields the options apply to
	simple bool // holds no slices, maps or pointers
}

var genLib map[string]*libInfo

func basicT(n string) *gt { return &gt{k: "basic", name: n} }

func (g G) textDoc() string {
	s := sanitize(g.goString(valOpts{validUTF8: true}))
	switch {
	case g.p(1, 25):
		s += "!"
	case g.p(1, 25):
		s = "!" + s
	}
	return g.spell(s)
}

func (g G) intDoc(d *genDoc, bits int) string {
	if d.wrong > 0 && g.p(1, 15) {
		return pick(g, "128", "-129", "32768", "-32769", "2147483648", "-2147483649", "9223372036854775808", "-9223372036854775809", "1.5", "1e19", "1e-1", "100000000000000000000000", "18446744073709551615")
	}
	return strconv.FormatInt(g.intOf(bits), 10)
}

func (g G) uintDoc(d *genDoc, bits int) string {
	if d.wrong > 0 && g.p(1, 15) {
		return pick(g, "256", "-1", "65536", "4294967296", "18446744073709551616", "1.5", "1e20", "-128", "99999999999999999999999")
	}
	return strconv.FormatUint(g.uintOf(bits), 10)
}

func init() {
	obj := func(d *genDoc, g G, kv ...string) string { // a fixed struct with members in any order, some missing
		var m []string
		for i := 0; i < len(kv); i += 2 {
			if !g.p(1, 6) {
				m = append(m, g.spell(kv[i])+":"+g.ws()+kv[i+1])
			}
		}
		if len(m) > 1 && g.p(1, 2) {
			m[0], m[len(m)-1] = m[len(m)-1], m[0]
		}
		return "{" + strings.Join(m, ",") + "}"
	}
	num := func(g G, d *genDoc) string { return g.numberFor(simpleDoc) }
	f32 := func(g G, d *genDoc) string {
		return strconv.FormatFloat(float64(g.float32()), 'g', -1, 32)
	}
	str := func(g G, d *genDoc) string { return `"` + g.strBody(4) + `"` }
	boo := func(g G, d *genDoc) string { return pick(g, "true", "false") }
	in := func(bits int) func(g G, d *genDoc) string {
		return func(g G, d *genDoc) string { return g.intDoc(d, bits) }
	}
	un := func(bits int) func(g G, d *genDoc) string {
		return func(g G, d *genDoc) string { return g.uintDoc(d, bits) }
	}
	via := func(t gt) func(g G, d *genDoc) string {
		return func(g G, d *genDoc) string { return d.doc(g, &t, 2) }
	}
	pq := func(g G, d *genDoc) string {
		return obj(d, g, "pqx", num(g, d), "Y", d.doc(g, &gt{k: "map", key: basicT("string"), elem: basicT("bool")}, 2))
	}
	genLib = map[string]*libInfo{
		"NStr":   {doc: str, key: true, simple: true},
		"NInt":   {doc: in(64), simple: true},
		"NI8":    {doc: in(8), simple: true},
		"NU16":   {doc: un(16), simple: true},
		"NU64":   {doc: un(64), simple: true},
		"NF32":   {doc: f32, simple: true},
		"NF64":   {doc: num, simple: true},
		"NBool":  {doc: boo, simple: true},
		"NSlice": {doc: via(gt{k: "slice", elem: basicT("string")})},
		"NMap":   {doc: via(gt{k: "map", key: basicT("string"), elem: basicT("int")})},
		"NPtr":   {doc: via(gt{k: "ptr", elem: basicT("int")})},
		"NDeep":  {doc: via(gt{k: "slice", elem: &gt{k: "slice", elem: &gt{k: "lib", name: "NF32"}}})},
		"NAny":   {doc: via(gt{k: "any"})},
		"PQ":     {inline: true, doc: pq},
		"PS": {inline: true, doc: func(g G, d *genDoc) string {
			pqs := make([]string, g.n(3))
			for i := range pqs {
				pqs[i] = pq(g, d)
			}
			pc := pq(g, d)
			if g.p(1, 4) {
				pc = "null"
			}
			ints := d.doc(g, &gt{k: "slice", elem: basicT("int")}, 2)
			return obj(d, g, "psa", g.intDoc(d, 64), "psb", str(g, d), "psc", pc, "D", "["+strings.Join(pqs, ",")+"]",
				"pse", obj(d, g, "pez", boo(g, d), "pfw", ints))
		}},
		"pq":       {doc: func(g G, d *genDoc) string { return "null" }},
		"CText":    {doc: func(g G, d *genDoc) string { return g.textDoc() }, simple: true},
		"CPtrText": {doc: func(g G, d *genDoc) string { return g.textDoc() }, simple: true, noMap: true},
		"CJSON": {doc: func(g G, d *genDoc) string {
			ss := make([]string, g.n(3))
			for i := range ss {
				ss[i] = g.textDoc()
			}
			return "[" + strings.Join(ss, ",") + "]"
		}, simple: true},
		"CArr":  {doc: func(g G, d *genDoc) string { return g.textDoc() }, simple: true},
		"CChan": {doc: func(g G, d *genDoc) string { return g.textDoc() }},
		"CNat": {doc: func(g G, d *genDoc) string {
			ss := make([]string, g.n(4))
			for i := range ss {
				ss[i] = g.spell(sanitize(g.goString(valOpts{validUTF8: true})))
			}
			return "[" + strings.Join(ss, ",") + "]"
		}, simple: true},
		"CIface":   {doc: func(g G, d *genDoc) string { return "null" }, simple: true, omiter: true},
		"CIfaceJ":  {doc: func(g G, d *genDoc) string { return "null" }, simple: true},
		"CIfaceT":  {doc: func(g G, d *genDoc) string { return "null" }, simple: true},
		"CIfaceA":  {doc: func(g G, d *genDoc) string { return "null" }, simple: true},
		"CKeyStr":  {doc: str, key: true},
		"nint":     {doc: in(64), simple: true},
		"CNum":     {doc: func(g G, d *genDoc) string { return `{"n":` + strconv.Itoa(g.n(1000)) + `}` }, simple: true},
		"CPtrJSON": {doc: func(g G, d *genDoc) string { return `{"pj":` + g.textDoc() + `}` }, simple: true, noMap: true},
		"CApp":     {doc: func(g G, d *genDoc) string { return g.textDoc() }, simple: true},
		"CPtrApp":  {doc: func(g G, d *genDoc) string { return g.textDoc() }, simple: true, noMap: true},
		"CKey":     {doc: func(g G, d *genDoc) string { return g.textDoc() }, simple: true, key: true},
		"COmit":    {doc: func(g G, d *genDoc) string { return `[` + pick(g, "0", "3", "4") + `]` }, simple: true, omiter: true},
		"COmitStr": {doc: func(g G, d *genDoc) string { return pick(g, `"omit"`, `""`, `"x"`) }, simple: true, omiter: true},
		"COmitPtr": {doc: func(g G, d *genDoc) string { return `[` + pick(g, "0", "3", "4") + `]` }, simple: true, omiter: true, noMap: true},
		"time.Time": {imp: "time", simple: true, doc: func(g G, d *genDoc) string {
			if d.wrong > 0 && g.p(1, 10) {
				return pick(g, `""`, `"x"`, `"2020-13-01T00:00:00Z"`, `"2020-02-30T00:00:00Z"`)
			}
			return pick(g, `"2020-01-02T03:04:05Z"`, `"0001-01-01T00:00:00Z"`, `"1999-12-31T23:59:59.123456789Z"`, `"2021-06-07T08:09:10+02:00"`, `"2021-06-07T08:09:10.5-11:30"`, `"\u00320\u0032\u0030-01-02T03:04:05Z"`)
		}},
		"time.Duration": {imp: "time", doc: in(64), simple: true},
		"url.Values":    {imp: "net/url", doc: via(gt{k: "map", key: basicT("string"), elem: &gt{k: "slice", elem: basicT("string")}})},
		"big.Int":       {imp: "math/big", noMap: true, simple: true, doc: func(g G, d *genDoc) string { return g.intDigits(g.rng(1, 40)) }},
		"net.IP": {imp: "net", simple: true, doc: func(g G, d *genDoc) string {
			if d.wrong > 0 && g.p(1, 10) {
				return pick(g, `"x"`, `"1.2.3"`)
			}
			return pick(g, `"1.2.3.4"`, `"::1"`, `"fe80::1:2"`, `""`)
		}},
		"image.Point": {inline: true, imp: "image", simple: true, doc: func(g G, d *genDoc) string { return obj(d, g, "X", g.intDoc(d, 64), "Y", g.intDoc(d, 64)) }},
		"image.Rectangle": {inline: true, imp: "image", simple: true, doc: func(g G, d *genDoc) string {
			p := func() string { return obj(d, g, "X", g.intDoc(d, 64), "Y", g.intDoc(d, 64)) }
			return obj(d, g, "Min", p(), "Max", p())
		}},
		"scanner.Position": {inline: true, imp: "text/scanner", simple: true, doc: func(g G, d *genDoc) string {
			return obj(d, g, "Filename", str(g, d), "Offset", g.intDoc(d, 64), "Line", g.intDoc(d, 64), "Column", g.intDoc(d, 64))
		}},
	}
}

var genBasics = []string{"string", "int", "bool", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64"}

// genPkg is a package being generated.
type genPkg struct {
	types   []gt // T0...
	noMap   bool // there are no maps: pointer receivers are fine everywhere
	encOnly bool
	names   int
	chain   bool
	opt     genOptions
	reserve map[string]bool
}

type genOptions struct {
	key          string // tag key
	caseMode     string
	omitempty    bool
	onlyTagged   bool
	onlyExported bool
	match        string
	rx           *regexp.Regexp
	model        bool // C29: names and choice by the options
}

func (t *gt) src(twin bool) string {
	switch t.k {
	case "basic", "lib":
		return t.name
	case "any":
		return "interface{}"
	case "ptr":
		return "*" + t.elem.src(twin)
	case "slice":
		return "[]" + t.elem.src(twin)
	case "map":
		return "map[" + t.key.src(twin) + "]" + t.elem.src(twin)
	case "ref":
		if twin {
			return "XT" + strconv.Itoa(t.ref)
		}
		return "T" + strconv.Itoa(t.ref)
	case "struct":
		return t.body(twin)
	}
	panic(harnessBug{errors.New(t.k)})
}

func (t *gt) body(twin bool) string {
	var b strings.Builder
	b.WriteString("struct {\n")
	for i, f := range t.field {
		name, tag := f.name+" ", f.tag
		if f.emb {
			name = ""
		}
		if twin {
			tag = f.twinTag()
			if f.name == "_" {
				name = "_ "
			} else if !f.emb || f.t.name == "nint" {
				name = fmt.Sprintf("F%d ", i)
			}
		}
		if tag != "" {
			tag = " `" + tag + "`"
		}
		typ := f.t.src(twin)
		if twin && f.raw {
			typ = "CRaw"
		}
		b.WriteString("\t" + name + typ + tag + "\n")
	}
	b.WriteString("}")
	return b.String()
}

// base is the struct or lib name behind a possible pointer.
func (f *gf) base() *gt {
	if f.t.k == "ptr" {
		return f.t.elem
	}
	return &f.t
}

func (f *gf) twinTag() string {
	if f.json == "" {
		if f.emb && f.base().k == "ref" && f.conf != "-" {
			return "" // promoted
		}
		return `json:"-"`
	}
	opt := ""
	if f.omit {
		opt = ",omitempty"
		if l := genLib[f.t.name]; f.t.k == "lib" && l.omiter {
			opt = ",omitzero"
		} else if f.t.k == "ptr" && f.t.elem.k == "lib" && genLib[f.t.elem.name].omiter {
			opt = ",omitzero"
		}
	}
	if f.json+opt == "-" {
		opt = ","
	}
	return "json:" + strconv.Quote(f.json+opt)
}

func (t *gt) imports(m map[string]bool) {
	if t.k == "lib" {
		if l := genLib[t.name]; l.imp != "" {
			m[l.imp] = true
		}
	}
	if t.elem != nil {
		t.elem.imports(m)
	}
	if t.key != nil {
		t.key.imports(m)
	}
	for i := range t.field {
		t.field[i].t.imports(m)
	}
}

func (p *genPkg) source(twin bool) string {
	var b strings.Builder
	b.WriteString("package main\n\n")
	m := map[string]bool{}
	for i := range p.types {
		p.types[i].imports(m)
	}
	var imps []string
	for i := range m {
		imps = append(imps, i)
	}
	sort.Strings(imps)
	for _, i := range imps {
		fmt.Fprintf(&b, "import %q\n", i)
	}
	for i := range p.types {
		x := "T"
		if twin {
			x = "XT"
		}
		fmt.Fprintf(&b, "\ntype %s%d %s\n", x, i, p.types[i].body(twin))
	}
	return b.String()
}

// member of a struct with the fields of embedded structs promoted.
type genMember struct {
	name  string
	depth int
	t     *gt
}

// promoted lists all candidates, hidden ones too.
func (p *genPkg) promoted(t *gt, depth int) (out []genMember) {
	for i := range t.field {
		f := &t.field[i]
		switch {
		case f.json != "":
			out = append(out, genMember{f.json, depth, &f.t})
		case f.emb && f.conf != "-" && f.base().k == "ref":
			out = append(out, p.promoted(&p.types[f.base().ref], depth+1)...)
		case f.emb && f.conf != "-" && f.base().name == "pq":
			out = append(out, genMember{"hidv", depth + 1, basicT("string")}, genMember{"V2", depth + 1, &gt{k: "ptr", elem: basicT("int")}})
		}
	}
	return
}

// members resolves the names by depth; ok is false if two of the least deep have the same name.
func (p *genPkg) members(t *gt) (out []genMember, ok bool) {
	all := p.promoted(t, 0)
	best := map[string]int{}
	for _, m := range all {
		if d, seen := best[m.name]; !seen || m.depth < d {
			best[m.name] = m.depth
		}
	}
	used := map[string]bool{}
	for _, m := range all {
		if m.depth != best[m.name] {
			continue
		}
		if used[m.name] {
			return nil, false
		}
		used[m.name] = true
		out = append(out, m)
	}
	return out, true
}

// typ draws the type of a field.
func (p *genPkg) typ(g G, i, depth int, inMap, anon bool) gt {
	k := g.n(20)
	switch {
	case depth <= 0 || k < 7:
		if g.p(2, 3) {
			return *basicT(pickS(g, genBasics))
		}
		return p.lib(g, inMap, anon)
	case k < 10:
		return p.lib(g, inMap, anon)
	case k < 12:
		e := p.typ(g, i, depth-1, inMap, anon)
		return gt{k: "ptr", elem: &e}
	case k < 14:
		e := p.typ(g, i, depth-1, inMap, anon)
		if e.k == "basic" && e.name == "uint8" {
			e.name = "uint32" // encoding/json writes []byte in base64
		}
		return gt{k: "slice", elem: &e}
	case k < 16 && !p.noMap:
		e := p.typ(g, i, depth-1, true, anon)
		key := basicT("string")
		if g.p(1, 3) {
			key = &gt{k: "lib", name: pick(g, "NStr", "CKey")}
			if p.encOnly && g.p(1, 2) {
				key.name = "CKeyStr"
			}
		}
		return gt{k: "map", key: key, elem: &e}
	case k < 17:
		return gt{k: "any"}
	case k < 18 && !anon:
		n := g.rng(0, 3)
		t := gt{k: "struct"}
		for j := 0; j < n; j++ {
			f := gf{t: p.typ(g, i, depth-1, inMap, true)}
			p.name(g, &t, &f)
			t.field = append(t.field, f)
		}
		if _, ok := p.members(&t); !ok {
			return *basicT("int")
		}
		return t
	case i > 0 && g.p(1, 2):
		return gt{k: "ref", ref: g.n(i)}
	case len(p.types) > 0: // any type, its own too, behind a pointer, slice or map
		e := &gt{k: "ref", ref: g.n(len(p.types))}
		kind := pick(g, "ptr", "slice", "map")
		if kind == "map" {
			if p.noMap {
				kind = "ptr"
			} else {
				return gt{k: "map", key: basicT("string"), elem: e}
			}
		}
		return gt{k: kind, elem: e}
	}
	return *basicT("string")
}

func (p *genPkg) lib(g G, inMap, anon bool) gt {
	if p.encOnly && g.p(1, 10) {
		return gt{k: "lib", name: pick(g, "CIfaceJ", "CIfaceT", "CIfaceA")}
	}
	for {
		n := pickS(g, libOrder)
		l := genLib[n]
		if n == "CKey" || l.noMap && (!p.noMap || inMap) || l.omiter && !p.opt.model || l.inline && p.opt.model || anon && l.imp != "" {
			n = pick(g, "NStr", "NInt", "CText", "NF32")
		}
		return gt{k: "lib", name: n}
	}
}

var libOrder = func() []string {
	return []string{"NStr", "NInt", "NI8", "NU16", "NU64", "NF32", "NF64", "NBool", "NSlice", "NMap", "NPtr", "NDeep", "NAny", "PQ", "PS", "CText", "CPtrText", "CJSON", "CNum", "CArr", "CChan", "CNat",
		"CPtrJSON", "CApp", "CPtrApp", "COmit", "COmitStr", "COmitPtr", "time.Time", "time.Duration", "url.Values", "big.Int", "net.IP", "image.Point", "image.Rectangle", "scanner.Position"}
}()

// words make Go names whose other cases are beyond doubt.
var genWords = []string{"Foo", "Bar", "Baz", "Qux", "Name", "User", "Item", "Count", "Total", "Kind", "Value", "Left", "Right", "Inner", "Outer", "Size"}

func (g G) words() []string {
	ws := []string{pickS(g, genWords)}
	for len(ws) < 3 && g.p(2, 3) {
		ws = append(ws, pickS(g, genWords))
	}
	if g.p(1, 6) && len(ws) > 1 {
		ws[len(ws)-1] = "ID"
	}
	return ws
}

func caseOf(mode string, ws []string) string {
	s := strings.Join(ws, "")
	switch mode {
	case "snake":
		return strings.ToLower(strings.Join(ws, "_"))
	case "lower":
		return strings.ToLower(s)
	case "camel":
		return strings.ToLower(ws[0]) + strings.Join(ws[1:], "")
	case "Camel":
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return ""
}

// name gives a field its name, tag and place in JSON.
func (p *genPkg) name(g G, t *gt, f *gf) {
	p.names++
	n := strconv.Itoa(p.names)
	var ws []string
	if !f.emb {
		if p.opt.model {
			for {
				ws = g.words()
				f.name = strings.Join(ws, "")
				if g.p(1, 8) {
					f.name = caseOf("camel", ws)
				}
				if strings.Contains("snake camel Camel", p.opt.caseMode) && p.opt.caseMode != "" && g.p(1, 6) {
					f.name = strings.Join(ws, "_")
				}
				if (p.opt.caseMode == "" || p.opt.caseMode == "lower") && g.p(1, 3) {
					f.name = pick(g, "A", "Field", "X_", "ID", "É", "HTTPServer", "Foo_bar", "hid", "Snake_Case_", "iOS") + n
					ws = []string{f.name}
				}
				clash := false
				for _, o := range t.field {
					clash = clash || strings.EqualFold(o.name, f.name)
				}
				if !clash {
					break
				}
			}
		} else {
			f.name = pick(g, "A", "Field", "X_", "ID", "É", "HTTPServer", "V") + n
			if p.opt.onlyExported && g.p(1, 10) {
				f.name = pick(g, "hid", "_x", "v") + n
			}
		}
	}
	exported := f.name[0] >= 'A' && f.name[0] <= 'Z' || strings.HasPrefix(f.name, "É")
	// the tag
	name, tagged := "", g.p(3, 5)
	var opts []string
	if tagged {
		if g.p(3, 4) {
			name = pick(g, "a", "b.c", "x-y", "a b", "$ref", "é", "<x>&", "名", "_", "a/b", "UPPER", "[0]", "\U0001f600:") + n
			if strings.ContainsAny(name, "\U0001f600") {
				name = "e:" + n // encoding/json takes letters, digits and some punctuation only
			}
			if g.p(1, 8) && f.name[0] != '_' {
				name = f.name
			}
			if g.p(1, 8) { // hides a promoted one
				if all := p.promoted(t, 0); len(all) > 0 {
					if m := pickS(g, all); m.depth > 0 {
						name = m.name
					}
				}
			}
			if g.p(1, 8) { // another one but for the case
				if all := p.promoted(t, 0); len(all) > 0 {
					name = pickS(g, all).name
					if low := strings.ToLower(name); low != name {
						name = low
					} else {
						name = strings.ToUpper(name)
					}
				}
			}
		}
		if g.p(1, 2) {
			opts = append(opts, "omitempty")
		}
		if f.t.k == "basic" && f.t.name == "string" || f.t.k == "lib" && f.t.name == "NStr" {
			if f.raw = p.opt.model && !f.emb && g.p(1, 4); f.raw {
				opts = append(opts, "raw")
				if g.p(1, 2) {
					opts[0], opts[len(opts)-1] = opts[len(opts)-1], opts[0]
				}
			}
		}
	}
	if g.p(1, 16) {
		tagged, name, opts, f.raw = true, "-", nil, false
		if g.p(1, 2) {
			opts = []string{pick(g, "", "omitempty")}
		}
	}
	key := "json"
	if p.opt.model {
		key = p.opt.key
	}
	f.tag = ""
	if p.opt.model && g.p(1, 3) {
		f.tag = pick(g, `xml:"foo,omitempty"`, `json:"other"`, `bson:"-"`, `yaml:"y,omitempty"`) + " "
		if strings.HasPrefix(f.tag, key+":") {
			f.tag = ""
		}
	}
	if tagged {
		f.tag += key + ":" + strconv.Quote(strings.Join(append([]string{name}, opts...), ","))
	}
	f.tag = strings.TrimSpace(f.tag)
	// what it means
	if name == "-" && opts == nil {
		f.conf = "-"
		return
	}
	if f.emb && f.base().k == "ref" && name == "" || f.emb && f.base().name == "pq" {
		return
	}
	o := &p.opt
	if !exported && o.onlyExported || o.onlyTagged && !tagged || o.rx != nil && !o.rx.MatchString(f.name) {
		f.conf = "-"
		return
	}
	f.json = name
	if name == "" {
		f.json = f.name
		if o.caseMode != "" {
			if ws == nil {
				ws = []string{f.name} // embedded, one of the N types
			}
			f.json = caseOf(o.caseMode, ws)
		}
	}
	f.omit = strings.Contains(strings.Join(opts, ","), "omitempty") || o.omitempty
}

func (p *genPkg) structType(g G, i int) {
	t := &p.types[i]
	// embedded first, so that names can hide theirs
	for n := max(g.n(3), b2i(p.chain)); n > 0 && i > 0; n-- {
		f := gf{emb: true, t: gt{k: "ref", ref: g.n(i)}}
		if link := p.chain && i > 0 && len(t.field) == 0; link {
			f.t.ref, f.name = i-1, "T"+strconv.Itoa(i-1)
			if g.p(2, 3) {
				e := f.t
				f.t = gt{k: "ptr", elem: &e}
			}
			t.field = append(t.field, f)
			continue
		}
		f.name = "T" + strconv.Itoa(f.t.ref)
		if !p.opt.model && g.p(1, 5) {
			f.t = gt{k: "lib", name: pick(g, "NStr", "NInt", "NMap", "NSlice")}
			if f.t.name == "NMap" && p.noMap {
				f.t.name = "NBool"
			}
			f.name = f.t.name
		} else if (p.opt.model || p.opt.onlyExported) && g.p(1, 6) {
			f.t = gt{k: "lib", name: "nint"}
			f.name = "nint"
		} else if !p.opt.model && p.opt.onlyExported && g.p(1, 4) {
			f.t = gt{k: "lib", name: "pq"}
			f.name = "pq"
			t.field = append(t.field, f)
			if _, ok := p.members(t); !ok || dupNames(t) {
				t.field = t.field[:len(t.field)-1]
			}
			continue
		}
		if g.p(1, 2) && f.t.k == "ref" {
			e := f.t
			f.t = gt{k: "ptr", elem: &e}
		}
		p.name(g, t, &f)
		if p.opt.model && f.base().k == "ref" && (strings.Contains(f.tag, p.opt.key+":") && f.json != "" || f.conf == "-") {
			// a named or left out embedded struct is fine, its name does not depend on the case
			if f.json == "" && !strings.Contains(f.tag, `"-`) {
				continue
			}
		}
		t.field = append(t.field, f)
		if _, ok := p.members(t); !ok || dupNames(t) {
			t.field = t.field[:len(t.field)-1]
		}
	}
	most, depth := 6, 3
	if p.chain {
		most, depth = 2, 1
	}
	for n := g.rng(1, most); n > 0; n-- {
		f := gf{t: p.typ(g, i, depth, false, false)}
		if p.opt.model && g.p(1, 12) {
			f.t = gt{k: "lib", name: "CIface"}
		}
		p.name(g, t, &f)
		t.field = append(t.field, f)
		if _, ok := p.members(t); !ok || dupNames(t) {
			t.field = t.field[:len(t.field)-1]
		}
	}
	if g.p(1, 12) {
		t.field = append(t.field, gf{name: "_", t: *basicT("int"), conf: "-"})
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func dupNames(t *gt) bool {
	m := map[string]bool{}
	for _, f := range t.field {
		if m[f.name] {
			return true
		}
		m[f.name] = true
	}
	return false
}

// ---- documents ----

type genDoc struct {
	p      *genPkg
	wrong  int // per mille
	nulls  bool
	noise  bool
	reuse  bool // no nulls in slices
	second bool // the document is for a target that holds data
}

func (d *genDoc) doc(g G, t *gt, depth int) string {
	if d.wrong > 0 && g.n(1000) < d.wrong {
		return g.anyDoc(simpleDoc, 1)
	}
	if d.nulls && (g.p(1, 14) || d.second && g.p(1, 6)) {
		return "null"
	}
	w := func() string {
		if d.noise {
			return g.ws()
		}
		return ""
	}
	switch t.k {
	case "lib":
		if t.name == "pq" {
			return "null"
		}
		return genLib[t.name].doc(g, d)
	case "any":
		return g.anyDoc(simpleDoc, 2)
	case "ptr":
		if depth <= 0 {
			return "null"
		}
		return d.doc(g, t.elem, depth-1)
	case "slice":
		n := g.size(4)
		if depth <= 0 {
			n = 0
		} else if g.p(1, 20) {
			n, depth = pick(g, 7, 17, 40), 1
		}
		var m []string
		nulls := d.nulls
		d.nulls = nulls && !d.reuse
		for i := 0; i < n; i++ {
			m = append(m, w()+d.doc(g, t.elem, depth-1)+w())
		}
		d.nulls = nulls
		if len(m) > 0 && depth <= 1 && g.p(1, 60) { // many
			m = []string{strings.Repeat(strings.Join(m, ",")+",", pick(g, 50, 300, 2100)) + m[0]}
		}
		return "[" + strings.Join(m, ",") + "]"
	case "map":
		n := g.size(4)
		if depth <= 0 {
			n = 0
		}
		var m []string
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := sanitize(g.goString(valOpts{validUTF8: true}))
			if t.key.name == "CKey" {
				k = strings.TrimSuffix(k, "\"k")
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			m = append(m, w()+g.spell(k)+w()+":"+w()+d.doc(g, t.elem, depth-1))
		}
		if depth == 1 && g.p(1, 30) { // many
			e := d.doc(g, t.elem, 0)
			for i := pick(g, 20, 100, 1100); i > 0; i-- {
				m = append(m, `"many `+strconv.Itoa(i)+`":`+e)
			}
		}
		return "{" + strings.Join(m, ",") + "}"
	case "ref":
		return d.object(g, &d.p.types[t.ref], depth-1, w)
	case "struct":
		return d.object(g, t, depth-1, w)
	}
	switch t.name {
	case "bool":
		return pick(g, "false", "true")
	case "string":
		return `"` + g.strBody(4) + `"`
	case "float64":
		return g.numberFor(simpleDoc)
	case "float32":
		if d.wrong > 0 && g.p(1, 15) {
			return pick(g, "1e39", "-3.5e38", "1e400")
		}
		return strconv.FormatFloat(float64(g.float32()), 'g', -1, 32)
	}
	bits := 64
	if i := strings.IndexAny(t.name, "1368"); i >= 0 {
		bits, _ = strconv.Atoi(t.name[i:])
	}
	if t.name[0] == 'u' {
		return g.uintDoc(d, bits)
	}
	return g.intDoc(d, bits)
}

func (d *genDoc) object(g G, t *gt, depth int, w func() string) string {
	ms, ok := d.p.members(t)
	if !ok {
		panic(harnessBug{errors.New("conflict")})
	}
	var m []string
	for _, x := range ms {
		if depth < 0 && g.p(1, 2) || d.noise && g.p(1, 6) || x.t.name == "CIface" { // that is not decoded
			continue
		}
		m = append(m, w()+g.spell(x.name)+w()+":"+w()+d.doc(g, x.t, depth)+w())
	}
	if d.noise && len(m) > 1 && g.p(1, 2) {
		i, j := g.n(len(m)), g.n(len(m))
		m[i], m[j] = m[j], m[i]
	}
	if d.noise && g.p(1, 4) {
		x := w() + g.spell(pick(g, "", "zz unknown", "zz\"\\", "zzü")) + ":" + g.anyDoc(simpleDoc, 1)
		i := g.n(len(m) + 1)
		m = append(m[:i], append([]string{x}, m[i:]...)...)
	}
	return "{" + strings.Join(m, ",") + w() + "}"
}

// flat: decoding a second document into it does what encoding/json documents.
// (What it does with old elements of slices is not documented.)
func (p *genPkg) flat(t *gt, inSlice bool, seen map[int]bool) bool {
	switch t.k {
	case "basic", "any":
		return true
	case "lib":
		switch t.name {
		case "NAny":
			return true
		case "NSlice", "NMap", "NPtr", "url.Values", "PQ", "CChan":
			return !inSlice
		}
		return genLib[t.name].simple && (!inSlice || t.name[0] == 'N')
	case "slice":
		return !inSlice && p.flat(t.elem, true, seen)
	case "map":
		return !inSlice
	case "ptr":
		return !inSlice && p.flat(t.elem, false, seen)
	case "struct":
		if inSlice {
			return false
		}
		for i := range t.field {
			if !p.flat(&t.field[i].t, false, seen) {
				return false
			}
		}
		return true
	case "ref":
		if inSlice {
			return false
		}
		if seen[t.ref] {
			return true
		}
		seen[t.ref] = true
		return p.flat(&p.types[t.ref], false, seen)
	}
	return false
}

// keysClash: a member name spelled in another case, or twice.
func (p *genPkg) keysClash(text string) bool {
	names := map[string]bool{}
	var add func(t *gt)
	add = func(t *gt) {
		for _, m := range p.promoted(t, 0) {
			names[m.name] = true
		}
		for i := range t.field {
			add(&t.field[i].t)
		}
		if t.elem != nil {
			add(t.elem)
		}
	}
	for i := range p.types {
		add(&p.types[i])
	}
	for _, n := range []string{"psa", "psb", "psc", "D", "pse", "pqx", "Y", "pez", "pfw", "X", "Min", "Max", "Filename", "Offset", "Line", "Column", "S", "N", "A", "n", "pj"} {
		names[n] = true
	}
	v := mustRef(text)
	bad := false
	v.walk(func(v *JV) {
		seen := map[string]bool{}
		for _, k := range v.Keys {
			k = decodeBody(k)
			l := k
			if !names[k] {
				l = strings.ToLower(k)
			}
			if seen[l] {
				bad = true
			}
			seen[l] = true
			if names[k] {
				continue
			}
			for n := range names {
				if strings.EqualFold(n, k) {
					bad = true
				}
			}
		}
	})
	return bad
}

func (p *genPkg) ops(g G, enc, dec bool) (ops []genOp) {
	for i := range p.types {
		typ := "T" + strconv.Itoa(i)
		t := gt{k: "ref", ref: i}
		d := &genDoc{p: p}
		add := func(o genOp) {
			for _, s := range []Q{o.Doc, o.Doc2} {
				if s != "" && p.keysClash(string(s)) {
					return
				}
			}
			ops = append(ops, o)
		}
		for n := 8; enc && n > 0; n-- {
			*d = genDoc{p: p, nulls: g.p(1, 2), noise: true}
			o := genOp{Op: "enc", Type: typ, Doc: Q(d.doc(g, &t, g.rng(1, 5))), Prefix: pick(g, "", "", "x", "{\"a\":")}
			if n == 8 {
				o.Doc = "{}"
			}
			if g.p(1, 4) {
				o.Bad, o.BadText = g.rng(1, 4), Q(g.goString(valOpts{}))
			}
			if g.p(1, 8) {
				o.NaN = g.rng(1, 3)
			}
			add(o)
		}
		if enc {
			add(genOp{Op: "nil", Type: typ, Prefix: "p"})
		}
		for n := 12; dec && n > 0; n-- {
			*d = genDoc{p: p, nulls: g.p(1, 2), noise: true}
			if n > 8 {
				d.wrong = pick(g, 15, 60, 250)
			}
			o := genOp{Op: "dec", Type: typ, Doc: Q(d.doc(g, &t, g.rng(1, 5)))}
			if p.flat(&t, false, map[int]bool{}) && g.p(1, 2) {
				d.wrong, d.reuse = 0, true
				o.Doc = Q(d.doc(g, &t, 4))
				d.second, d.nulls = true, g.p(2, 3)
				o.Doc2 = Q(d.doc(g, &t, 4))
			}
			add(o)
		}
		if dec {
			add(genOp{Op: "inv", Type: typ})
		}
	}
	return
}

func genPackage(g G, opt genOptions, enc, dec bool) GenCase {
	p := &genPkg{opt: opt, noMap: g.p(1, 3), encOnly: !dec}
	n := g.rng(1, 4)
	if g.p(1, 8) { // every type embeds the one before
		n, p.chain = g.rng(5, 8), true
	}
	p.types = make([]gt, n)
	c := GenCase{}
	for i := range p.types {
		p.types[i].k = "struct"
		p.structType(g, i)
		c.Types = append(c.Types, "T"+strconv.Itoa(i))
	}
	c.Src = p.source(false)
	if opt.model {
		c.Twin = p.source(true)
	}
	c.Ops = p.ops(g, enc, dec)
	c.Args = []string{"main", `^T\d`}
	return c
}

// plainPackage: the options only differ in what encoding/json does anyway.
func plainPackage(g G, enc, dec bool) GenCase {
	opt := genOptions{}
	var flags []string
	if g.p(1, 2) {
		opt.onlyExported = true
		flags = append(flags, "-only-exported")
	}
	if !dec {
		flags = append(flags, "-append")
	}
	if !enc {
		flags = append(flags, "-unmarshal")
	}
	c := genPackage(g, opt, enc, dec)
	c.Flags = flags
	return c
}

// modelPackage: any options, the twin has what they mean in its tags.
func modelPackage(g G) GenCase {
	opt := genOptions{model: true, key: pick(g, "json", "json", "njson", "k")}
	var flags []string
	if opt.key != "json" || g.p(1, 4) {
		flags = append(flags, "-k", opt.key)
	}
	if g.p(1, 2) {
		opt.caseMode = pick(g, "snake", "lower", "camel", "Camel")
		flags = append(flags, "-case", opt.caseMode)
	} else if g.p(1, 6) {
		flags = append(flags, "-case", "none")
	}
	if g.p(1, 3) {
		opt.omitempty = true
		flags = append(flags, "-omitempty")
	}
	if g.p(1, 4) {
		opt.onlyTagged = true
		flags = append(flags, "-only-tagged")
	}
	if g.p(1, 3) {
		opt.onlyExported = true
		flags = append(flags, "-only-exported")
	}
	if g.p(1, 4) {
		opt.match = pick(g, "^[A-K]", "o", "r$", "(Foo|Bar|foo|bar)", "^[^Uu]", ".")
		opt.rx = regexp.MustCompile(opt.match)
		flags = append(flags, "-match", opt.match)
	}
	for i := len(flags) - 1; i > 0; i-- { // -x=y as well
		if i > 0 && strings.HasPrefix(flags[i-1], "-") && !strings.HasPrefix(flags[i], "-") && g.p(1, 3) {
			flags[i-1] += "=" + flags[i]
			flags = append(flags[:i], flags[i+1:]...)
		}
	}
	c := genPackage(g, opt, true, true)
	c.Flags = flags
	return c
}

// ---- selection, files and determinism ----

// SelCase is a package of many types of which some are selected.
type SelCase struct {
	Pkg   string
	Files map[string]string
	Args  []string
	Flags []string
	Want  []string // types with methods
	App   bool
	Unm   bool
	Dir   string `json:",omitempty"` // name of the directory, if it is not the package's
	Rec   bool   `json:",omitempty"` // there is a recursive type without methods, which code for others would need
	Stale int    `json:",omitempty"` // members of a type in an older, longer output
	Cwd   int    `json:",omitempty"` // how the directory is named: absolute, not at all, relative
	Fault string `json:",omitempty"` // what is wrong with a run on a package that is fine
}

func generatedMethods(src []byte) (map[string]bool, string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "gen.go", src, 0)
	if err != nil {
		return nil, "", err
	}
	m := map[string]bool{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				continue
			}
			return nil, "", fmt.Errorf("unexpected declaration")
		}
		recv := ""
		if fd.Recv != nil && len(fd.Recv.List) == 1 {
			if s, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					recv = id.Name
				}
			}
		}
		k := recv + "." + fd.Name.Name
		if m[k] {
			return nil, "", fmt.Errorf("method %s is there twice", k)
		}
		m[k] = true
	}
	return m, f.Name.Name, nil
}

func keysOf(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

var rxStamp = regexp.MustCompile(`(?m)^// Code generated by njson on .*; DO NOT EDIT\.$`)

func checkSelect(c SelCase, r *Rec) error {
	t := tools()
	dir, done := genScratch()
	defer done()
	pkg := filepath.Join(dir, c.Pkg)
	if c.Dir != "" {
		pkg = filepath.Join(dir, c.Dir)
	}
	var files []string
	for name, src := range c.Files {
		f := mustWrite(filepath.Join(pkg, name), src)
		if strings.HasSuffix(name, "_test.go") == strings.HasSuffix(c.Pkg, "_test") {
			files = append(files, f)
		}
	}
	sort.Strings(files)
	args := c.Args
	want := map[string]bool{}
	for _, w := range c.Want {
		if c.App {
			want[w+".AppendJSON"] = true
		}
		if c.Unm {
			want[w+".UnmarshalNodeJSON"] = true
		}
	}
	cwd, path := pkg, []string{"-p", pkg}
	switch c.Cwd {
	case 1: // the current directory
		path = nil
	case 2:
		cwd, path = dir, []string{"-p", filepath.Base(pkg)}
	case 3:
		path = []string{"-p", "../" + filepath.Base(pkg) + "/."}
	}
	one, stderr, rc := t.generateIn(cwd, path, c.Flags, args...)
	if len(want) == 0 {
		if rc == 0 {
			return fmt.Errorf("no type is selected, the exit code is 0, output %s", clip(one))
		}
		if len(one) > 0 {
			return fmt.Errorf("no type is selected, output %s", clip(one))
		}
		return nil
	}
	if rc != 0 {
		return fmt.Errorf("exit code %d: %s", rc, clip(stderr))
	}
	got, name, err := generatedMethods(one)
	if err != nil {
		return fmt.Errorf("output: %w\n%s", err, clip(one))
	}
	if name != c.Pkg {
		return fmt.Errorf("output is of package %s", name)
	}
	if keysOf(got) != keysOf(want) {
		return fmt.Errorf("methods are\n%s\nwant\n%s", keysOf(got), keysOf(want))
	}
	if len(rxStamp.FindAll(one, -1)) != 1 || !rxStamp.Match(bytes.SplitN(one, []byte("\n"), 2)[0]) {
		return fmt.Errorf("no single header line that marks the code as generated: %.200s", one)
	}
	strip := func(b []byte) string { return string(rxStamp.ReplaceAll(b, []byte("//"))) }
	two, _, _ := t.generateIn(cwd, path, c.Flags, args...)
	if strip(one) != strip(two) {
		return fmt.Errorf("two runs differ: %s", diff(strip(two), strip(one)))
	}
	outName := c.Pkg + "_njson.go"
	if strings.HasSuffix(c.Pkg, "_test") {
		outName = strings.TrimSuffix(c.Pkg, "_test") + "_njson_test.go"
	}
	// a file, and again with that file in place
	if c.Stale > 0 {
		var old strings.Builder
		fmt.Fprintf(&old, "// Code generated by njson on Mon, 02 Jan 2006 15:04:05 UTC; DO NOT EDIT.\npackage %s\n\nfunc (o *%s) AppendJSON(out []byte) ([]byte, error) {\n", c.Pkg, c.Want[0])
		for i := 0; i < c.Stale; i++ {
			fmt.Fprintf(&old, "\t// an old member %d\n\tout = append(out, `\"old%d\"`...)\n", i, i)
		}
		old.WriteString("\treturn out, nil\n}\n")
		mustWrite(filepath.Join(pkg, outName), old.String())
	}
	for i := 0; i < 2; i++ {
		so, se, rc := t.generateIn(cwd, path, append([]string{"-w"}, c.Flags...), args...)
		if rc != 0 || len(so) > 0 {
			return fmt.Errorf("-w, run %d: exit code %d, output %s %s", i+1, rc, clip(so), clip(se))
		}
		b, err := os.ReadFile(filepath.Join(pkg, outName))
		if err != nil {
			return fmt.Errorf("-w: %w", err)
		}
		if strip(b) != strip(one) {
			return fmt.Errorf("-w, run %d, writes something else: %s", i+1, diff(strip(b), strip(one)))
		}
	}
	for n := range c.Files { // the sources are as they were
		b, err := os.ReadFile(filepath.Join(pkg, n))
		if err != nil || string(b) != c.Files[n] {
			return fmt.Errorf("source file %s changed (%v)", n, err)
		}
	}
	r.NonTrivial(len(c.Want) >= 1)
	r.Label(len(c.Want) > 1, "several types")
	r.Label(len(c.Args) > 2, "several arguments")
	r.Label(!c.App || !c.Unm, "one method")
	r.Label(c.Stale > 0, "older output")
	r.Label(c.Cwd > 0, "relative path")
	if c.Rec {
		return nil
	}
	obj := filepath.Join(dir, "x.a")
	if err := t.compiles(dir, c.Pkg, obj, append(files, filepath.Join(pkg, outName))...); err != nil {
		if err2 := t.compiles(dir, c.Pkg, obj, files...); err2 != nil {
			panic(harnessBug{fmt.Errorf("bad package: %w", err2)})
		}
		return fmt.Errorf("the generated code does not compile: %w", err)
	}
	return nil
}

// checkGenRefuse: a selected type with a member that cannot be encoded.
func checkGenRefuse(c SelCase, r *Rec) error {
	t := tools()
	dir, done := genScratch()
	defer done()
	pkg := filepath.Join(dir, c.Pkg)
	for name, src := range c.Files {
		mustWrite(filepath.Join(pkg, name), src)
	}
	r.NonTrivial(true)
	r.Label(c.Fault != "", "fault: "+c.Fault)
	var out, stderr []byte
	var rc int
	switch c.Fault {
	case "path":
		out, stderr, rc = t.generateIn(pkg, []string{"-p", filepath.Join(dir, "nothing")}, c.Flags, c.Args...)
	case "full":
		args := append(append([]string{"-c", `exec "$@" > /dev/full`, "sh", t.cli, "-p", pkg}, c.Flags...), c.Args...)
		out, stderr, rc = tested(pkg, []string{"GOPATH=" + t.gopath, "GOROOT=" + os.Getenv("PBT_GOROOT")}, nil, "/bin/sh", args...)
	case "dirout":
		name := filepath.Join(pkg, c.Pkg+"_njson.go")
		if err := os.Mkdir(name, 0o755); err != nil {
			panic(harnessBug{err})
		}
		out, stderr, rc = t.generate(pkg, c.Flags, c.Args...)
		if err := os.Remove(name); err != nil {
			panic(harnessBug{err})
		}
	default:
		out, stderr, rc = t.generate(pkg, c.Flags, c.Args...)
	}
	if rc == 0 {
		return fmt.Errorf("exit code 0, output %s", clip(out))
	}
	if len(out) > 0 {
		return fmt.Errorf("output in spite of an error: %s", clip(out))
	}
	if len(bytes.TrimSpace(stderr)) == 0 {
		return fmt.Errorf("exit code %d without a message", rc)
	}
	if bytes.Contains(stderr, []byte("goroutine ")) {
		return fmt.Errorf("the generator panics: %s", clip(stderr))
	}
	if _, err := os.Stat(filepath.Join(pkg, c.Pkg+"_njson.go")); !os.IsNotExist(err) {
		return fmt.Errorf("a file was written in spite of an error (%v)", err)
	}
	return nil
}

// genFault is a package that is fine and a run that is not.
func genFault(g G) SelCase {
	src := "package foo\n\ntype Aaa struct { A int }\n\ntype Zzz struct { Z string }\n"
	c := SelCase{Pkg: "foo", Files: map[string]string{"a.go": src}}
	c.Args = pick(g, []string{"foo"}, []string{"foo", "Aaa"}, []string{"foo", "*"}, []string{"foo", "A+", "Zzz"})
	c.Flags = pick(g, nil, []string{"-append"}, []string{"-w"}, []string{"-unmarshal"})
	c.Fault = pick(g, "match", "pattern", "full", "dirout", "path", "syntax", "pkg", "flag")
	bad := pick(g, "(", "[", "a**", "x{2,1}", "(?<", `\`, "[z-a]")
	switch c.Fault {
	case "match":
		c.Flags = append(c.Flags, "-match", bad)
	case "pattern":
		c.Args = append(c.Args, bad)
	case "full":
		c.Flags = pick(g, nil, []string{"-append"}, []string{"-unmarshal"})
	case "dirout":
		c.Flags = []string{"-w"}
	case "syntax":
		c.Files[pick(g, "a.go", "b.go", "z.go")] = pick(g, "package foo\n\ntype B struct {\n", "package foo\n\nfunc f( {}\n", "package foo\n\ntype struct B {}\n", "packag foo\n", "package foo\n\nvar s = \"x\n")
	case "pkg":
		c.Args[0] = pick(g, "bar", "fo", "fooo", "Foo", "foo_test")
	case "flag":
		c.Flags = append(c.Flags, pick(g, "-nosuch", "-w=maybe", "-append=2x"))
	}
	return c
}

func genRefuse(g G) SelCase {
	if g.p(1, 2) {
		return genFault(g)
	}
	bad := pick(g, "chan int", "func()", "complex64", "complex128", "interface{ M() }", "map[int]string", "map[bool]int", "[3]int", "error", "uintptr2", "fmt.Stringer")
	imp := ""
	if bad == "fmt.Stringer" {
		imp = "import \"fmt\"\n\n"
	}
	if bad == "uintptr2" {
		bad = "struct { C chan int }"
	}
	for g.p(1, 2) {
		bad = pick(g, "*", "[]", "map[string]") + bad
	}
	field := "Bad " + bad
	if g.p(1, 3) {
		field += " `json:\"bad,omitempty\"`"
	}
	before, after := "", ""
	for g.p(1, 2) {
		before += fmt.Sprintf("\tB%d string\n", len(before))
	}
	for g.p(1, 2) {
		after += fmt.Sprintf("\tA%d []int\n", len(after))
	}
	src := fmt.Sprintf("package foo\n\n%stype Mid struct {\n%s\t%s\n%s}\n\ntype Aaa struct { A int }\n\ntype Zzz struct { Z string }\n", imp, before, field, after)
	c := SelCase{Pkg: "foo", Files: map[string]string{"a.go": src}}
	c.Args = pick(g, nil, []string{"foo"}, []string{"foo", "Mid"}, []string{"foo", "Aaa", "Mid"}, []string{"foo", "*"}, []string{"foo", "^M"})
	c.Flags = pick(g, nil, []string{"-append"}, []string{"-w"}, []string{"-w", "-append"}, []string{"-only-exported"})
	return c
}

func genSelect(g G) SelCase {
	c := SelCase{Pkg: pick(g, "foo", "models", "api_v2", "x", "main", "njsonx", "foo_test"), Files: map[string]string{}}
	var structs []string
	used, recursive := map[string]bool{}, map[string]bool{}
	src, headed := map[string]*strings.Builder{}, map[*strings.Builder]bool{}
	file := func() *strings.Builder {
		n := pick(g, "a.go", "b.go", "zz.go")
		if strings.HasSuffix(c.Pkg, "_test") {
			n = pick(g, "a_test.go", "b_test.go", "zz_test.go")
		}
		if src[n] == nil {
			src[n] = &strings.Builder{}
			head := pick(g, "", "", "", "// Code generated by stringer; DO NOT EDIT.\n\n", "// Package is a package.\n", "/* Copyright */\n\n// A comment\n\n")
			headed[src[n]] = head != ""
			fmt.Fprintf(src[n], "%spackage %s\n", head, c.Pkg)
		}
		return src[n]
	}
	simple := func() string {
		return pick(g, "int", "string", "bool", "float64", "[]string", "map[string]int", "*int", "[]*string", "interface{}", "uint8", "map[string][]float32")
	}
	for n := g.rng(1, 7); n > 0; n-- {
		name := pick(g, "User", "Item", "Order", "user", "UserItem", "OrderList", "Ünit", "_hidden", "A", "B2", "XMLDoc", "Users", "Item2", "value", "List", "V")
		if used[name] {
			continue
		}
		used[name] = true
		b := file()
		if headed[b] && g.p(1, 4) {
			b.WriteString("\n// Code generated by njson is somewhere else.\n")
		}
		switch k := g.n(10); {
		case k == 0:
			fmt.Fprintf(b, "\ntype %s %s\n", name, pick(g, "int", "[]string", "map[string]bool", "func()", "interface{}", "*int"))
			continue
		case k == 1 && len(structs) > 0:
			fmt.Fprintf(b, "\ntype %s %s\n", name, pickS(g, structs)) // defined from another struct
		case k == 2:
			fmt.Fprintf(b, "\n// %s is a struct.\ntype (\n\t%s struct{ N %s }\n)\n", name, name, simple())
		default:
			fmt.Fprintf(b, "\ntype %s struct {\n", name)
			for i := 0; i < g.n(5); i++ {
				fmt.Fprintf(b, "\tF%d %s", i, simple())
				if g.p(1, 2) {
					fmt.Fprintf(b, " `json:\"f%d%s\"`", i, pick(g, "", ",omitempty"))
				}
				b.WriteString("\n")
			}
			if g.p(1, 3) {
				to := pickS(g, append([]string{name}, structs...))
				fmt.Fprintf(b, "\tRef %s%s\n", pick(g, "*", "[]", "map[string]"), to)
				recursive[name] = to == name
			}
			b.WriteString("}\n")
		}
		structs = append(structs, name)
	}
	if len(src) == 0 {
		file()
	}
	for n, b := range src {
		c.Files[n] = b.String()
	}
	if g.p(1, 3) {
		c.Stale = g.rng(1, 200)
	}
	if c.Pkg == "foo_test" && g.p(1, 2) {
		c.Files["lib.go"] = "package foo\n\ntype InTest struct { A int }\n"
	} else if g.p(1, 4) && c.Pkg != "foo_test" {
		c.Files["some_test.go"] = "package " + c.Pkg + "\n\ntype InTest struct { A int }\n"
	}
	c.Cwd = g.n(4)
	c.App, c.Unm = true, true
	switch g.n(4) {
	case 0:
		c.Flags, c.Unm = []string{"-append"}, false
	case 1:
		c.Flags, c.App = []string{"-unmarshal"}, false
	case 2:
		c.Flags = pick(g, nil, []string{"-append", "-unmarshal"})
	}
	all := false
	if g.p(1, 6) {
		all = true
		if g.p(1, 2) {
			c.Args = []string{c.Pkg}
		} else if g.p(1, 3) {
			c.Dir = c.Pkg + pick(g, ".v2", ".go", ".x")
		}
	} else {
		if g.p(1, 6) {
			c.Dir = pick(g, "elsewhere", "a.b.c")
		}
		c.Args = []string{c.Pkg}
		for n := pick(g, 1, 2, 3, 3, 5); n > 0; n-- {
			a := pick(g, "Order*?", "X?$", "User", "Item", "^O", "User.*", "*", "Order", "List$", "^[A-Z]", "[0-9]", "NoSuch", "InTest", "^User$", "user", "^(A|B2)$", "Ünit", "(?i)^user", "s")
			if len(structs) > 0 && g.p(1, 2) {
				a = pickS(g, structs)
			}
			c.Args = append(c.Args, a)
		}
	}
	for _, s := range structs {
		ok := all
		for _, a := range c.Args[min(1, len(c.Args)):] {
			switch {
			case a == "*":
				ok = true
			case strings.ContainsAny(a, `\.+*?()|[]{}^$`):
				ok = ok || regexp.MustCompile(a).MatchString(s)
			default:
				ok = ok || a == s
			}
		}
		if ok {
			c.Want = append(c.Want, s)
		}
	}
	sort.Strings(c.Want)
	for name, is := range recursive {
		c.Rec = c.Rec || is && !slices.Contains(c.Want, name)
	}
	return c
}

func init() {
	reg("C27", "encode", "at least 2 values were encoded to more than 20 bytes, or refused by both", 240, 6000,
		func(t *rapid.T) GenCase { return plainPackage(G{t}, true, false) }, checkGenerated)
	reg("C28", "decode", "at least 2 documents were decoded, or refused by both", 240, 6000,
		func(t *rapid.T) GenCase { return plainPackage(G{t}, false, true) }, checkGenerated)
	reg("C29", "members", "at least 2 values were encoded or decoded through the named members", 160, 4000,
		func(t *rapid.T) GenCase { return modelPackage(G{t}) }, checkGenerated)
	reg("C29", "refuse", "always: a selected type has a member of a type without an encoding", 160, 3000,
		func(t *rapid.T) SelCase { return genRefuse(G{t}) }, checkGenRefuse)
	reg("C29", "select", "at least one type is selected", 160, 4000,
		func(t *rapid.T) SelCase { return genSelect(G{t}) }, checkSelect)
}
