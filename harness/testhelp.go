package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/alxarch/njson"
	"github.com/alxarch/njson/njsontest"
	"pgregory.net/rapid"
)

// HelpCase is one use of an njsontest helper on a double whose behaviour is
// scripted.
type HelpCase struct {
	Helper string    `json:"helper"`         // append or unmarshal
	Recv   string    `json:"recv"`           // V: methods on the value, P: on the pointer, M: a map with methods
	X      Q         `json:"x"`              // content of the value
	L      string    `json:"l,omitempty"`    // kind of list in the value
	OutL   string    `json:"outl,omitempty"` // kind of list stored
	Opts   []HelpOpt `json:"opts"`
	// What the method under test does.
	Out  Q      `json:"out"`             // bytes returned or content stored
	OutX bool   `json:"outx,omitempty"`  // Out is what json.Marshal gives, or X itself
	Err  string `json:"err,omitempty"`   // error returned: A, B or other text
	Nest bool   `json:"nest,omitempty"`  // the method parses with pooled documents
	Twic bool   `json:"twice,omitempty"` // the test runs twice
}

// HelpOpt is one option.
type HelpOpt struct {
	O string `json:"o"` // method, json, value, error, nil
	K string `json:"k"` // kind of argument
	S Q      `json:"s"` // its text
}

var (
	errHelpA = errors.New("error A")
	errHelpB = errors.New("error B")
)

// script is what the doubles do; one case runs at a time.
var script struct {
	c     *HelpCase
	calls []string // method names with their arguments
}

func scriptErr() error {
	switch script.c.Err {
	case "":
		return nil
	case "A":
		return errHelpA
	case "B":
		return errHelpB
	}
	return errors.New(script.c.Err)
}

func scriptAppend(name string, x interface{}, b []byte) ([]byte, error) {
	script.calls = append(script.calls, fmt.Sprintf("%s %q", name, b))
	if err := scriptErr(); err != nil {
		return nil, err
	}
	if script.c.OutX {
		j, err := json.Marshal(x)
		return append(b, j...), err
	}
	return append(b, script.c.Out...), nil
}

func scriptUnmarshal(name string, s *string, l *[]string, n njson.Node) error {
	j, err := n.AppendJSON(nil)
	if err != nil {
		return err
	}
	if script.c.Nest {
		d := njson.Blank()
		d.Parse(`{"other":["document"]}`)
		d.Close()
	}
	again, _ := n.AppendJSON(nil)
	script.calls = append(script.calls, fmt.Sprintf("%s %q %q", name, j, again))
	if script.c.OutX {
		*s, *l = string(script.c.X), helpList(script.c.L)
	} else {
		*s, *l = string(script.c.Out), helpList(script.c.OutL)
	}
	return scriptErr()
}

type (
	// HelpV has its append methods on the value.
	HelpV struct {
		S string
		L []string `json:",omitempty"`
	}
	// HelpP has them on the pointer.
	HelpP struct {
		S string
		L []string `json:",omitempty"`
	}
)

// helpList gives lists that all print alike.
func helpList(kind string) []string {
	switch kind {
	case "one":
		return []string{"a b"}
	case "two":
		return []string{"a", "b"}
	case "empty":
		return []string{}
	}
	return nil
}

func (v HelpV) AppendJSON(b []byte) ([]byte, error)  { return scriptAppend("AppendJSON", v, b) }
func (v HelpV) AppendOther(b []byte) ([]byte, error) { return scriptAppend("AppendOther", v, b) }
func (v *HelpV) UnmarshalNodeJSON(n njson.Node) error {
	return scriptUnmarshal("UnmarshalNodeJSON", &v.S, &v.L, n)
}
func (v *HelpV) UnmarshalOther(n njson.Node) error {
	return scriptUnmarshal("UnmarshalOther", &v.S, &v.L, n)
}
func (v HelpV) Wrong(x int) string                    { return "" }
func (v HelpV) NoErr(b []byte) []byte                 { return b }
func (v *HelpP) AppendJSON(b []byte) ([]byte, error)  { return scriptAppend("AppendJSON", v, b) }
func (v *HelpP) AppendOther(b []byte) ([]byte, error) { return scriptAppend("AppendOther", v, b) }
func (v *HelpP) UnmarshalNodeJSON(n njson.Node) error {
	return scriptUnmarshal("UnmarshalNodeJSON", &v.S, &v.L, n)
}
func (v *HelpP) UnmarshalOther(n njson.Node) error {
	return scriptUnmarshal("UnmarshalOther", &v.S, &v.L, n)
}
func (v *HelpP) Wrong(x int) string    { return "" }
func (v *HelpP) NoErr(b []byte) []byte { return b }
func (c *HelpCase) value() interface{} {
	switch c.Recv {
	case "V":
		return HelpV{string(c.X), helpList(c.L)}
	case "pV":
		return &HelpV{string(c.X), helpList(c.L)}
	case "P":
		return HelpP{string(c.X), helpList(c.L)}
	}
	return &HelpP{string(c.X), helpList(c.L)}
}

// expected is what the options mean; the last one of a kind counts.
type helpExpect struct {
	method string
	data   []byte
	dataOK bool
	value  interface{}
	check  func(error) bool // nil: success expected
}

func (c *HelpCase) options() (opts []njsontest.Option, want helpExpect) {
	j, err := json.Marshal(c.value())
	want.data, want.dataOK = j, err == nil
	for _, o := range c.Opts {
		s := string(o.S)
		switch o.O {
		case "nil":
			opts = append(opts, nil)
		case "method":
			opts = append(opts, njsontest.Method(s))
			want.method = s
		case "value":
			switch strings.TrimPrefix(c.Recv, "p") {
			case "V":
				want.value = &HelpV{S: s}
			default:
				want.value = &HelpP{S: s}
			}
			opts = append(opts, njsontest.Value(want.value))
		case "json":
			want.data, want.dataOK = []byte(s), true
			switch o.K {
			case "string":
				opts = append(opts, njsontest.JSON(s))
			case "bytes":
				opts = append(opts, njsontest.JSON([]byte(s)))
			case "reader":
				opts = append(opts, njsontest.JSON(strings.NewReader(s)))
			case "func":
				opts = append(opts, njsontest.JSON(func() ([]byte, error) { return []byte(s), nil }))
			case "funcerr":
				want.dataOK = false
				opts = append(opts, njsontest.JSON(func() ([]byte, error) { return []byte(s), errHelpA }))
			case "nil":
				want.data = []byte("null")
				opts = append(opts, njsontest.JSON(nil))
			default: // any other value stands for its encoding
				x := map[string]string{"S": s}
				want.data, _ = json.Marshal(x)
				opts = append(opts, njsontest.JSON(x))
			}
		case "error":
			switch o.K {
			case "none":
				opts = append(opts, njsontest.Error(nil))
				want.check = nil
			case "A":
				opts = append(opts, njsontest.Error(errHelpA))
				want.check = func(err error) bool { return err == errHelpA }
			case "func":
				opts = append(opts, njsontest.Error(func(err error) error {
					if err == errHelpA {
						return nil
					}
					return errHelpB
				}))
				want.check = func(err error) bool { return err == errHelpA }
			case "string":
				opts = append(opts, njsontest.Error(s))
				want.check = func(err error) bool { return strings.Contains(err.Error(), s) }
				if s == "" {
					want.check = nil
				}
			case "regexp":
				rx := "^" + regexp.QuoteMeta(s) + "$"
				if len(s)%2 == 1 {
					rx = "^(?:(" + regexp.QuoteMeta(s) + ")|never)$"
				}
				opts = append(opts, njsontest.Error(regexp.MustCompile(rx)))
				want.check = func(err error) bool { return err.Error() == s }
			case "true":
				opts = append(opts, njsontest.Error(true))
				want.check = func(err error) bool { return true }
			case "false":
				opts = append(opts, njsontest.Error(false))
				want.check = nil
			}
		}
	}
	return
}

// verdict runs a test function as the testing package would.
func verdict(f func(t *testing.T)) (passed bool, panicked interface{}) {
	passed = hostT.Run("helper", func(t *testing.T) {
		defer func() {
			if panicked = recover(); panicked != nil {
				t.Fail()
			}
		}()
		f(t)
	})
	return
}

func checkHelper(c HelpCase, r *Rec) error {
	x := c.value()
	for round := 0; round < 2; round++ {
		if round == 1 && !c.Twic {
			break
		}
		opts, want := c.options()
		script.c, script.calls = &c, nil
		method, ok := "AppendJSON", true
		recv := reflect.TypeOf(x)
		var f func(t *testing.T)
		if c.Helper == "append" {
			f = njsontest.AppendJSON(x, opts...)
		} else {
			f = njsontest.Unmarshal(x, opts...)
			method = "UnmarshalNodeJSON"
			if recv.Kind() != reflect.Ptr {
				recv = reflect.PtrTo(recv)
			}
		}
		if want.method != "" {
			method = want.method
		}
		m, found := recv.MethodByName(method)
		good := found && (c.Helper == "append" && strings.HasPrefix(m.Name, "Append") || c.Helper != "append" && strings.HasPrefix(m.Name, "Unmarshal"))
		why := ""
		fails := func(s string) {
			if ok {
				ok, why = false, s
			}
		}
		called := ""
		result := ""
		switch {
		case !good:
			fails("no such method")
		case !want.dataOK:
			fails("no JSON")
		case c.Helper != "append" && !json.Valid(want.data):
			fails("invalid JSON")
		default:
			called = method
			script.c = &c
			if c.Helper == "append" {
				if c.OutX {
					j, _ := json.Marshal(x)
					result = string(j)
				} else {
					result = string(c.Out)
				}
			}
			err := scriptErr()
			if err != nil {
				if want.check == nil || !want.check(err) {
					fails("unexpected error")
				}
			} else if want.check != nil {
				fails("no error")
			} else if c.Helper == "append" {
				if result != string(want.data) {
					fails("wrong output")
				}
			} else if !c.OutX && (c.Out != c.X || c.OutL != c.L) {
				fails("wrong value")
			}
		}
		passed, p := verdict(f)
		if p != nil {
			return errf("%s helper panics: %v (should %s)", c.Helper, p, map[bool]string{true: "pass", false: "fail: " + why}[ok])
		}
		if passed != ok {
			return errf("%s helper passed=%v, want %v (%s)", c.Helper, passed, ok, why)
		}
		if called == "" {
			if len(script.calls) != 0 {
				return errf("method called although the test could not be set up: %q", script.calls)
			}
		} else {
			arg := `""`
			if c.Helper != "append" {
				compact, _ := compactJSON(string(want.data))
				arg = fmt.Sprintf("%q %q", compact, compact)
			}
			if len(script.calls) != 1 || script.calls[0] != called+" "+arg {
				return errf("calls %q, want one %s %s", script.calls, called, arg)
			}
		}
		if c.Helper != "append" && called != "" && want.value != nil && want.check == nil && ok {
			got := reflect.ValueOf(want.value).Elem().Field(0).String()
			if got != string(c.X) {
				return errf("the value of the Value option holds %q", got)
			}
		}
		r.NonTrivial(len(c.Opts) > 0)
		r.Label(ok, "passes")
		r.Label(!ok, "fails: "+why)
	}
	return nil
}

func init() {
	reg("C31", "doubles", "a helper applied to a scripted double (method on value or pointer, right or wrong output, stored value or error) with 0-5 options in any order and repetition; verdict of the testing package and calls received compared with the expectation; non-trivial: at least one option",
		40000, 600000, func(t *rapid.T) HelpCase {
			g := G{t}
			c := HelpCase{Helper: pick(g, "append", "unmarshal"), Recv: pick(g, "V", "pV", "P", "pP")}
			text := func() string {
				return pick(g, "", "a", "b", `<&>`, "é\n", "error A", g.goString(valOpts{validUTF8: true}))
			}
			c.X = Q(text())
			c.OutX = g.p(3, 5)
			if g.p(1, 3) {
				c.L = pick(g, "one", "two", "empty")
			}
			jsons := func() string {
				switch g.n(8) {
				case 0:
					return pick(g, `{"S":"b"}`, ` { "S" : "a" } `, "null", "[]", "1 ", `"x"`)
				case 1:
					return pick(g, "", "{", "nope", `{"S":}`, "[1,]")
				case 2:
					if s := g.docText(docOpts{depth: 2}); json.Valid([]byte(s)) { // not too deep for encoding/json
						return s
					}
				}
				j, _ := json.Marshal(map[string]string{"S": string(c.X)})
				if g.p(1, 8) {
					return pick(g, " ", "\n", "", "\t", "\x00") + string(j) + pick(g, " ", "\n", "", "\r\n")
				}
				return string(j)
			}
			if !c.OutX {
				if c.Helper == "append" {
					c.Out = Q(jsons())
				} else {
					c.Out = Q(text())
					if g.p(1, 2) {
						c.Out = c.X
					}
					c.OutL = c.L
					if g.p(1, 3) {
						c.OutL = pick(g, "", "one", "two", "empty")
					}
				}
			}
			errText := func() string { return pick(g, "error", "error A", "A", "x", "error B", "") }
			if g.p(1, 2) {
				c.Err = pick(g, "A", "A", "A", "B", "error", "x", "error A")
			}
			c.Nest, c.Twic = g.p(1, 4), g.p(1, 6)
			o := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) HelpOpt {
				g := G{t}
				switch g.n(9) {
				case 0:
					return HelpOpt{O: "nil"}
				case 1:
					return HelpOpt{O: "method", S: Q(pick(g, "AppendOther", "UnmarshalOther", "", "AppendJSON", "UnmarshalNodeJSON", "Missing", "Wrong", "NoErr"))}
				case 2, 3:
					return HelpOpt{O: "json", K: pick(g, "string", "bytes", "reader", "func", "funcerr", "nil", "any"), S: Q(jsons())}
				case 4:
					return HelpOpt{O: "value", S: Q(pick(g, "", "old", "a"))}
				}
				return HelpOpt{O: "error", K: pick(g, "A", "none", "func", "string", "regexp", "true", "false", "A"), S: Q(errText())}
			}), 0, 5).Draw(t, "opts")
			c.Opts = append([]HelpOpt{}, o...)
			return c
		}, checkHelper)
}
