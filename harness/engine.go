package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Q is a byte string that survives JSON even when it is not valid UTF-8.
type Q string

// MarshalJSON writes the Go-quoted ASCII form.
func (q Q) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(q)))
}

// UnmarshalJSON reads the Go-quoted form.
func (q *Q) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*q = Q(u)
	return err
}

// Rec collects what one case exercised.
type Rec struct {
	nontrivial bool
	labels     []string
}

// NonTrivial marks the case as non-trivial by the sub-check's rule.
func (r *Rec) NonTrivial(b bool) { r.nontrivial = r.nontrivial || b }

// Label counts the case in a class.
func (r *Rec) Label(cond bool, l string) {
	if cond {
		r.labels = append(r.labels, l)
	}
}

// sub is one sub-check of a property.
type sub struct {
	prop, name, rule string
	quick, thorough  int // number of cases over all shards
	race             bool
	maxShards        int
	isolate          bool // every case runs in a fresh process (never batched)
	gen              func(t *rapid.T) interface{}
	at               func(i int) interface{} // enumerated cases instead of generated ones
	decode           func([]byte) (interface{}, error)
	check            func(c interface{}, r *Rec) error
}

var subs []*sub

// reg registers a sub-check with a typed case.
// quickFactor evens out the time of the quick checks, at roughly ten seconds each on eight cores.
var quickFactor = map[string]int{"C02": 4, "C03": 6, "C05": 2, "C06": 2, "C07": 8, "C12": 5, "C13": 6, "C14": 8, "C15": 8, "C16": 10,
	"C17": 4, "C18": 3, "C19": 4, "C20": 8, "C21": 4, "C22": 8, "C23": 15, "C25": 5, "C26": 15, "C30": 10, "C31": 10, "C32": 2}

func reg[C any](prop, name, rule string, quick, thorough int, gen func(t *rapid.T) C, check func(c C, r *Rec) error) *sub {
	if f := quickFactor[prop]; f > 0 && quick > 1 {
		quick = min(quick*f, thorough)
	}
	s := &sub{
		prop: prop, name: name, rule: rule, quick: quick, thorough: thorough, maxShards: 64,
		gen: func(t *rapid.T) interface{} { return gen(t) },
		decode: func(data []byte) (interface{}, error) {
			var c C
			dec := json.NewDecoder(bytes.NewReader(data))
			dec.UseNumber()
			err := dec.Decode(&c)
			return c, err
		},
		check: func(c interface{}, r *Rec) error { return check(c.(C), r) },
	}
	subs = append(subs, s)
	return s
}

// regEnum registers a sub-check whose cases are enumerated: 0..quick-1 (or thorough-1).
func regEnum[C any](prop, name, rule string, quick, thorough int, at func(i int) C, check func(c C, r *Rec) error) *sub {
	s := reg(prop, name, rule, quick, thorough, func(t *rapid.T) C { var c C; return c }, check)
	s.quick = quick
	s.at = func(i int) interface{} { return at(i) }
	return s
}

func findSub(prop, name string) *sub {
	for _, s := range subs {
		if s.prop == prop && s.name == name {
			return s
		}
	}
	return nil
}

// errSkipCase marks a case as outside the domain (should be rare).
var errSkipCase = errors.New("skip")

func safeCheck(s *sub, c interface{}, r *Rec) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(harnessBug); ok || isRapidPanic(p) {
				panic(p)
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	return s.check(c, r)
}

func isRapidPanic(p interface{}) bool {
	t := fmt.Sprintf("%T", p)
	return strings.HasPrefix(t, "rapid.") || strings.HasPrefix(t, "*rapid.")
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Failure is the replay file format.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
	// Shard is set when the failure only shows after earlier cases of the same run.
	Shard *ShardRun `json:"shard,omitempty"`
	How   string    `json:"how_to_replay"`
}

// ShardRun identifies a deterministic worker run.
type ShardRun struct {
	Seed  uint64 `json:"seed"`
	Cases int    `json:"cases"`
}

// ShardOut is what a worker reports.
type ShardOut struct {
	Evaluations int
	Labels      map[string]int
	Hashes      []byte // 8 bytes each, distinct non-trivial cases
	Samples     []json.RawMessage
	Failure     *Failure
	Flaky       string
	Wall        float64
}

type shardTB struct {
	name   string
	mu     sync.Mutex
	failed bool
	last   string
}

func (t *shardTB) Helper()                           {}
func (t *shardTB) Name() string                      { return t.name }
func (t *shardTB) Logf(format string, args ...any)   {}
func (t *shardTB) Log(args ...any)                   {}
func (t *shardTB) Skipf(format string, args ...any)  {}
func (t *shardTB) Skip(args ...any)                  {}
func (t *shardTB) SkipNow()                          {}
func (t *shardTB) Errorf(format string, args ...any) { t.note(fmt.Sprintf(format, args...)) }
func (t *shardTB) Error(args ...any)                 { t.note(fmt.Sprint(args...)) }
func (t *shardTB) Fatalf(format string, args ...any) {
	t.note(fmt.Sprintf(format, args...))
	t.FailNow()
}
func (t *shardTB) Fatal(args ...any) { t.note(fmt.Sprint(args...)); t.FailNow() }
func (t *shardTB) FailNow()          { t.Fail(); panic(tbStop{}) }
func (t *shardTB) Fail()             { t.mu.Lock(); t.failed = true; t.mu.Unlock() }
func (t *shardTB) Failed() bool      { t.mu.Lock(); defer t.mu.Unlock(); return t.failed }
func (t *shardTB) note(s string) {
	t.mu.Lock()
	t.failed = true
	t.last = s
	t.mu.Unlock()
}

type tbStop struct{}

// slow: cases that run compilers may take longer.
func (s *sub) slow() time.Duration {
	switch s.prop {
	case "C27", "C28", "C29", "C32":
		return 5
	}
	return 1
}

const (
	exitHang = 97
	exitMem  = 98
)

var (
	curCase  atomic.Pointer[caseInfo]
	caseTick atomic.Int64
)

type caseInfo struct {
	s     *sub
	c     interface{}
	start time.Time
}

// watchdog ends the process when one case takes too long or too much memory.
// The parent then decides with isolated replays; this alone is never a verdict.
func watchdog(out string, limit time.Duration, memLimit uint64) {
	var ms runtime.MemStats
	n := 0
	for {
		time.Sleep(200 * time.Millisecond)
		ci := curCase.Load()
		n++
		if ci == nil {
			continue
		}
		code := 0
		if time.Since(ci.start) > limit {
			code = exitHang
		} else if n%5 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapInuse+ms.StackInuse > memLimit {
				code = exitMem
			}
		}
		if code != 0 {
			if out != "" {
				writeFailure(out+".stuck", &Failure{Property: ci.s.prop, Sub: ci.s.name, Case: mustJSON(ci.c), Error: "case did not finish within the worker's limits"})
			}
			os.Exit(code)
		}
	}
}

func mustJSON(c interface{}) json.RawMessage {
	b, err := json.Marshal(c)
	if err != nil {
		panic(harnessBug{err})
	}
	return b
}

type harnessBug struct{ err error }

func writeFailure(path string, f *Failure) {
	f.How = "cd /verif && ./check replay <this file>"
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func limitProcess() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(1 << 30)
	debug.SetMaxStack(192 << 20)
}

// runShard: ID SUB SEED COUNT OUT [JOURNAL]
func runShard(args []string) int {
	prop, name := args[0], args[1]
	seed, err := strconv.ParseUint(args[2], 10, 64)
	if err != nil {
		return 2
	}
	count, err := strconv.Atoi(args[3])
	if err != nil {
		return 2
	}
	out := args[4]
	journal := ""
	if len(args) > 5 {
		journal = args[5]
	}
	s := findSub(prop, name)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown sub-check", prop, name)
		return 2
	}
	limitProcess()
	go watchdog(out, 40*time.Second*s.slow(), 3<<30)
	res := executeShard(s, seed, count, journal)
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if res.Failure != nil {
		return 1
	}
	if res.Flaky != "" {
		fmt.Fprintln(os.Stderr, res.Flaky)
		return 3
	}
	return 0
}

var initTesting = sync.OnceFunc(func() {
	testing.Init()
	flag.CommandLine.Parse(nil)
})

func executeShard(s *sub, seed uint64, count int, journal string) (out ShardOut) {
	start := time.Now()
	out.Labels = map[string]int{}
	seen := map[uint64]struct{}{}
	if seed == 0 && s.at == nil {
		seed = 0x9E3779B97F4A7C15
	}
	initTesting()
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(count))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	tb := &shardTB{name: s.prop + "_" + s.name}
	var (
		failing bool
		failure *Failure
		hbug    error
	)
	// Recent samples are kept by reservoir on the case counter, no randomness needed.
	sampleAt := map[int]bool{1: true, 2: true, 7: true, 31: true, 127: true, 511: true}
	one := func(c interface{}, t *rapid.T) bool {
		ci := &caseInfo{s: s, c: c, start: time.Now()}
		if journal != "" {
			writeFailure(journal, &Failure{Property: s.prop, Sub: s.name, Case: mustJSON(c)})
		}
		curCase.Store(ci)
		var r Rec
		err := safeCheck(s, c, &r)
		curCase.Store(nil)
		if err == errSkipCase {
			if !failing {
				out.Labels["skipped"]++
			}
			if t != nil {
				t.SkipNow()
			}
			return true
		}
		if err != nil {
			failing = true
			failure = &Failure{Property: s.prop, Sub: s.name, Error: err.Error(), Case: mustJSON(c)}
			if t != nil {
				t.Fatalf("violation")
			}
			return false
		}
		if failing {
			return true // shrinking: not part of the statistics
		}
		out.Evaluations++
		for _, l := range r.labels {
			out.Labels[l]++
		}
		if r.nontrivial {
			j := mustJSON(c)
			h := fnv.New64a()
			h.Write(j)
			k := h.Sum64()
			if _, ok := seen[k]; !ok {
				seen[k] = struct{}{}
				if sampleAt[len(seen)] && len(j) < 4000 {
					out.Samples = append(out.Samples, j)
				}
			}
		}
		return true
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				switch p := p.(type) {
				case tbStop:
				default:
					panic(p)
				}
			}
		}()
		if s.at != nil {
			defer func() {
				if p := recover(); p != nil {
					hb, ok := p.(harnessBug)
					if !ok {
						panic(p)
					}
					hbug = hb.err
				}
			}()
			for i := 0; i < count; i++ {
				if !one(s.at(int(seed)+i), nil) {
					return
				}
			}
			return
		}
		rapid.Check(tb, func(t *rapid.T) {
			defer func() { // rapid would take it for a failure
				if p := recover(); p != nil {
					if hb, ok := p.(harnessBug); ok && hbug == nil {
						hbug = hb.err
					}
					panic(p)
				}
			}()
			if hbug != nil {
				return
			}
			one(s.gen(t), t)
		})
	}()
	if hbug != nil {
		failing, failure = false, nil
		out.Flaky = "harness bug: " + hbug.Error()
	}
	keys := make([]uint64, 0, len(seen))
	for k := range seen {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, k := range keys {
		out.Hashes = binary.LittleEndian.AppendUint64(out.Hashes, k)
	}
	if failing {
		out.Failure = failure
	} else if tb.Failed() && out.Flaky == "" {
		out.Flaky = "rapid: " + tb.last
	}
	out.Wall = time.Since(start).Seconds()
	return out
}

// runReplay re-runs a failure file. Exit 1: it still fails. 0: it passes.
func runReplay(path string) (code int) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := findSub(f.Property, f.Sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown sub-check", f.Property, f.Sub)
		return 2
	}
	limitProcess()
	go watchdog("", 60*time.Second*s.slow(), 6<<30)
	if f.Shard != nil {
		res := executeShard(s, f.Shard.Seed, f.Shard.Cases, "")
		if res.Failure != nil {
			fmt.Printf("FAILS property=%s sub=%s\n%s\ncase: %s\n", f.Property, f.Sub, res.Failure.Error, res.Failure.Case)
			return 1
		}
		fmt.Println("PASSES")
		return 0
	}
	c, err := s.decode(f.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, "bad case:", err)
		return 2
	}
	defer func() {
		if p := recover(); p != nil {
			hb, ok := p.(harnessBug)
			if !ok {
				panic(p)
			}
			fmt.Fprintln(os.Stderr, "harness bug:", hb.err)
			code = 3
		}
	}()
	curCase.Store(&caseInfo{s: s, c: c, start: time.Now()})
	var r Rec
	err = safeCheck(s, c, &r)
	curCase.Store(nil)
	if err != nil && err != errSkipCase {
		fmt.Printf("FAILS property=%s sub=%s\n%v\n", f.Property, f.Sub, err)
		return 1
	}
	fmt.Println("PASSES")
	return 0
}
