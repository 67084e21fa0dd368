package main

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// KnownFinding is one entry of /verif/known-findings.json.
type KnownFinding struct {
	Status   string          `json:"status"` // "known" or "fixed"
	Property string          `json:"property"`
	Sub      string          `json:"sub,omitempty"`
	What     string          `json:"what"`
	Commit   string          `json:"commit,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func workDir() string {
	if d := os.Getenv("PBT_WORK"); d != "" {
		return d
	}
	return os.TempDir()
}

func splitmix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

func shardSeed(seed int64, s *sub, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, s.prop, s.name, shard)
	return splitmix(h.Sum64()) | 1
}

type job struct {
	s     *sub
	shard int
	seed  uint64
	count int
	out   string
	res   ShardOut
	err   error
	code  int
	stuck bool
	log   string
}

func selfBinary(s *sub) string {
	if s.race {
		return os.Getenv("PBT_RACE_BIN")
	}
	return os.Args[0]
}

func workerEnv(s *sub) []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOMAXPROCS=") || strings.HasPrefix(kv, "GOGC=") || strings.HasPrefix(kv, "RAPID_") || strings.HasPrefix(kv, "GORACE=") {
			continue
		}
		env = append(env, kv)
	}
	if s.race {
		return append(env, "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66")
	}
	return append(env, "GOMAXPROCS=1")
}

func runWorker(ctx context.Context, s *sub, args ...string) (int, string) {
	cmd := exec.CommandContext(ctx, selfBinary(s), args...)
	cmd.Env = workerEnv(s)
	cmd.WaitDelay = 5 * time.Second
	tb := &tailBuffer{max: 64 << 10}
	cmd.Stdout = tb
	cmd.Stderr = tb
	err := cmd.Run()
	code := 0
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
		} else {
			code = -2
		}
	}
	return code, tb.String()
}

// tailBuffer keeps the head and drops the rest, so that crash headers survive.
type tailBuffer struct {
	b   []byte
	max int
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	if n := t.max - len(t.b); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		t.b = append(t.b, p[:n]...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { return string(t.b) }

func runParent(id string) int {
	start := time.Now()
	seed := int64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			h := fnv.New64a()
			h.Write([]byte(v))
			n = int64(h.Sum64() >> 1)
		}
		seed = n
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}
	scale := 1.0
	if v := os.Getenv("PBT_SCALE"); v != "" { // development only
		scale, _ = strconv.ParseFloat(v, 64)
	}
	budget := 780 * time.Second
	if tier == "thorough" {
		budget = 4 * time.Hour
	}
	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()

	var mine []*sub
	for _, s := range subs {
		if s.prop == id {
			if only := os.Getenv("PBT_ONLY"); only != "" && only != s.name { // development only
				continue
			}
			mine = append(mine, s)
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no checks for", id)
		return 2
	}
	rep := &report{id: id, tier: tier, seed: seed, start: start}

	// Known findings: show them as long as their witness still fails.
	known, err := loadKnown()
	if err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		return 2
	}
	for i, k := range known {
		if k.Status != "known" || k.Property != id {
			continue
		}
		path := filepath.Join(workDir(), fmt.Sprintf("known-%d.json", i))
		writeFailure(path, &Failure{Property: id, Sub: k.Sub, Case: k.Case})
		s := findSub(id, k.Sub)
		if s == nil {
			fmt.Fprintln(os.Stderr, "known finding names no sub-check:", k.Sub)
			return 2
		}
		if code, log := runWorker(ctx, s, "replay", path); failCode(code, log) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			rep.known++
		} else if code != 0 {
			fmt.Fprintln(os.Stderr, "known finding cannot be replayed:", log)
			return 2
		}
	}

	// Saved inputs of repaired defects and of earlier seeded bugs.
	files, _ := filepath.Glob(filepath.Join(verifDir(), "regress", id+"-*.json"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		var fl Failure
		if err == nil {
			err = json.Unmarshal(b, &fl)
		}
		s := findSub(fl.Property, fl.Sub)
		if err != nil || s == nil {
			fmt.Fprintln(os.Stderr, "bad regression file", f, err)
			return 2
		}
		code, log := runWorker(ctx, s, "replay", f)
		rep.regress++
		if code == 0 {
			continue
		}
		if !failCode(code, log) {
			fmt.Fprintln(os.Stderr, "replay error", f, log)
			return 2
		}
		if code2, _ := runWorker(ctx, s, "replay", f); code2 == code {
			fmt.Println(firstLines(log, 12))
			return rep.finish(id, f)
		}
		fmt.Fprintln(os.Stderr, "replay not reproducible", f, log)
		return 2
	}

	var jobs []*job
	for _, s := range mine {
		total := s.quick
		if tier == "thorough" {
			total = s.thorough
		}
		total = int(float64(total) * scale)
		if total < 1 {
			total = 1
		}
		n := 8
		if tier == "thorough" {
			n = 32
		}
		if n > s.maxShards {
			n = s.maxShards
		}
		if n > total {
			n = total
		}
		next := uint64(0)
		for i := 0; i < n; i++ {
			cnt := total / n
			if i < total%n {
				cnt++
			}
			sd := shardSeed(seed, s, i)
			if s.at != nil {
				sd = next
				next += uint64(cnt)
			}
			jobs = append(jobs, &job{s: s, shard: i, seed: sd, count: cnt,
				out: filepath.Join(workDir(), fmt.Sprintf("%s-%s-%d.out", s.prop, s.name, i))})
		}
	}
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	if v := os.Getenv("PBT_PAR"); v != "" {
		par, _ = strconv.Atoi(v)
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var firstBad bool
	run := func(jobs []*job) {
		for _, j := range jobs {
			wg.Add(1)
			sem <- struct{}{}
			mu.Lock()
			stop := firstBad
			mu.Unlock()
			if stop { // a failure is already known: no need to start more work
				<-sem
				wg.Done()
				j.code = -100
				continue
			}
			go func(j *job) {
				defer wg.Done()
				defer func() { <-sem }()
				j.code, j.log = runWorker(ctx, j.s, "shard", j.s.prop, j.s.name,
					strconv.FormatUint(j.seed, 10), strconv.Itoa(j.count), j.out)
				if b, err := os.ReadFile(j.out); err == nil {
					j.err = json.Unmarshal(b, &j.res)
				} else if j.code == 0 || j.code == 1 {
					j.err = err
				}
				if j.code != 0 {
					mu.Lock()
					firstBad = true
					mu.Unlock()
				}
			}(j)
		}
		wg.Wait()
	}
	run(jobs)
	// A busy machine can make a case exceed the limits of its worker. If it
	// does not when it is alone, the worker gets a second chance, once.
	var again []*job
	for _, j := range jobs {
		if j.code != exitHang && j.code != exitMem || ctx.Err() != nil {
			continue
		}
		if path, msg := crashed(ctx, j); path != "" {
			for _, j := range jobs {
				rep.add(j)
			}
			fmt.Println(firstLines(msg, 30))
			return rep.finish(id, path)
		}
		again = append(again, j)
	}
	if len(again) > 0 {
		for _, j := range jobs {
			if j.code == -100 {
				again = append(again, j)
			}
		}
		for _, j := range again {
			fmt.Fprintf(os.Stderr, "worker %s/%s shard %d runs again\n", j.s.prop, j.s.name, j.shard)
			os.Remove(j.out + ".stuck")
			j.res, j.err, j.code, j.log = ShardOut{}, nil, 0, ""
		}
		firstBad = false
		run(again)
	}

	status := 0
	for _, j := range jobs {
		rep.add(j)
	}
	// Failing cases, smallest first.
	var failed []*job
	for _, j := range jobs {
		if j.code == 1 && j.res.Failure != nil {
			failed = append(failed, j)
		}
	}
	sort.SliceStable(failed, func(a, b int) bool {
		return len(failed[a].res.Failure.Case) < len(failed[b].res.Failure.Case)
	})
	for _, j := range failed {
		if path := confirm(ctx, j); path != "" {
			fmt.Println(firstLines(j.res.Failure.Error, 30))
			return rep.finish(id, path)
		}
		fmt.Fprintf(os.Stderr, "%s/%s: a failure did not reproduce: %s\n", j.s.prop, j.s.name, firstLines(j.res.Failure.Error, 20))
		status = 2
	}
	for _, j := range jobs {
		switch j.code {
		case 0, 1, -100:
			if j.err != nil {
				fmt.Fprintln(os.Stderr, "worker output:", j.err)
				status = 2
			}
			continue
		case 3:
			fmt.Fprintln(os.Stderr, j.log)
			status = 2
			continue
		}
		if ctx.Err() != nil {
			fmt.Fprintln(os.Stderr, "time budget exhausted: inconclusive")
			return 2
		}
		if path, msg := crashed(ctx, j); path != "" {
			fmt.Println(firstLines(msg, 30))
			return rep.finish(id, path)
		}
		if status != 0 {
			continue
		}
		fmt.Fprintf(os.Stderr, "worker %s/%s shard %d ended with code %d and the case alone does not reproduce it\n%s\n", j.s.prop, j.s.name, j.shard, j.code, firstLines(j.log, 30))
		status = 2
	}
	if status != 0 {
		return status
	}
	return rep.finish(id, "")
}

// failCode tells whether a replay's outcome means that the case fails.
func failCode(code int, log string) bool {
	switch code {
	case 1, 66, exitHang, exitMem:
		return true
	}
	return code == 2 && looksLikeCrash(log)
}

func looksLikeCrash(log string) bool {
	return strings.Contains(log, "fatal error:") || strings.Contains(log, "goroutine ") || strings.Contains(log, "DATA RACE")
}

func firstLines(s string, n int) string {
	lines := strings.Split(s, "\n")
	if len(lines) > n {
		lines = lines[:n]
	}
	for i, l := range lines {
		if len(l) > 600 {
			lines[i] = l[:600] + "..."
		}
	}
	return strings.Join(lines, "\n")
}

func replayPath(s *sub) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	return filepath.Join(dir, s.prop+"-"+s.name+".json")
}

// confirm writes the replay file of a failure that reproduces in a fresh
// process: the case alone if possible, else the whole worker run.
func confirm(ctx context.Context, j *job) string {
	path := replayPath(j.s)
	f := *j.res.Failure
	tries := 1
	if j.s.race {
		tries = 20
	}
	writeFailure(path, &f)
	for i := 0; i < tries; i++ {
		if code, log := runWorker(ctx, j.s, "replay", path); failCode(code, log) {
			return path
		}
	}
	f.Shard = &ShardRun{Seed: j.seed, Cases: j.count}
	writeFailure(path, &f)
	if code, _ := runWorker(ctx, j.s, "replay", path); code == 1 {
		return path
	}
	os.Remove(path)
	return ""
}

// crashed handles workers that died: fatal runtime errors, hangs, memory.
func crashed(ctx context.Context, j *job) (string, string) {
	path := replayPath(j.s)
	stuck := j.out + ".stuck"
	if b, err := os.ReadFile(stuck); err == nil {
		os.WriteFile(path, b, 0o644)
	} else {
		// Find the case: run again, writing each case down before it is tried.
		code, log := runWorker(ctx, j.s, "shard", j.s.prop, j.s.name,
			strconv.FormatUint(j.seed, 10), strconv.Itoa(j.count), j.out+".again", path)
		if code == 0 || code == 1 || code == 3 {
			os.Remove(path)
			return "", ""
		}
		j.log = log
	}
	tries := 2
	if j.s.race {
		tries = 20
	}
	hits := 0
	last := ""
	for i := 0; i < tries; i++ {
		code, log := runWorker(ctx, j.s, "replay", path)
		if failCode(code, log) {
			hits++
			last = fmt.Sprintf("exit code %d\n%s", code, log)
			if j.s.race {
				return path, last
			}
		}
	}
	if hits == tries {
		return path, last
	}
	if j.s.race && strings.Contains(j.log, "DATA RACE") {
		// The race detector reports real unsynchronised accesses only; the
		// schedule need not recur. Keep its report with the program.
		b, _ := os.ReadFile(path)
		var f Failure
		if json.Unmarshal(b, &f) == nil {
			f.Error = firstLines(j.log, 80)
			writeFailure(path, &f)
			return path, j.log
		}
	}
	os.Remove(path)
	return "", ""
}

func loadKnown() ([]KnownFinding, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var doc struct {
		Findings []KnownFinding `json:"findings"`
	}
	err = json.Unmarshal(b, &doc)
	return doc.Findings, err
}

type report struct {
	id, tier   string
	seed       int64
	start      time.Time
	evals      int
	regress    int
	known      int
	distinct   map[string]map[uint64]struct{}
	labels     map[string]map[string]int
	perSub     map[string]int
	samples    []interface{}
	sampleSubs map[string]int
}

func (r *report) add(j *job) {
	if r.distinct == nil {
		r.distinct = map[string]map[uint64]struct{}{}
		r.labels = map[string]map[string]int{}
		r.perSub = map[string]int{}
		r.sampleSubs = map[string]int{}
	}
	n := j.s.name
	if r.distinct[n] == nil {
		r.distinct[n] = map[uint64]struct{}{}
		r.labels[n] = map[string]int{}
	}
	r.evals += j.res.Evaluations
	r.perSub[n] += j.res.Evaluations
	for l, c := range j.res.Labels {
		r.labels[n][l] += c
	}
	for b := j.res.Hashes; len(b) >= 8; b = b[8:] {
		r.distinct[n][binary.LittleEndian.Uint64(b)] = struct{}{}
	}
	for i, s := range j.res.Samples {
		if r.sampleSubs[n] < 4 && i >= r.sampleSubs[n]/2 {
			r.sampleSubs[n]++
			r.samples = append(r.samples, map[string]interface{}{"sub": n, "case": s})
		}
	}
}

func (r *report) finish(id, violation string) int {
	dn := 0
	nt := map[string]int{}
	for n, m := range r.distinct {
		dn += len(m)
		nt[n] = len(m)
	}
	var rules []string
	for _, s := range subs {
		if s.prop == id {
			rules = append(rules, s.name+": "+s.rule)
		}
	}
	if r.samples == nil {
		r.samples = []interface{}{}
	}
	nviol := 0
	if violation != "" {
		nviol = 1
	}
	ev := map[string]interface{}{
		"property": id, "tier": r.tier, "seed": r.seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": r.evals, "distinct_nontrivial": dn,
			"rule":                 strings.Join(rules, " | "),
			"samples":              r.samples,
			"cases_per_sub":        r.perSub,
			"nontrivial_per_sub":   nt,
			"labels":               r.labels,
			"regression_replays":   r.regress,
			"known_findings_shown": r.known,
		},
		"assumptions": []string{"encoding/json, strconv, unicode/utf8 and math/big of the installed Go are correct", "the harness's reference models are correct"},
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if violation != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, violation)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d regress=%d wall=%.1fs\n", id, r.tier, r.seed, r.evals, dn, r.regress, time.Since(r.start).Seconds())
	return 0
}
