// Framework of the monitors: deterministic cases, a supervised worker per shard, verdicts, evidence.
//
// The supervisor starts one worker process per shard. A worker runs the cases of its shard, each with a
// PRNG derived from (seed, property, case name) only, and keeps the case it is in in a shared mapping, so
// that a crash of the process is attributed to a case. Panics are recovered, endless loops and runaway
// allocations are cut by CPU time and heap size, not by wall clock.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	statusSize  = 1 << 20
	caseCPU     = 20 * time.Second // of process CPU time; normal cases need microseconds to milliseconds
	heapLimit   = 3 << 30
	maxFailures = 12
	maxSamples  = 6
)

type Failure struct {
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Input  string `json:"input,omitempty"` // quoted
}

type Result struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    []uint64         `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Failures    []Failure        `json:"failures"`
	Known       []string         `json:"known"`
	Done        bool             `json:"done"`
	Inconcl     []string         `json:"inconclusive"`
}

// Ctx is the context of a property's run in one worker
type Ctx struct {
	Prop   string
	Seed   uint64
	Tier   string
	shard  int
	shards int
	only   string
	n      int
	res    Result
	seen   map[uint64]struct{}
	mu     sync.Mutex
	Tmp    string // scratch directory of this worker
	CLI    string // path to the cddlc binary, if the property needs it

	Findings []KnownFinding
	resPath  string
}

// KnownFinding is one line of KNOWN_FINDINGS.jsonl
type KnownFinding struct {
	Status   string `json:"status"` // open or fixed
	Property string `json:"property"`
	ID       string `json:"id"`
	Input    string `json:"input"`
	Observed string `json:"observed"`
	Commit   string `json:"commit"`
	What     string `json:"what"`
}

// T is one case
type T struct {
	*Rand
	c     *Ctx
	Name  string
	input []byte
	fails int
}

type stopCase struct{}

var (
	statusMap []byte
	caseStart atomic.Int64 // process CPU ns at the start of the case, 0 when idle
	curCtx    *Ctx
)

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Pick returns quick or thorough depending on the tier
func (c *Ctx) Pick(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

// N is a number of random cases
func (c *Ctx) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	if c.Tier == "fast" { // for mutation runs
		return max(1, quick/4)
	}
	return min(4*quick, thorough)
}

// Do runs a case if it belongs to this shard
func (c *Ctx) Do(name string, fn func(t *T)) {
	c.n++
	if c.only != "" {
		if name != c.only {
			return
		}
	} else if c.n%c.shards != c.shard {
		return
	}
	if len(c.res.Failures) >= maxFailures {
		return
	}
	t := &T{Rand: NewRand(c.Seed, c.Prop, name), c: c, Name: name}
	t.setStatus(nil)
	caseStart.Store(cpuNow())
	defer caseStart.Store(0)
	c.res.Evaluations++
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			t.fail(fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())))
		}
	}()
	fn(t)
}

// DoN runs n numbered cases
func (c *Ctx) DoN(prefix string, n int, fn func(t *T, i int)) {
	for i := 0; i < n; i++ {
		c.Do(prefix+"/"+strconv.Itoa(i), func(t *T) { fn(t, i) })
	}
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func (t *T) setStatus(in []byte) {
	if statusMap == nil {
		return
	}
	n := copy(statusMap[16:], t.Name)
	m := copy(statusMap[16+n:], in)
	binary.LittleEndian.PutUint32(statusMap[0:], uint32(n))
	binary.LittleEndian.PutUint32(statusMap[4:], uint32(m))
}

// Input declares the input the code under test is about to process
func (t *T) Input(b []byte) {
	t.input = b
	t.setStatus(b)
}

// Rearm restarts the CPU clock of the case, for cases that process many inputs
func (t *T) Rearm() { caseStart.Store(cpuNow()) }

// Eval counts a further evaluation within a case
func (t *T) Eval() { t.c.res.Evaluations++ }

func (t *T) fail(detail string) {
	in := ""
	if t.input != nil {
		s := t.input
		if len(s) > 20000 {
			s = s[:20000]
		}
		in = strconv.Quote(string(s))
	}
	t.fails++
	t.c.mu.Lock()
	t.c.res.Failures = append(t.c.res.Failures, Failure{Case: t.Name, Detail: detail, Input: in})
	t.c.mu.Unlock()
}

// Fail reports a violation and ends the case
func (t *T) Fail(format string, args ...interface{}) {
	t.fail(fmt.Sprintf(format, args...))
	panic(stopCase{})
}

// Distinct counts a distinct non-trivial observation
func (t *T) Distinct(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	t.c.seen[h.Sum64()] = struct{}{}
}

// Count adds to a counter of observed events
func (t *T) Count(name string, n int) { t.c.res.Counters[name] += int64(n) }

// Sample keeps a case for the evidence
func (t *T) Sample(format string, args ...interface{}) {
	if len(t.c.res.Samples) < maxSamples {
		s := fmt.Sprintf(format, args...)
		if len(s) > 700 {
			s = s[:700] + "…"
		}
		t.c.res.Samples = append(t.c.res.Samples, s)
	}
}

// Inconclusive reports that a case could not be decided
func (t *T) Inconclusive(format string, args ...interface{}) {
	t.c.res.Inconcl = append(t.c.res.Inconcl, t.Name+": "+fmt.Sprintf(format, args...))
	panic(stopCase{})
}

// Known reports a violation listed as an open finding: it matches only with the same input and the same outcome
func (t *T) Known(input, observed string) bool {
	for _, k := range t.c.Findings {
		if k.Status == "open" && k.Property == t.c.Prop && k.Input == input && k.Observed == observed {
			t.c.res.Known = append(t.c.res.Known, k.ID+" "+k.What)
			return true
		}
	}
	return false
}

func (c *Ctx) flush(done bool) {
	c.res.Done = done
	c.res.Distinct = c.res.Distinct[:0]
	for h := range c.seen {
		c.res.Distinct = append(c.res.Distinct, h)
	}
	b, _ := json.Marshal(&c.res)
	os.WriteFile(c.resPath, b, 0644)
}

func worker(prop *Property) {
	c := &Ctx{Prop: prop.ID, seen: map[uint64]struct{}{}}
	c.res.Counters = map[string]int64{}
	c.Seed = envUint("VERIF_SEED", 1)
	c.Tier = envStr("VERIF_TIER", "quick")
	c.shard = int(envUint("VMON_SHARD", 0))
	c.shards = int(envUint("VMON_SHARDS", 1))
	c.only = os.Getenv("VMON_ONLY")
	c.Tmp = os.Getenv("VMON_TMP")
	c.CLI = os.Getenv("VMON_CLI")
	c.resPath = filepath.Join(c.Tmp, "result.json")
	c.Findings = loadFindings(os.Getenv("VMON_FINDINGS"))
	curCtx = c
	log.SetOutput(io.Discard)
	debug.SetMaxStack(512 << 20)
	f, err := os.OpenFile(filepath.Join(c.Tmp, "status"), os.O_RDWR|os.O_CREATE, 0644)
	if err == nil {
		f.Truncate(statusSize)
		statusMap, _ = syscall.Mmap(int(f.Fd()), 0, statusSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	go watchdog()
	prop.Run(c)
	c.flush(true)
}

// watchdog ends the process when a single case uses an absurd amount of CPU time or memory. The supervisor
// runs the case again on its own before it counts as a violation.
func watchdog() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		if st := caseStart.Load(); st != 0 && cpuNow()-st > int64(caseCPU) {
			fmt.Fprintf(os.Stderr, "VMON-WATCHDOG: case used more than %s of CPU time\n", caseCPU)
			os.Exit(97)
		}
		metrics.Read(s)
		if s[0].Value.Uint64() > heapLimit {
			fmt.Fprintf(os.Stderr, "VMON-WATCHDOG: heap exceeds %d bytes\n", heapLimit)
			os.Exit(98)
		}
	}
}

func envStr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envUint(k string, d uint64) uint64 {
	if v, err := strconv.ParseUint(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}

func loadFindings(path string) (out []KnownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		var k KnownFinding
		if json.Unmarshal([]byte(line), &k) == nil {
			out = append(out, k)
		}
	}
	return out
}

func wallDefault() uint64 {
	if envStr("VERIF_TIER", "quick") == "thorough" {
		return 3 * 3600
	}
	return 600
}

type shardRun struct {
	res    Result
	ok     bool
	exit   int
	stderr string
	cas    string
	input  []byte
	races  string
}

func runShard(prop *Property, base string, shard, shards int, only string) shardRun {
	tmp := filepath.Join(base, fmt.Sprintf("w%d-%d", shard, time.Now().UnixNano()))
	os.MkdirAll(tmp, 0755)
	defer os.RemoveAll(tmp)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "worker", prop.ID)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(),
		"VMON_SHARD="+strconv.Itoa(shard), "VMON_SHARDS="+strconv.Itoa(shards), "VMON_ONLY="+only, "VMON_TMP="+tmp,
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(tmp, "race"))
	var errb tailBuffer
	cmd.Stderr = &errb
	cmd.Stdout = nil
	// an undecided run, never a violation: the wall clock only bounds the check as a whole
	timer := time.NewTimer(time.Duration(envUint("VMON_WALL", wallDefault())) * time.Second)
	defer timer.Stop()
	var r shardRun
	if err := cmd.Start(); err != nil {
		r.stderr = err.Error()
		r.exit = -1
		return r
	}
	donec := make(chan error, 1)
	go func() { donec <- cmd.Wait() }()
	select {
	case <-donec:
		r.exit = cmd.ProcessState.ExitCode()
	case <-timer.C:
		cmd.Process.Kill()
		<-donec
		r.exit = 99
	}
	r.stderr = errb.String()
	if b, err := os.ReadFile(filepath.Join(tmp, "result.json")); err == nil && json.Unmarshal(b, &r.res) == nil && r.res.Done {
		r.ok = true
	}
	if b, err := os.ReadFile(filepath.Join(tmp, "status")); err == nil && len(b) == statusSize {
		n := int(binary.LittleEndian.Uint32(b[0:]))
		m := int(binary.LittleEndian.Uint32(b[4:]))
		if n >= 0 && m >= 0 && 16+n+m <= statusSize {
			r.cas = string(b[16 : 16+n])
			r.input = append([]byte{}, b[16+n:16+n+m]...)
		}
	}
	if logs, _ := filepath.Glob(filepath.Join(tmp, "race.*")); len(logs) > 0 {
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			r.races += string(b)
		}
	}
	return r
}

type tailBuffer struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func supervise(prop *Property, only string) int {
	start := time.Now()
	seed := envUint("VERIF_SEED", 1)
	tier := envStr("VERIF_TIER", "quick")
	base := os.Getenv("VMON_BASE")
	if base == "" {
		base, _ = os.MkdirTemp("", "vmon")
		defer os.RemoveAll(base)
	}
	verif := envStr("VMON_VERIF", "/verif")
	os.Setenv("VMON_FINDINGS", filepath.Join(verif, "KNOWN_FINDINGS.jsonl"))

	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if prop.Shards > 0 {
		shards = prop.Shards
	}
	if only != "" {
		shards = 1
	}
	runs := make([]shardRun, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runs[i] = runShard(prop, base, i, shards, only)
		}(i)
	}
	wg.Wait()

	total := Result{Counters: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	var failures []Failure
	undecided := ""
	for i, r := range runs {
		if r.races != "" {
			failures = append(failures, Failure{Case: fmt.Sprintf("race detector, shard %d/%d", i, shards), Detail: r.races})
		}
		if !r.ok {
			switch {
			case r.exit == 99:
				undecided = "a worker ran out of wall clock time in case " + r.cas
			case r.cas == "":
				undecided = fmt.Sprintf("a worker ended with status %d before its first case: %s", r.exit, r.stderr)
			case len(failures) > 0:
				// decided already
			default:
				// run the case again on its own, so that nothing but the case can be the reason
				again := runShard(prop, base, i, shards, r.cas)
				if again.ok && len(again.res.Failures) == 0 && again.races == "" {
					undecided = fmt.Sprintf("a worker ended with status %d in case %s, but not when it is repeated alone: %s", r.exit, r.cas, r.stderr)
				} else {
					failures = append(failures, Failure{Case: r.cas, Detail: fmt.Sprintf("the process ended with status %d: %s", r.exit, r.stderr), Input: strconv.Quote(string(r.input))})
				}
			}
			continue
		}
		total.Evaluations += r.res.Evaluations
		for k, v := range r.res.Counters {
			total.Counters[k] += v
		}
		for _, h := range r.res.Distinct {
			distinct[h] = struct{}{}
		}
		total.Known = append(total.Known, r.res.Known...)
		total.Inconcl = append(total.Inconcl, r.res.Inconcl...)
		failures = append(failures, r.res.Failures...)
	}
	// a few samples of every shard
	for round := 0; len(total.Samples) < 8; round++ {
		any := false
		for _, r := range runs {
			if round < len(r.res.Samples) && len(total.Samples) < 8 {
				total.Samples = append(total.Samples, r.res.Samples[round])
				any = true
			}
		}
		if !any {
			break
		}
	}
	if len(total.Inconcl) > 0 && undecided == "" {
		undecided = total.Inconcl[0]
	}
	if only == "" && len(failures) == 0 && undecided == "" && (total.Evaluations == 0 || len(distinct) < 2) {
		undecided = "nothing was observed"
	}

	cov := map[string]interface{}{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": len(distinct),
		"rule":                prop.Rule,
		"samples":             total.Samples,
		"observed":            total.Counters,
		"workers":             shards,
	}
	ev := map[string]interface{}{
		"property": prop.ID, "tier": tier, "seed": seed, "level": prop.level(), "coverage": cov,
		"assumptions": prop.Assumptions, "wall_s": float64(int(time.Since(start).Seconds()*1000)) / 1000,
		"violations": len(failures),
	}
	if only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Println("error: evidence:", err)
			return 2
		}
	}
	sort.Strings(total.Known)
	for i, k := range total.Known {
		if i == 0 || total.Known[i-1] != k {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop.ID, k)
		}
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %.1fs\n", prop.ID, tier, seed, total.Evaluations, len(distinct), time.Since(start).Seconds())
	if len(failures) > 0 {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, prop.ID+".json")
		rep := map[string]interface{}{"property": prop.ID, "seed": seed, "tier": tier, "failures": failures,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s --only '%s'", seed, tier, prop.ID, failures[0].Case)}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, b, 0644)
		for i, f := range failures {
			if i == 3 {
				break
			}
			in := f.Input
			if len(in) > 1500 {
				in = in[:1500] + "…"
			}
			det := f.Detail
			if len(det) > 2500 {
				det = det[:2500] + "…"
			}
			fmt.Print(strings.ToValidUTF8(fmt.Sprintf("-- case %s\n   input %s\n   %s\n", f.Case, in, strings.ReplaceAll(det, "\n", "\n   ")), "\ufffd"))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
		return 1
	}
	if undecided != "" {
		fmt.Println(strings.ToValidUTF8(fmt.Sprintf("UNDECIDED property=%s %s", prop.ID, undecided), "\ufffd"))
		return 2
	}
	return 0
}
