// Package mon is the runtime-monitoring core shared by all checks.
//
// A property is a set of workloads. A workload is a numbered list of cases; every random choice of a case is
// derived from (seed, property, workload, case number), so that one case can be replayed alone.
// A case drives the real code and hands what it observed to an oracle; the oracle reports with Fail.
//
// Verdicts are three-valued: violated (exit 1), held on what was observed (exit 0), or no answer (exit 3).
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Lib is the import path of the code under test.
const Lib = "github.com/fredbi/go-typeset"

const (
	exitHeld         = 0
	exitViolated     = 1
	exitInconclusive = 3
	maxViolations    = 8
	shards           = 64
)

type (
	// Run is one execution of a check.
	Run struct {
		Prop string
		Tier string
		Seed int64
		Dir  string // the /verif folder
		Repo string // the tree under test

		level       string
		rule        string
		assumptions []string
		exhaustive  bool
		start       time.Time

		evals    int64
		distinct [shards]struct {
			mx  sync.Mutex
			set map[uint64]struct{}
		}

		mx         sync.Mutex
		counters   map[string]int64
		samples    []any
		violations []Violation
		known      map[string]string
		knownHit   map[string]bool
		children   map[*exec.Cmd]bool
		extra      map[string]any
		required   map[string]int64

		stop     int32
		replay   *Violation
		slots    [128]slot
		inflight int32
	}

	slot struct {
		c     atomic.Value // *Case
		since int64        // CPU time of the process when the case started, in ns
		ticks int64
	}

	// Case is one numbered execution of a workload.
	Case struct {
		*Run
		Work  string
		Index int
		Rng   *rand.Rand

		input string
		eval  int64
	}

	// Violation is what a replay file holds.
	Violation struct {
		Property string `json:"property"`
		Tier     string `json:"tier"`
		Seed     int64  `json:"seed"`
		Work     string `json:"workload"`
		Index    int    `json:"case"`
		Sig      string `json:"signature,omitempty"`
		Input    string `json:"input,omitempty"`
		Message  string `json:"message"`
		How      string `json:"how_to_replay"`
	}
)

// Silent tells that this process only feeds the code under test, while another one observes what it does besides:
// nothing is printed, and no file is written.
var Silent = os.Getenv("MON_SILENT") != ""

// out is where the verdict goes.
var out io.Writer = os.Stdout

func init() {
	if Silent {
		out = io.Discard
	}
}

// NewRun builds a run from the environment.
func NewRun(prop string) *Run {
	r := &Run{
		Prop:     prop,
		Tier:     env("VERIF_TIER", "quick"),
		Dir:      env("VERIF_DIR", "/verif"),
		Repo:     env("VERIF_REPO", "/repo"),
		level:    "exploration",
		start:    time.Now(),
		counters: map[string]int64{},
		extra:    map[string]any{},
		required: map[string]int64{},
		knownHit: map[string]bool{},
		children: map[*exec.Cmd]bool{},
	}
	if s, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64); err == nil {
		r.Seed = s
	} else {
		r.Seed = 1
	}
	for i := range r.distinct {
		r.distinct[i].set = map[uint64]struct{}{}
	}
	r.known = loadKnown(filepath.Join(r.Dir, "KNOWN_FINDINGS.txt"), prop)
	if p := os.Getenv("VERIF_REPLAY"); p != "" {
		b, err := os.ReadFile(p)
		if err != nil {
			r.Broken("cannot read replay file: %v", err)
		}
		v := new(Violation)
		if err := json.Unmarshal(b, v); err != nil {
			r.Broken("cannot decode replay file: %v", err)
		}
		r.Seed, r.Tier, r.replay = v.Seed, v.Tier, v
	}

	return r
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}

	return def
}

// loadKnown reads lines "finding: property=<id> sig=<signature> <what fails>". Lines "fixed: ..." suppress nothing.
func loadKnown(path, prop string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest := strings.TrimPrefix(line, "finding: property="+prop+" sig=")
		if rest == line {
			continue
		}
		sig, what, _ := strings.Cut(rest, " ")
		known[sig] = what
	}

	return known
}

// Thorough tells the tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N is the number of cases of a workload, which depends on the tier only.
func (r *Run) N(quick, thorough int) int {
	switch {
	case r.Thorough():
		return thorough
	case Silent && quick >= 1000:
		return quick / 2
	case quick < 1000: // depths, processes
		return quick
	case 4*quick < thorough:
		return 4 * quick
	default:
		return thorough
	}
}

// Rule says how cases are made, and what makes one non-trivial.
func (r *Run) Rule(rule string) { r.rule = rule }

// Assume records an assumption.
func (r *Run) Assume(a ...string) { r.assumptions = append(r.assumptions, a...) }

// Exhaustive records that a finite space was enumerated completely.
func (r *Run) Exhaustive() { r.exhaustive = true }

// Count adds to a named counter of observations.
func (r *Run) Count(name string, n int) {
	r.mx.Lock()
	r.counters[name] += int64(n)
	r.mx.Unlock()
}

// Counter reads a named counter.
func (r *Run) Counter(name string) int64 {
	r.mx.Lock()
	defer r.mx.Unlock()

	return r.counters[name]
}

// Require asks for a minimum of observations: with fewer, the run gives no answer.
func (r *Run) Require(name string, min int64) { r.required[name] = min }

// Extra adds a field to the evidence.
func (r *Run) Extra(name string, v any) {
	r.mx.Lock()
	r.extra[name] = v
	r.mx.Unlock()
}

// Eval counts evaluations of an oracle.
func (r *Run) Eval(n int) { atomic.AddInt64(&r.evals, int64(n)) }

// Sample keeps a few actual cases for the evidence.
func (r *Run) Sample(format string, args ...any) {
	r.mx.Lock()
	if len(r.samples) < 12 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
	r.mx.Unlock()
}

// Nontrivial records a distinct non-trivial case, known by its key.
func (r *Run) Nontrivial(key string) {
	h := fnv.New64a()
	_, _ = h.Write([]byte(key))
	v := h.Sum64()
	s := &r.distinct[v%shards]
	s.mx.Lock()
	s.set[v] = struct{}{}
	s.mx.Unlock()
}

// Distinct counts the distinct non-trivial cases.
func (r *Run) Distinct() (n int) {
	for i := range r.distinct {
		r.distinct[i].mx.Lock()
		n += len(r.distinct[i].set)
		r.distinct[i].mx.Unlock()
	}

	return n
}

// Stopped tells that enough violations were seen.
func (r *Run) Stopped() bool { return atomic.LoadInt32(&r.stop) != 0 }

// Cases runs the cases 0..n-1 of a workload on all cores.
func (r *Run) Cases(work string, n int, f func(*Case)) {
	if r.replay != nil {
		if r.replay.Work == work {
			r.one(0, work, r.replay.Index, f)
		}

		return
	}
	workers := runtime.NumCPU()
	if workers > 16 {
		workers = 16
	}
	if workers > n {
		workers = n
	}
	var (
		next int64 = -1
		wg   sync.WaitGroup
	)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for !r.Stopped() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				r.one(w, work, i, f)
			}
		}(w)
	}
	wg.Wait()
	r.Count("cases:"+work, n)
}

// Serial runs the cases one after another (for workloads that spawn processes or goroutines of their own).
func (r *Run) Serial(work string, n int, f func(*Case)) {
	for i := 0; i < n && !r.Stopped(); i++ {
		if r.replay != nil && (r.replay.Work != work || r.replay.Index != i) {
			continue
		}
		r.one(0, work, i, f)
	}
	r.Count("cases:"+work, n)
}

func (r *Run) one(w int, work string, i int, f func(*Case)) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", r.Seed, r.Prop, work, i)
	c := &Case{Run: r, Work: work, Index: i, Rng: rand.New(rand.NewSource(int64(h.Sum64())))}
	s := &r.slots[w]
	atomic.StoreInt64(&s.since, cpuTime())
	atomic.AddInt64(&s.ticks, 1)
	s.c.Store(c)
	atomic.AddInt32(&r.inflight, 1)
	defer func() {
		if e := recover(); e != nil {
			c.panicked(e, debug.Stack())
		}
		s.c.Store((*Case)(nil))
		atomic.AddInt32(&r.inflight, -1)
		atomic.AddInt64(&r.evals, c.eval)
	}()
	f(c)
}

// Input names what is being fed to the code under test: it is shown if the case fails, panics or hangs.
func (c *Case) Input(format string, args ...any) { c.input = fmt.Sprintf(format, args...) }

// Eval counts evaluations of an oracle.
func (c *Case) Eval(n int) { c.eval += int64(n) }

// panicked tells a panic of the code under test from one of the harness.
func (c *Case) panicked(e any, stack []byte) {
	if stopper, ok := e.(stopCase); ok {
		_ = stopper

		return
	}
	if libFrame(string(stack)) {
		c.report("", fmt.Sprintf("the code under test panics: %v\n%s", e, trim(string(stack))))

		return
	}
	c.Broken("harness panic in %s case %d (input %s): %v\n%s", c.Work, c.Index, c.input, e, stack)
}

type stopCase struct{}

// Guard runs a part of a case in a goroutine of its own.
func (c *Case) Guard(f func()) {
	defer func() {
		if e := recover(); e != nil {
			c.panicked(e, debug.Stack())
		}
	}()
	f()
}

// libFrame tells whether the innermost frame that belongs to either the library or the harness is the library's.
func libFrame(stack string) bool {
	if i := strings.Index(stack, "panic("); i >= 0 {
		stack = stack[i:]
	}
	for _, line := range strings.Split(stack, "\n") {
		switch {
		case strings.HasPrefix(line, "\t"):
			continue
		case strings.HasPrefix(line, Lib):
			return true
		case strings.HasPrefix(line, "verif/") || strings.HasPrefix(line, "main."):
			return false
		}
	}

	return false
}

func trim(stack string) string {
	lines := strings.Split(stack, "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}

	return strings.Join(lines, "\n")
}

// Fail reports a violation.
func (c *Case) Fail(format string, args ...any) {
	c.report("", fmt.Sprintf(format, args...))
	panic(stopCase{})
}

// FailSig reports a violation with a signature, which the known-findings file may list.
func (c *Case) FailSig(sig, format string, args ...any) {
	c.report(sig, fmt.Sprintf(format, args...))
	panic(stopCase{})
}

func (c *Case) report(sig, msg string) {
	if what, ok := c.known[sig]; ok && sig != "" {
		c.mx.Lock()
		if !c.knownHit[sig] {
			c.knownHit[sig] = true
			fmt.Fprintf(out, "KNOWN-FINDING: property=%s %s\n", c.Prop, what)
		}
		c.mx.Unlock()

		return
	}
	c.Run.violation(Violation{
		Work: c.Work, Index: c.Index, Sig: sig, Input: c.input, Message: msg,
	})
}

func (r *Run) violation(v Violation) {
	v.Property, v.Tier, v.Seed = r.Prop, r.Tier, r.Seed
	r.mx.Lock()
	defer r.mx.Unlock()
	if len(r.violations) >= maxViolations {
		return
	}
	dir := filepath.Join(r.Dir, "evidence", "replay")
	if !Silent {
		_ = os.MkdirAll(dir, 0o755)
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Prop, len(r.violations)))
	v.How = fmt.Sprintf("VERIF_REPLAY=%s bash %s/run.sh %s", path, r.Dir, r.Prop)
	b, _ := json.MarshalIndent(v, "", "  ")
	if !Silent {
		_ = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	r.violations = append(r.violations, v)
	fmt.Fprintf(out, "VIOLATION property=%s replay=%s\n", r.Prop, path)
	fmt.Fprintf(out, "  workload %s, case %d\n  input: %s\n  %s\n", v.Work, v.Index, v.Input, strings.ReplaceAll(v.Message, "\n", "\n  "))
	if len(r.violations) >= maxViolations {
		atomic.StoreInt32(&r.stop, 1)
	}
}

// Broken ends the run without an answer.
func (r *Run) Broken(format string, args ...any) {
	fmt.Fprintf(out, "INCONCLUSIVE property=%s %s\n", r.Prop, fmt.Sprintf(format, args...))
	r.exit(exitInconclusive)
}

func cpuTime() int64 {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)

	return u.Utime.Nano() + u.Stime.Nano()
}

// Watch ends a case that burns far more CPU time or memory than any case can legitimately need.
//
// It is decided on the CPU time the process consumed while the same case was running (so a loaded machine or
// a paused process cannot trigger it), and on a heap that no case of this harness comes near.
//
// It also ends a run in which every goroutine but this one waits for another: the run time's own detector does not
// see it, because this one has a timer.
func (r *Run) Watch(cpuPerCase time.Duration, maxHeap uint64) {
	go func() {
		var (
			last  [128]int64
			moved = time.Now()
			stuck int
		)
		for range time.Tick(200 * time.Millisecond) {
			before := last
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			now := cpuTime()
			workers := int64(atomic.LoadInt32(&r.inflight))
			if workers < 1 {
				workers = 1
			}
			for w := range r.slots {
				s := &r.slots[w]
				c, _ := s.c.Load().(*Case)
				if c == nil {
					continue
				}
				tick := atomic.LoadInt64(&s.ticks)
				if tick != last[w] {
					last[w] = tick

					continue
				}
				// the process burns CPU on all its in-flight cases: take this case's share
				used := (now - atomic.LoadInt64(&s.since)) / workers
				if used > int64(cpuPerCase) {
					r.violation(Violation{Work: c.Work, Index: c.Index, Input: c.input,
						Message: fmt.Sprintf("does not terminate: still running after %s of CPU time", time.Duration(used))})
					r.Finish()
				}
				if m.HeapAlloc > maxHeap {
					r.violation(Violation{Work: c.Work, Index: c.Index, Input: c.input,
						Message: fmt.Sprintf("unbounded memory: the heap reached %d bytes while this case was running", m.HeapAlloc)})
					r.Finish()
				}
			}
			switch {
			case last != before:
				moved, stuck = time.Now(), 0
			case time.Since(moved) < deadlockAfter:
			default:
				stack := allBlocked()
				if stack == "" {
					moved, stuck = time.Now(), 0

					continue
				}
				moved = time.Now()
				if stuck++; stuck < 2 {
					continue
				}
				v := Violation{Work: "setup",
					Message: "deadlock: every goroutine waits for another, the code under test's included\n" + trim(stack)}
				for w := range r.slots {
					if c, _ := r.slots[w].c.Load().(*Case); c != nil {
						v.Work, v.Index, v.Input = c.Work, c.Index, c.input
					}
				}
				r.violation(v)
				r.Finish()
			}
		}
	}()
}

// WatchChild ends a child process, as the run time would, when all its goroutines wait for one another or when it
// burns far more CPU time than it can legitimately need.
func WatchChild(maxCPU time.Duration) {
	die := func(what, stack string) {
		fmt.Fprintf(os.Stderr, "fatal error: %s\n\n%s\n", what, stack)
		os.Exit(2)
	}
	go func() {
		stuck := 0
		for range time.Tick(time.Second) {
			if stack := allBlocked(); stack == "" {
				stuck = 0
			} else if stuck++; stuck > 2 {
				die("deadlock: every goroutine waits for another", stack)
			}
			if cpuTime() > int64(maxCPU) {
				buf := make([]byte, 1<<20)
				stack := string(buf[:runtime.Stack(buf, true)])
				for _, g := range strings.Split(stack, "\n\n") {
					if strings.Contains(g, "\n"+Lib) {
						stack = g + "\n\n" + stack
					}
				}
				die("does not terminate: still running after "+maxCPU.String()+" of CPU time", stack)
			}
		}
	}()
}

// RunChild runs a command, which does not outlive this process.
func (r *Run) RunChild(cmd *exec.Cmd) error {
	r.mx.Lock()
	err := cmd.Start()
	if err == nil {
		r.children[cmd] = true
	}
	r.mx.Unlock()
	if err != nil {
		return err
	}
	err = cmd.Wait()
	r.mx.Lock()
	delete(r.children, cmd)
	r.mx.Unlock()

	return err
}

// exit ends the process and its children.
func (r *Run) exit(code int) {
	r.mx.Lock()
	for cmd := range r.children {
		_ = cmd.Process.Kill()
	}
	os.Exit(code)
}

// deadlockAfter is how long nothing may move before the goroutines are examined, twice.
const deadlockAfter = 3 * time.Second

// allBlocked tells that all goroutines but the caller wait for another one, with one of them inside the library:
// it returns the stack of that one.
func allBlocked() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if len(buf) == 1<<20 {
		return ""
	}
	found := ""
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // the caller
		}
		_, state, _ := strings.Cut(g, "[")
		state, _, _ = strings.Cut(state, "]")
		state, _, _ = strings.Cut(state, ",")
		switch {
		case strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "semacquire"),
			strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"):
		default:
			return ""
		}
		if strings.Contains(g, "\n"+Lib) {
			found = g
		}
	}

	return found
}

// Finish writes the evidence and exits with the verdict.
func (r *Run) Finish() {
	r.mx.Lock()
	nv := len(r.violations)
	short := ""
	for name, min := range r.required {
		if r.counters[name] < min {
			short = fmt.Sprintf("observed only %d of %s, need %d", r.counters[name], name, min)
		}
	}
	r.mx.Unlock()
	r.writeEvidence(nv)
	switch {
	case nv > 0:
		r.exit(exitViolated)
	case r.replay != nil:
		fmt.Fprintf(out, "replayed %s case %d: held\n", r.replay.Work, r.replay.Index)
		r.exit(exitHeld)
	case short != "":
		r.Broken("%s", short)
	default:
		fmt.Fprintf(out, "held: property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall_s=%.1f\n",
			r.Prop, r.Tier, atomic.LoadInt64(&r.evals), r.Distinct(), time.Since(r.start).Seconds())
		r.exit(exitHeld)
	}
}

func (r *Run) writeEvidence(violations int) {
	if Silent {
		return
	}
	distinct := r.Distinct()
	r.mx.Lock()
	defer r.mx.Unlock()
	cov := map[string]any{
		"evaluations":         atomic.LoadInt64(&r.evals),
		"distinct_nontrivial": distinct,
		"rule":                r.rule,
		"samples":             r.samples,
		"exhaustive":          r.exhaustive,
	}
	names := make([]string, 0, len(r.counters))
	for n := range r.counters {
		names = append(names, n)
	}
	sort.Strings(names)
	obs := map[string]int64{}
	for _, n := range names {
		obs[n] = r.counters[n]
	}
	cov["observed"] = obs
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.level,
		"coverage": cov, "assumptions": r.assumptions,
		"wall_s": time.Since(r.start).Seconds(), "violations": violations,
	}
	if r.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	_ = os.MkdirAll(filepath.Join(r.Dir, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(r.Dir, "evidence", r.Prop+".json"), append(b, '\n'), 0o644)
}

// CrashEvidence writes the evidence of a run whose process died.
func (r *Run) CrashEvidence(out string) {
	r.rule = "the process running the workloads died before it could count its cases"
	r.extra["crash"] = strings.Split(trim(out), "\n")
	r.writeEvidence(1)
}
