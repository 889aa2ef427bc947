// Package mc is the explorer core shared by all checks: bounded exhaustive
// enumeration of cases against the real code, sharded over worker processes,
// with scripted randomness, crash and hang attribution, confirmation by
// re-execution, and evidence counters.
//
// A check is a function that enumerates its whole bounded space in a fixed
// order by calling c.Case. Every worker process runs the same enumeration and
// executes the cases of its shard.
package mc

import (
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Violation is a failure of one case, confirmed by re-execution.
type Violation struct {
	Key   string `json:"key"`  // stable identity, for known findings
	Case  string `json:"case"` // case id, for replay
	Msg   string `json:"msg"`
	Trace string `json:"trace,omitempty"`
}

// Result is what one run covered.
type Result struct {
	Evaluations int64            `json:"evaluations"`
	Nontrivial  int64            `json:"nontrivial"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Faults      int64            `json:"faults"`
	Groups      map[string]int64 `json:"groups"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Samples     []string         `json:"samples"`
	Notes       []string         `json:"notes"`
	Truncated   bool             `json:"truncated"`
	Flaky       []Violation      `json:"flaky"`
	Violations  []Violation      `json:"violations"`
	Skipped     []string         `json:"skipped"`
	WallS       float64          `json:"wall_s"`
}

func newResult() *Result {
	return &Result{Groups: map[string]int64{}, Outcomes: map[string]int64{}}
}

func (r *Result) merge(o *Result) {
	r.Evaluations += o.Evaluations
	r.Nontrivial += o.Nontrivial
	r.States += o.States
	r.Transitions += o.Transitions
	r.Traces += o.Traces
	r.Faults += o.Faults
	for k, v := range o.Groups {
		r.Groups[k] += v
	}
	for k, v := range o.Outcomes {
		r.Outcomes[k] += v
	}
	for _, s := range o.Samples {
		if len(r.Samples) < 24 {
			r.Samples = append(r.Samples, s)
		}
	}
	r.Notes = union(r.Notes, o.Notes)
	r.Skipped = union(r.Skipped, o.Skipped)
	r.Truncated = r.Truncated || o.Truncated
	r.Flaky = append(r.Flaky, o.Flaky...)
	r.Violations = append(r.Violations, o.Violations...)
}

func union(a, b []string) []string {
	seen := map[string]bool{}
	for _, x := range a {
		seen[x] = true
	}
	for _, x := range b {
		if !seen[x] {
			seen[x] = true
			a = append(a, x)
		}
	}
	return a
}

// Ctx is one worker's view of the run.
type Ctx struct {
	Tier     string
	Seed     string
	Thorough bool
	shard    int
	of       int
	only     string
	deadline time.Time
	hang     time.Duration
	idx      int
	claims   *int64 // cases claimed by all workers
	mine     int    // the case this worker claimed
	res      *Result
	out      string
	prog     string
	mu       sync.Mutex
	seenOut  map[string]bool
	maxViol  int
}

// T is the handle of one executing case.
type T struct {
	c       *Ctx
	ID      string
	failed  bool
	sure    bool
	key     string
	msg     string
	evals   int64
	nontriv int64
	states  int64
	trans   int64
	traces  int64
	faults  int64
	outs    []string
	sample  string
	skip    string
}

type abort struct{}

// Failf records a violation of the property by this case and ends the case.
func (t *T) Failf(f string, a ...interface{}) { t.FailKey(t.ID, f, a...) }

// FailKey is Failf with an explicit stable key for known findings.
func (t *T) FailKey(key, f string, a ...interface{}) {
	t.failed = true
	t.key = key
	t.msg = fmt.Sprintf(f, a...)
	panic(abort{})
}

// Check fails the case when ok is false.
func (t *T) Check(ok bool, f string, a ...interface{}) {
	if !ok {
		t.FailKey(t.ID, f, a...)
	}
}

// CheckSure is Check for evidence that cannot be a coincidence, although a
// repetition may not show it each time (a report of the race detector).
func (t *T) CheckSure(ok bool, f string, a ...interface{}) {
	if !ok {
		t.sure = true
		t.FailKey(t.ID, f, a...)
	}
}

// Skipf ends the case without a verdict (the case does not apply here).
func (t *T) Skipf(f string, a ...interface{}) {
	t.skip = fmt.Sprintf(f, a...)
	panic(abort{})
}

// Eval counts n evaluations of the property within this case.
func (t *T) Eval(n int) { t.evals += int64(n) }

// NonTrivial counts n of the evaluations as distinct and non-trivial.
func (t *T) NonTrivial(n int) { t.nontriv += int64(n) }

// Outcome records an observed outcome class (vacuity evidence).
func (t *T) Outcome(s string) { t.outs = append(t.outs, s) }

// States, Transitions, Traces and Faults count explored model objects.
func (t *T) States(n int)      { t.states += int64(n) }
func (t *T) Transitions(n int) { t.trans += int64(n) }
func (t *T) Traces(n int)      { t.traces += int64(n) }
func (t *T) Faults(n int)      { t.faults += int64(n) }

// Sample sets the text of this case for the evidence file.
func (t *T) Sample(f string, a ...interface{}) { t.sample = fmt.Sprintf(f, a...) }

// Note adds a line to the evidence.
func (c *Ctx) Note(f string, a ...interface{}) {
	c.res.Notes = union(c.res.Notes, []string{fmt.Sprintf(f, a...)})
}

// Skip records that a part of the check does not apply to this tree.
func (c *Ctx) Skip(f string, a ...interface{}) {
	c.res.Skipped = union(c.res.Skipped, []string{fmt.Sprintf(f, a...)})
}

// Expired reports whether the internal deadline has passed.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.res.Truncated = true
		return true
	}
	return false
}

// Mine reports whether the next case belongs to this worker (for enumerations
// that want to avoid building closures).
func (c *Ctx) next() bool {
	i := c.idx
	c.idx++
	if c.claims == nil {
		return i%c.of == c.shard
	}
	if c.mine < i {
		// Claim the next case that no worker has claimed.
		c.mine = int(atomic.AddInt64(c.claims, 1)) - 1
	}
	return i == c.mine
}

// Dynamic hands out the cases one by one instead of in fixed shards. It must be
// called before the first case, and suits checks whose cases have their own
// processes, so that it does not matter which worker runs which case.
func (c *Ctx) Dynamic() {
	if c.only != "" || c.idx > 0 {
		return
	}
	f, err := os.OpenFile(filepath.Join(filepath.Dir(c.out), "claims"), os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(8); err != nil {
		panic(err)
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	c.claims = (*int64)(unsafe.Pointer(&m[0]))
	c.mine = -1
}

// Shared gives the result of f, computed by one of the workers.
func (c *Ctx) Shared(key string, f func() []byte) []byte {
	name := filepath.Join(filepath.Dir(c.out), fmt.Sprintf("shared-%x", sha256.Sum256([]byte(key))))
	l, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		panic(err)
	}
	defer l.Close()
	if err := syscall.Flock(int(l.Fd()), syscall.LOCK_EX); err != nil {
		panic(err)
	}
	b, err := io.ReadAll(l)
	if err != nil {
		panic(err)
	}
	if len(b) > 0 {
		return b
	}
	b = f()
	if _, err := l.WriteAt(b, 0); err != nil {
		panic(err)
	}
	return b
}

// Case executes one case of the space if it belongs to this worker.
func (c *Ctx) Case(group, id string, f func(t *T)) {
	id = group + "/" + id
	if c.only != "" {
		c.idx++
		if id != c.only {
			return
		}
	} else if !c.next() {
		return
	}
	if c.Expired() {
		return
	}
	if len(c.res.Violations) >= c.maxViol {
		c.res.Truncated = true
		return
	}
	c.progress(id)
	began := time.Now()
	t := c.exec(id, f)
	if p := os.Getenv("MC_SLOW"); p != "" {
		if d := time.Since(began); d > time.Second {
			if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600); err == nil {
				fmt.Fprintf(f, "%7.1f %s\n", d.Seconds(), id)
				f.Close()
			}
		}
	}
	c.res.Evaluations += t.evals
	c.res.Nontrivial += t.nontriv
	c.res.States += t.states
	c.res.Transitions += t.trans
	c.res.Traces += t.traces
	c.res.Faults += t.faults
	c.res.Groups[group] += t.evals
	for _, o := range t.outs {
		c.res.Outcomes[group+": "+o]++
	}
	if t.skip != "" {
		c.Skip("%s: %s", group, t.skip)
		return
	}
	if len(c.res.Samples) < 3 || (c.res.Groups[group] == t.evals && len(c.res.Samples) < 12) {
		s := t.sample
		if s == "" {
			s = id
		} else {
			s = id + ": " + s
		}
		c.res.Samples = append(c.res.Samples, s)
	}
	if !t.failed {
		return
	}
	v := Violation{Key: t.key, Case: id, Msg: t.msg}
	fails := 1
	for i := 0; i < 4; i++ {
		if r := c.exec(id, f); r.failed {
			fails++
		}
	}
	if fails == 5 || t.sure && fails > 1 {
		c.res.Violations = append(c.res.Violations, v)
	} else {
		v.Msg = fmt.Sprintf("failed %d of 5 runs: %s", fails, v.Msg)
		c.res.Flaky = append(c.res.Flaky, v)
	}
}

func (c *Ctx) exec(id string, f func(t *T)) (t *T) {
	t = &T{c: c, ID: id, evals: 0}
	UseTape(NewTape(c.Seed + "/" + id))
	timer := time.AfterFunc(c.hang, func() {
		c.mu.Lock()
		c.res.Violations = append(c.res.Violations, Violation{Key: id, Case: id, Msg: fmt.Sprintf("no answer within %v", c.hang)})
		c.flush()
		os.Exit(0)
	})
	defer timer.Stop()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				return
			}
			t.failed = true
			t.key = id
			t.msg = fmt.Sprintf("panic: %v at %s", r, where())
		}
		if t.evals == 0 {
			t.evals = 1
			t.nontriv = 1
		}
	}()
	f(t)
	return t
}

func where() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/mc/mc.go") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			out = append(out, filepath.Base(l))
		}
		if len(out) == 4 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (c *Ctx) progress(id string) {
	if c.prog != "" {
		os.WriteFile(c.prog, []byte(id), 0644)
	}
}

func (c *Ctx) flush() {
	b, _ := json.Marshal(c.res)
	os.WriteFile(c.out, b, 0644)
}

// Main runs a check. The process is started as the parent, which spawns the
// workers and merges their results into the file given by -out.
func Main(f func(c *Ctx)) {
	out := flag.String("out", "", "result file")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.String("seed", "1", "seed of the default random tapes")
	shard := flag.Int("shard", -1, "worker index")
	of := flag.Int("of", 0, "number of workers")
	only := flag.String("only", "", "run this case only")
	deadline := flag.Float64("deadline", 600, "seconds after which no further case is started")
	hang := flag.Float64("hang", 240, "seconds after which a case counts as hanging")
	flag.Parse()
	start := time.Now()
	if *of == 0 {
		*of = runtime.NumCPU()
		if *of > 8 {
			*of = 8
		}
	}
	if *only != "" {
		*of = 1
	}
	if *shard >= 0 || *only != "" && os.Getenv("MC_CHILD") != "" {
		runtime.GOMAXPROCS(2)
		debug.SetGCPercent(400)
		c := &Ctx{Tier: *tier, Thorough: *tier == "thorough", Seed: *seed, shard: *shard, of: *of, only: *only,
			deadline: start.Add(time.Duration(*deadline * float64(time.Second))), hang: time.Duration(*hang * float64(time.Second)),
			res: newResult(), out: *out, prog: *out + ".case", maxViol: 6}
		f(c)
		c.mu.Lock()
		c.flush()
		return
	}
	total := newResult()
	dir, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	run := func(i int, only string) (*Result, string, error) {
		o := filepath.Join(dir, fmt.Sprintf("r%d-%d", i, time.Now().UnixNano()))
		args := []string{"-out", o, "-tier", *tier, "-seed", *seed, "-shard", fmt.Sprint(i), "-of", fmt.Sprint(*of),
			"-deadline", fmt.Sprint(*deadline - time.Since(start).Seconds()), "-hang", fmt.Sprint(*hang)}
		if only != "" {
			args = append(args, "-only", only)
		}
		flag.Visit(func(f *flag.Flag) {
			switch f.Name {
			case "out", "tier", "seed", "shard", "of", "only", "deadline", "hang":
			default:
				args = append(args, "-"+f.Name, f.Value.String())
			}
		})
		cmd := exec.Command(os.Args[0], args...)
		cmd.Env = append(os.Environ(), "MC_CHILD=1")
		b, err := cmd.CombinedOutput()
		cur, _ := os.ReadFile(o + ".case")
		if err != nil {
			s := string(b)
			if len(s) > 4000 {
				s = s[:2000] + "\n...\n" + s[len(s)-2000:]
			}
			return nil, string(cur), fmt.Errorf("%v\n%s", err, s)
		}
		rb, err := os.ReadFile(o)
		if err != nil {
			return nil, string(cur), err
		}
		r := newResult()
		if err := json.Unmarshal(rb, r); err != nil {
			return nil, string(cur), err
		}
		return r, string(cur), nil
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	infra := ""
	for i := 0; i < *of; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r, cur, err := run(i, *only)
			if err == nil {
				mu.Lock()
				total.merge(r)
				mu.Unlock()
				return
			}
			// The worker died: attribute it to the case it was in, if it dies there again.
			died := 0
			last := err
			if cur != "" {
				for k := 0; k < 4; k++ {
					r2, _, err2 := run(i, cur)
					if err2 != nil {
						died++
						last = err2
					} else {
						mu.Lock()
						total.Violations = append(total.Violations, r2.Violations...)
						mu.Unlock()
						if len(r2.Violations) > 0 {
							return
						}
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			if died >= 4 {
				total.Violations = append(total.Violations, Violation{Key: cur, Case: cur, Msg: "the process crashes", Trace: last.Error()})
			} else if infra == "" {
				infra = fmt.Sprintf("worker %d failed in case %q: %v", i, cur, err)
			}
			total.Truncated = true
		}(i)
	}
	wg.Wait()
	total.WallS = time.Since(start).Seconds()
	sort.Slice(total.Violations, func(i, j int) bool { return total.Violations[i].Case < total.Violations[j].Case })
	if infra != "" && len(total.Violations) == 0 {
		fmt.Fprintln(os.Stderr, infra)
		os.Exit(2)
	}
	b, _ := json.MarshalIndent(total, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0644)
	} else {
		os.Stdout.Write(append(b, '\n'))
	}
}
