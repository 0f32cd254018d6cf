// Package mon is the monitoring runtime shared by all checks: it runs a fixed,
// seed-determined list of cases, collects what the monitors observed, and
// reports violations with enough context to replay them.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

const (
	exitHarness = 3 // the harness itself failed
	exitHang    = 4 // a case did not finish within the wall-clock watchdog
	exitRestart = 5 // results flushed, continue after the current case
)

// Family is a set of cases made by the same generator.
type Family struct {
	Name string
	// Number of cases in the quick and the thorough tier.
	Quick, Thorough int
	Fn              func(c *Case)
}

// Violation is a refuted property with its witness.
type Violation struct {
	Case    string   `json:"case"`
	Message string   `json:"message"`
	Trace   []string `json:"trace,omitempty"`
}

type result struct {
	Property    string           `json:"property"`
	Cases       int              `json:"cases"`
	Evaluations int64            `json:"evaluations"`
	Distinct    []uint64         `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Leaks       []string         `json:"leaks,omitempty"`
	Violation   *Violation       `json:"violation,omitempty"`
	Done        bool             `json:"done"`
	Next        int              `json:"next"`
}

type runner struct {
	t        *testing.T
	property string
	tier     string
	seed     uint64
	out      string

	mu       sync.Mutex
	res      result
	distinct map[uint64]struct{}

	cur      atomic.Pointer[string]
	curStart atomic.Int64
}

// Case is one execution watched by monitors.
type Case struct {
	T    *testing.T
	ID   string
	Seed uint64
	R    *rand.Rand
	// LeakIsViolation makes goroutines left behind a violation of the property.
	LeakIsViolation bool

	r     *runner
	mu    sync.Mutex
	trace []string
	start time.Time
	viol  *Violation
}

type abort struct{}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func envInt(name string, def int) int {
	n, err := strconv.Atoi(env(name, ""))
	if err != nil {
		return def
	}
	return n
}

func hash(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// Thorough tells if the deep tier is running.
func Thorough() bool { return env("VERIF_TIER", "quick") == "thorough" }

// Main runs the cases of this shard.
func Main(t *testing.T, property string, families ...Family) {
	seed, _ := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	r := &runner{
		t:        t,
		property: property,
		tier:     env("VERIF_TIER", "quick"),
		seed:     seed,
		out:      env("VERIF_OUT", ""),
		distinct: map[uint64]struct{}{},
	}
	r.res = result{Property: property, Counters: map[string]int64{}}

	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	start := envInt("VERIF_START", 0)
	only := env("VERIF_CASE", "")
	scale := envInt("VERIF_SCALE", 100)

	go r.watchdog(time.Duration(envInt("VERIF_WATCHDOG", 60)) * time.Second)

	pos := 0
	for _, f := range families {
		n := f.Quick
		if r.tier == "thorough" {
			n = f.Thorough
		}
		n = (n*scale + 99) / 100
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("%s/%d", f.Name, i)
			p := pos
			pos++
			if only != "" {
				if id != only {
					continue
				}
			} else if p%shards != shard || p < start {
				continue
			}
			if !r.runCase(f, id, p) {
				r.flush(true)
				if t != nil && r.res.Violation != nil {
					t.Logf("%s: %s", r.res.Violation.Case, r.res.Violation.Message)
					t.Fail()
				}
				return
			}
		}
	}
	r.flush(true)
}

func (r *runner) watchdog(limit time.Duration) {
	for {
		time.Sleep(time.Second)
		cur := r.cur.Load()
		if cur == nil {
			continue
		}
		if since := time.Since(time.Unix(0, r.curStart.Load())); since > limit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "WATCHDOG case %s still running after %s\n%s\n", *cur, since, buf)
			r.flush(false)
			os.Exit(exitHang)
		}
	}
}

func (r *runner) runCase(f Family, id string, pos int) (goOn bool) {
	s := hash(r.property, f.Name, id, strconv.FormatUint(r.seed, 10))
	c := &Case{
		T:     r.t,
		ID:    id,
		Seed:  s,
		R:     rand.New(rand.NewPCG(s, 0x9E3779B97F4A7C15)),
		r:     r,
		start: time.Now(),
	}
	if r.out != "" {
		_ = os.WriteFile(r.out+".cur", []byte(fmt.Sprintf("%d %s", pos, id)), 0o644)
	}
	r.curStart.Store(time.Now().UnixNano())
	r.cur.Store(&id)
	r.mu.Lock()
	r.res.Next = pos + 1
	r.mu.Unlock()

	func() {
		defer c.recoverAbort()
		f.Fn(c)
	}()

	r.cur.Store(nil)
	r.mu.Lock()
	r.res.Cases++
	r.mu.Unlock()
	if c.viol != nil {
		r.mu.Lock()
		r.res.Violation = c.viol
		r.mu.Unlock()
		return false
	}
	return true
}

// recoverAbort turns a panic of the code under test into a violation.
func (c *Case) recoverAbort() {
	v := recover()
	if v == nil {
		return
	}
	if _, ok := v.(abort); ok {
		return
	}
	stack := string(debug.Stack())
	if strings.Contains(stack, "github.com/anivanovic/gotit/") || strings.Contains(stack, "/repo/") {
		c.Report("crash: %v\n%s", v, stack)
		return
	}
	fmt.Fprintf(os.Stderr, "HARNESS panic in case %s: %v\n%s\n", c.ID, v, stack)
	os.Exit(exitHarness)
}

func (r *runner) flush(done bool) {
	if r.out == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = done
	r.res.Distinct = r.res.Distinct[:0]
	for k := range r.distinct {
		r.res.Distinct = append(r.res.Distinct, k)
	}
	sort.Slice(r.res.Distinct, func(i, j int) bool { return r.res.Distinct[i] < r.res.Distinct[j] })
	data, err := json.Marshal(&r.res)
	if err == nil {
		tmp := r.out + ".tmp"
		err = os.WriteFile(tmp, data, 0o644)
		if err == nil {
			err = os.Rename(tmp, r.out)
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS cannot write results:", err)
		os.Exit(exitHarness)
	}
}

// Report records a violation. It may be called from any goroutine; the first
// one is kept.
func (c *Case) Report(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.viol != nil {
		return
	}
	trace := c.trace
	if len(trace) > 400 {
		trace = trace[len(trace)-400:]
	}
	c.viol = &Violation{Case: c.ID, Message: fmt.Sprintf(format, args...), Trace: append([]string(nil), trace...)}
}

// Violated tells if a violation was reported.
func (c *Case) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.viol != nil
}

// Fail records a violation and ends the case. Only for the goroutine running
// the case.
func (c *Case) Fail(format string, args ...any) {
	c.Report(format, args...)
	panic(abort{})
}

// Check fails the case when cond is false.
func (c *Case) Check(cond bool, format string, args ...any) {
	if !cond {
		c.Fail(format, args...)
	}
}

// Harness stops the whole run: the harness, not the code under test, is wrong.
func (c *Case) Harness(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS case %s: %s\n", c.ID, fmt.Sprintf(format, args...))
	os.Exit(exitHarness)
}

// Call runs code under test; a panic in it is a violation.
func (c *Case) Call(what string, fn func()) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(abort); ok {
				panic(v)
			}
			c.Fail("%s: crash: %v\n%s", what, v, debug.Stack())
		}
	}()
	fn()
}

// Logf adds to the trace stored with a violation.
func (c *Case) Logf(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.trace) > 5000 {
		c.trace = append(c.trace[:0], c.trace[4000:]...)
	}
	c.trace = append(c.trace, fmt.Sprintf(format, args...))
}

// Eval counts n evaluated executions or inputs.
func (c *Case) Eval(n int) {
	c.r.mu.Lock()
	c.r.res.Evaluations += int64(n)
	c.r.mu.Unlock()
}

// Count adds to a named event counter.
func (c *Case) Count(name string, n int) {
	c.r.mu.Lock()
	c.r.res.Counters[name] += int64(n)
	c.r.mu.Unlock()
}

// Distinct records a distinct non-trivial observation.
func (c *Case) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	c.r.mu.Lock()
	c.r.distinct[h.Sum64()] = struct{}{}
	c.r.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence.
func (c *Case) Sample(format string, args ...any) {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if len(c.r.res.Samples) >= 4 {
		return
	}
	s := c.ID + ": " + fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.r.res.Samples = append(c.r.res.Samples, s)
}

// Dir returns a fresh scratch directory and its remover.
func (c *Case) Dir() (string, func()) {
	dir, err := os.MkdirTemp("", "case")
	if err != nil {
		c.Harness("scratch directory: %v", err)
	}
	dir, err = filepath.EvalSymlinks(dir)
	if err != nil {
		c.Harness("scratch directory: %v", err)
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}

// Bubble runs fn in virtual time. The monitors see goroutines left behind: they
// are a violation only if LeakIsViolation is set, otherwise the run goes on in a
// fresh process.
func (c *Case) Bubble(fn func()) {
	leak := ""
	func() {
		defer func() {
			if v := recover(); v != nil {
				leak = fmt.Sprint(v)
			}
		}()
		synctest.Test(c.T, func(*testing.T) {
			defer func() {
				if left := leftovers(); left != "" {
					// the bubble would never end
					c.leaked(left)
				}
			}()
			defer c.recoverAbort()
			fn()
		})
	}()
	if leak != "" {
		c.leaked(leak)
	}
	if c.Violated() {
		panic(abort{})
	}
}

func (c *Case) leaked(what string) {
	if c.LeakIsViolation {
		c.Report("goroutines of the download are left behind:\n%s", what)
	}
	c.r.mu.Lock()
	if len(what) > 300 {
		what = what[:300]
	}
	c.r.res.Leaks = append(c.r.res.Leaks, c.ID+": "+what)
	if c.viol != nil {
		c.r.res.Violation = c.viol
	}
	c.r.res.Cases++
	c.r.mu.Unlock()
	c.r.flush(c.viol != nil)
	if c.viol != nil {
		fmt.Fprintf(os.Stderr, "violation in %s: %s\n", c.ID, c.viol.Message)
		os.Exit(1)
	}
	os.Exit(exitRestart)
}

// leftovers returns stacks of goroutines in the bubble other than the caller,
// after giving them time to end.
func leftovers() string {
	var left string
	for i := 0; i < 10; i++ {
		time.Sleep(time.Second)
		synctest.Wait()
		if left = bubbleStacks(); left == "" {
			return ""
		}
	}
	return left
}

func bubbleStacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	blocks := strings.Split(string(buf), "\n\n")
	var left []string
	for i, b := range blocks {
		if i == 0 { // the caller
			continue
		}
		head, _, _ := strings.Cut(b, "\n")
		if strings.Contains(head, "synctest bubble") && !strings.Contains(head, "[synctest.Run") && !strings.Contains(b, "internal/synctest.Run(") && !strings.Contains(b, "testingSynctestTest(") {
			left = append(left, b)
		}
	}
	return strings.Join(left, "\n\n")
}

// GotitGoroutines returns stacks of goroutines in the bubble that belong to the
// code under test. Only inside a bubble, after synctest.Wait.
func GotitGoroutines() []string {
	var left []string
	for _, b := range strings.Split(bubbleStacks(), "\n\n") {
		if strings.Contains(b, "github.com/anivanovic/gotit") || strings.Contains(b, "gosuri/uilive") {
			left = append(left, b)
		}
	}
	return left
}
