// Package mon is the monitor runtime shared by every harness: deterministic
// case lists, observation counters, verdicts and the machine readable summary
// the runner turns into the evidence file.
package mon

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type Violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Group  string `json:"group"`
	Case   int    `json:"case"`
	Input  string `json:"input,omitempty"`
}

type Ctx struct {
	Prop string
	Tier string
	Seed int64
	Only string // group:case to replay

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counters   map[string]int64
	samples    []interface{}
	sampleGrp  map[string]int
	violations []Violation
	vseen      map[string]int
	incon      []string
	rule       string
	assume     []string
	start      time.Time
	out        string
	running    map[*Case]time.Time
	total      int
	first      time.Time     // of the violations
	CaseLimit  time.Duration // a case that runs longer never returned
	Budget     time.Duration // no case is started after it
	// Relevant, if set, selects the failures that break this property; the
	// others are counted only.
	Relevant func(sig string) bool
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the size of a case list for the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func (c *Ctx) Rule(s string)      { c.rule = s }
func (c *Ctx) Assume(s ...string) { c.assume = append(c.assume, s...) }

// Count adds to an observation counter.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Max keeps the largest observation.
func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if c.counters[name] < n {
		c.counters[name] = n
	}
	c.mu.Unlock()
}

func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	c.incon = append(c.incon, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

// Case is one execution observed by the monitors.
type Case struct {
	*rand.Rand
	C     *Ctx
	Group string
	I     int
	mu    sync.Mutex
	input string
	fail  bool
}

func (k *Case) Thorough() bool { return k.C.Thorough() }

// Input records a description of the case, used in samples and replays.
func (k *Case) Input(format string, a ...interface{}) {
	k.mu.Lock()
	k.input = fmt.Sprintf(format, a...)
	if len(k.input) > 4000 {
		k.input = k.input[:4000] + "..."
	}
	k.mu.Unlock()
}

// Seen counts a distinct non-trivial observation.
func (k *Case) Seen(format string, a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, k.Group+"|"+format, a...)
	k.C.mu.Lock()
	k.C.distinct[h.Sum64()] = struct{}{}
	k.C.mu.Unlock()
}

func (k *Case) Count(name string, n int64) { k.C.Count(name, n) }

// Fail records a violation. sig identifies the kind and place of the failure.
func (k *Case) Fail(sig string, format string, a ...interface{}) {
	d := fmt.Sprintf(format, a...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	k.mu.Lock()
	k.fail = true
	in := k.input
	k.mu.Unlock()
	k.C.mu.Lock()
	defer k.C.mu.Unlock()
	if k.C.Relevant != nil && !k.C.Relevant(sig) {
		k.C.counters["other_failure_"+sig]++
		return
	}
	k.C.vseen[sig]++
	if k.C.total++; k.C.total == 1 {
		k.C.first = time.Now()
	}
	if k.C.vseen[sig] <= 3 {
		k.C.violations = append(k.C.violations, Violation{Sig: sig, Detail: d, Group: k.Group, Case: k.I, Input: in})
	}
}

func (k *Case) Failed() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.fail }

func seedFor(seed int64, group string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, group, i)
	return int64(h.Sum64())
}

// PanicSite gives the innermost repository frame of the current panic stack.
func PanicSite() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "github.com/icon-project/btp/") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/icon-project/btp/")
		}
	}
	return "harness"
}

// Guard runs f and reports whether it panicked, with the repository frame.
func Guard(f func()) (panicked bool, site string, val interface{}) {
	defer func() {
		if r := recover(); r != nil {
			panicked, site, val = true, PanicSite(), r
		}
	}()
	f()
	return
}

func (c *Ctx) one(group string, i int, f func(k *Case)) {
	if c.Only != "" && c.Only != fmt.Sprintf("%s:%d", group, i) {
		return
	}
	k := &Case{Rand: rand.New(rand.NewSource(seedFor(c.Seed, group, i))), C: c, Group: group, I: i}
	c.mu.Lock()
	if len(c.violations) >= 12 || c.total >= 6 || (c.total > 0 && time.Since(c.first) > 20*time.Second) { // broken enough, the rest adds nothing
		c.counters["cases_skipped_after_violations"]++
		c.mu.Unlock()
		return
	}
	if c.Only == "" && time.Since(c.start) > c.Budget {
		c.counters["cases_skipped_out_of_time"]++
		c.mu.Unlock()
		return
	}
	c.running[k] = time.Now()
	c.mu.Unlock()
	func() {
		defer func() {
			if r := recover(); r != nil {
				site := PanicSite()
				if site == "harness" {
					fmt.Fprintf(os.Stderr, "HARNESS-ERROR %s:%d %v\n%s\n", group, i, r, debug.Stack())
					os.Exit(3)
				}
				k.Fail("panic:"+site, "%v\n%s", r, debug.Stack())
			}
		}()
		f(k)
	}()
	c.mu.Lock()
	delete(c.running, k)
	c.evals++
	if c.sampleGrp[group] < 2 && len(c.samples) < 24 {
		c.sampleGrp[group]++
		in := k.input
		if len(in) > 600 {
			in = in[:600] + "..."
		}
		c.samples = append(c.samples, map[string]interface{}{"group": group, "case": i, "case_input": in, "held": !k.fail})
	}
	c.mu.Unlock()
}

// Run executes cases 0..n-1 of a group one after another.
func (c *Ctx) Run(group string, n int, f func(k *Case)) {
	for i := 0; i < n; i++ {
		c.one(group, i, f)
	}
}

// RunP executes the cases of a group on w workers.
func (c *Ctx) RunP(group string, n, w int, f func(k *Case)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for j := 0; j < w; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				c.one(group, i, f)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Main dispatches to the property's monitor and writes the summary.
func Main(props map[string]func(*Ctx)) {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("out", "", "summary file")
	only := flag.String("only", "", "group:case to replay")
	flag.Parse()
	f, ok := props[*prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR unknown property %q\n", *prop)
		os.Exit(3)
	}
	c := &Ctx{Prop: *prop, Tier: *tier, Seed: *seed, Only: *only,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, sampleGrp: map[string]int{},
		vseen: map[string]int{}, start: time.Now()}
	c.out = *out
	c.running = map[*Case]time.Time{}
	c.CaseLimit = 150 * time.Second
	c.Budget = 480 * time.Second
	if c.Thorough() {
		c.Budget = 4 * time.Hour
	}
	go c.watch()
	f(c)
	c.finish()
}

// watch reports a case that never returns, with the repository frames of the
// stuck goroutines, and ends the run.
func (c *Ctx) watch() {
	for range time.Tick(500 * time.Millisecond) {
		var stuck *Case
		c.mu.Lock()
		for k, t := range c.running {
			if time.Since(t) > c.CaseLimit {
				stuck = k
			}
		}
		c.mu.Unlock()
		if stuck != nil {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			site := ""
			for _, l := range strings.Split(string(buf), "\n") {
				if strings.HasPrefix(l, "github.com/icon-project/btp/") {
					site += l + "\n"
				}
			}
			stuck.Fail("hang:"+stuck.Group, "the case did not return in %v\n%s", c.CaseLimit, site)
			c.finish()
			os.Exit(0)
		}
	}
}

func (c *Ctx) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	sum := map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed,
		"evaluations": c.evals, "distinct": len(c.distinct), "counters": c.counters,
		"samples": c.samples, "violations": append([]Violation{}, c.violations...), "violation_counts": c.vseen,
		"inconclusive": append([]string{}, c.incon...), "rule": c.rule, "assumptions": c.assume,
		"wall_s": time.Since(c.start).Seconds(),
	}
	b, err := json.MarshalIndent(sum, "", " ")
	if err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR %v\n", err)
		os.Exit(3)
	}
	if c.out == "" {
		fmt.Println(string(b))
		return
	}
	if err = os.WriteFile(c.out, b, 0644); err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS-ERROR %v\n", err)
		os.Exit(3)
	}
}
