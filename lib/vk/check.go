// Package vk is the shared runtime of the checks: it keeps the counters that
// go into the evidence file, collects violations, matches them against the
// committed list of known findings and decides the exit code.
package vk

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// C is one run of one check.
type C struct {
	ID    string
	Level string
	Tier  string
	Seed  int64
	Verif string // the /verif directory

	start    time.Time
	deadline time.Time

	States      atomic.Int64
	Transitions atomic.Int64
	Traces      atomic.Int64
	Evals       atomic.Int64
	Nontrivial  atomic.Int64
	beat        atomic.Int64

	mu        sync.Mutex
	viol      []violation
	violKeys  map[string]int
	known     map[string]*finding
	samples   []any
	outcomes  map[string]int64
	extra     map[string]any
	assume    []string
	parts     []string
	partial   []string
	rule      string
	Bounds    string
	cur       sync.Map // goroutine label -> description of what is being executed
	watchStop chan struct{}
}

type violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Replay any    `json:"replay,omitempty"`
}

type finding struct {
	key, what string
	hits      int64
}

// Thorough reports whether the deep variant was asked for.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](c *C, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// Expired reports whether the internal time budget is used up.
func (c *C) Expired() bool { return time.Now().After(c.deadline) }

// Partial records that a part of the space was not explored completely.
func (c *C) Partial(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := fmt.Sprintf(format, a...)
	for _, p := range c.partial {
		if p == s {
			return
		}
	}
	c.partial = append(c.partial, s)
}

// Part records a completed sub-exploration for the evidence.
func (c *C) Part(format string, a ...any) {
	c.mu.Lock()
	c.parts = append(c.parts, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

// Rule sets the description of how cases are made.
func (c *C) Rule(s string) { c.rule = s }

// Assume records an assumption in the evidence.
func (c *C) Assume(s string) {
	c.mu.Lock()
	c.assume = append(c.assume, s)
	c.mu.Unlock()
}

// Extra adds a key to the coverage object.
func (c *C) Extra(k string, v any) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

// Sample keeps a few actual cases.
func (c *C) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// NSamples is the number of samples kept so far.
func (c *C) NSamples() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.samples) }

// Outcome counts distinct observed outcomes (to show the exploration is not vacuous).
func (c *C) Outcome(s string) {
	c.mu.Lock()
	if len(c.outcomes) < 200000 || c.outcomes[s] > 0 {
		c.outcomes[s]++
	}
	c.mu.Unlock()
}

// Beat tells the watchdog that progress was made.
func (c *C) Beat() { c.beat.Add(1) }

// Fail records a violation. key identifies the failing behaviour (it is what
// the known-findings file lists); detail is for people; replay is the
// complete input.
func (c *C) Fail(key, detail string, replay any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if f, ok := c.known[key]; ok {
		f.hits++
		return
	}
	c.violKeys[key]++
	if c.violKeys[key] > 3 || len(c.viol) >= 40 {
		return
	}
	if os.Getenv("VERIF_FAILFAST") != "" { // for mutation campaigns
		fmt.Printf("VIOLATION property=%s replay=none\n  [%s] %s\n", c.ID, key, detail)
		os.Exit(1)
	}
	c.viol = append(c.viol, violation{key, detail, replay})
}

// IsKnown reports whether key is a listed known finding.
func (c *C) IsKnown(key string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	_, ok := c.known[key]
	return ok
}

// Failed reports whether any violation was recorded.
func (c *C) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viol) > 0 }

// FailCount is the number of distinct violation keys so far.
func (c *C) FailCount() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.violKeys) }

// Guard runs f and turns a panic into a returned description.
func Guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v at %s", r, panicSite())
		}
	}()
	f()
	return ""
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d + "/"
	}
	return "/repo/"
}

// panicked handles a panic r: one that comes out of the code under test is a
// violation, and so is a result the check could not make sense of (a missing
// element, a nil where there has to be a value). A panic of the scheduler is
// a fault of the check.
func (c *C) panicked(r any) {
	st := string(debug.Stack())
	switch site := panicSite(); {
	case site != "?":
		c.Fail("panic", fmt.Sprintf("panic: %v at %s", r, site), st)
	case isRuntime(r) && !strings.Contains(st, "/zzverif/vsched/"):
		c.Fail("unusable", fmt.Sprintf("the check cannot use what the code returned: %v", r), st)
	default:
		fmt.Fprintf(os.Stderr, "harness error: %v\n%s\n", r, st)
		os.Exit(2)
	}
}

func isRuntime(r any) bool { _, ok := r.(runtime.Error); return ok }

func panicSite() string {
	st := string(debug.Stack())
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "\t") && strings.HasPrefix(l[1:], repoDir()) && !strings.Contains(l, "zzverif") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// Parallel runs f(0..n-1) on all cores; it stops handing out work when the budget is used up
// and returns how many were completed.
func (c *C) Parallel(n int, f func(i int)) int {
	var next, done atomic.Int64
	var wg sync.WaitGroup
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Expired() {
					return
				}
				c.guarded(func() { f(i) })
				c.Beat()
				done.Add(1)
			}
		}()
	}
	wg.Wait()
	return int(done.Load())
}

// guarded runs f; a panic that comes out of the code under test is a violation.
func (c *C) guarded(f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.panicked(r)
		}
	}()
	f()
}

// At tells the watchdog what is being executed now, for the report of a hang.
func (c *C) At(label string, what any) { c.cur.Store(label, what) }

func (c *C) watchdog() {
	last := c.beat.Load()
	lastChange := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-c.watchStop:
			return
		case <-tick.C:
		}
		if b := c.beat.Load(); b != last {
			last, lastChange = b, time.Now()
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if os.Getenv("VSCHED_EXPLORING") != "" {
			lastChange = time.Now() // the workers watch themselves
		}
		hang := time.Since(lastChange) > 100*time.Second
		big := ms.HeapAlloc > 14<<30
		if hang || big {
			what := "no step completed for 100 s"
			if big {
				what = "memory use exploded"
			}
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			var curs []string
			c.cur.Range(func(k, v any) bool { curs = append(curs, fmt.Sprintf("%v: %v", k, v)); return true })
			c.Fail("hang", what+" while executing one of: "+strings.Join(curs, " ; "), string(buf))
			c.finish()
		}
	}
}

// Main runs a check and exits.
func Main(id, level string, budget time.Duration, body func(c *C)) {
	c := &C{ID: id, Level: level, Tier: os.Getenv("VERIF_TIER"), Verif: os.Getenv("VERIF_DIR"),
		start: time.Now(), violKeys: map[string]int{}, known: map[string]*finding{}, outcomes: map[string]int64{}, extra: map[string]any{},
		watchStop: make(chan struct{})}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	if c.Verif == "" {
		c.Verif = "/verif"
	}
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if budget == 0 {
		budget = 360 * time.Second
		if c.Thorough() {
			budget = 12 * time.Minute
		}
	}
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		if n, err := strconv.Atoi(b); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	c.deadline = c.start.Add(budget)
	c.loadKnown()
	debug.SetMemoryLimit(16 << 30)
	debug.SetGCPercent(200)
	go c.watchdog()
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.panicked(r)
			}
		}()
		if f, err := os.Create(os.Getenv("VERIF_CPUPROFILE")); err == nil {
			_ = pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
		body(c)
	}()
	c.finish()
}

func (c *C) loadKnown() {
	f, err := os.Open(filepath.Join(c.Verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+c.ID+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+c.ID+" ")
		if !strings.HasPrefix(rest, "key=") {
			continue
		}
		kv := strings.SplitN(strings.TrimPrefix(rest, "key="), " ", 2)
		what := ""
		if len(kv) > 1 {
			what = kv[1]
		}
		c.known[kv[0]] = &finding{key: kv[0], what: what}
	}
}

var finishOnce sync.Mutex

func (c *C) finish() {
	finishOnce.Lock() // never unlocked: the process ends here
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]any{}
	for k, v := range c.extra {
		cov[k] = v
	}
	if c.Level == "model_checking" {
		cov["states"] = c.States.Load()
		cov["transitions"] = c.Transitions.Load()
		cov["traces_validated_against_impl"] = c.Traces.Load()
	} else {
		cov["evaluations"] = c.Evals.Load()
		cov["distinct_nontrivial"] = c.Nontrivial.Load()
		cov["rule"] = c.rule
	}
	if c.rule != "" {
		cov["rule"] = c.rule
	}
	if c.samples == nil {
		c.samples = []any{}
	}
	cov["samples"] = c.samples
	cov["exhaustive"] = len(c.partial) == 0
	if len(c.partial) > 0 {
		cov["not_completed"] = c.partial
	}
	if len(c.parts) > 0 {
		cov["parts"] = c.parts
	}
	if len(c.outcomes) > 0 {
		cov["distinct_outcomes"] = len(c.outcomes)
		type kv struct {
			k string
			n int64
		}
		var kvs []kv
		for k, n := range c.outcomes {
			kvs = append(kvs, kv{k, n})
		}
		sort.Slice(kvs, func(i, j int) bool {
			if kvs[i].n != kvs[j].n {
				return kvs[i].n > kvs[j].n
			}
			return kvs[i].k < kvs[j].k
		})
		top := map[string]int64{}
		for i, e := range kvs {
			if i >= 10 {
				break
			}
			top[e.k] = e.n
		}
		cov["most_frequent_outcomes"] = top
	}
	if c.Bounds != "" {
		cov["bounds"] = c.Bounds
	}
	if c.assume == nil {
		c.assume = []string{}
	}
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol)}
	dir := filepath.Join(c.Verif, "evidence")
	_ = os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	var ks []string
	for k := range c.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if c.known[k].hits > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s, %d cases]\n", c.ID, c.known[k].what, k, c.known[k].hits)
		}
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d evals=%d outcomes=%d exhaustive=%v wall=%.1fs\n", c.ID, c.Tier,
		c.States.Load(), c.Transitions.Load(), c.Traces.Load(), c.Evals.Load(), len(c.outcomes), len(c.partial) == 0, time.Since(c.start).Seconds())
	for _, p := range c.partial {
		fmt.Println("  not completed:", p)
	}
	if len(c.viol) > 0 {
		for i, v := range c.viol {
			p := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.json", c.ID, i))
			rb, err := json.MarshalIndent(v, "", " ")
			if err != nil {
				rb = []byte(fmt.Sprintf("%s\n%s\n%#v\n", v.Key, v.Detail, v.Replay))
			}
			_ = os.WriteFile(p, append(rb, '\n'), 0o644)
			d := v.Detail
			if len(d) > 1500 {
				d = d[:1500] + "..."
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
			fmt.Printf("  [%s] %s\n", v.Key, strings.ReplaceAll(d, "\n", "\n  "))
		}
		os.Exit(1)
	}
	os.Exit(0)
}
