package vsched

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// X is one execution of a scenario.
type X struct {
	Hooks   Hooks
	PipeErr error
	Data    any      // for the scenario's own use
	Variant int      // which of the scenario's variants this is
	Stuck   []string // after the execution: threads still blocked, with what they wait for
	Panic   string   // after the execution: the panic that ended it
	Cut     bool     // after the execution: the step limit was reached
	Ended   bool     // after the execution: the body returned

	fails   []fail
	outcome string
	nontriv bool
	keep    []any
}

type fail struct{ Key, Detail string }

// Fail records a violation.
func (x *X) Fail(key, detail string) {
	for _, f := range x.fails {
		if f.Key == key {
			return
		}
	}
	x.fails = append(x.fails, fail{key, detail})
}

// Failed reports whether a violation was recorded.
func (x *X) Failed() bool { return len(x.fails) > 0 }

// Outcome classifies the execution.
func (x *X) Outcome(o string) { x.outcome = o }

// Nontrivial marks the execution as one in which the property had something
// to constrain.
func (x *X) Nontrivial() { x.nontriv = true }

// Scenario is a small concurrent program whose schedules are enumerated.
type Scenario struct {
	Name     string
	Body     func(x *X) // the main thread
	After    func(x *X) // checks when the execution has ended
	Variants int        // number of variants of the program (default 1)
	Bound    int        // maximum number of deviations from the default schedule
	MaxSteps int
	MaxTime  time.Duration // virtual time horizon
	TimerDev bool          // time may also advance while threads can run (a deviation)
	Races    bool          // report unsynchronised accesses
	AccYield bool          // accesses to shared fields are scheduling points
	MaxExecs int           // cap on executions per worker (0: none)
	// PanicOK and StuckOK: not violations by themselves.
	PanicOK, StuckOK bool
}

// Violation is a failing schedule.
type Violation struct {
	Scenario string   `json:"scenario"`
	Variant  int      `json:"variant"`
	Key      string   `json:"key"`
	Detail   string   `json:"detail"`
	Schedule []Dev    `json:"schedule"`
	Count    int64    `json:"count"`
	Trace    []string `json:"trace,omitempty"`
}

// ScenarioReport describes what was explored of one scenario.
type ScenarioReport struct {
	Name       string           `json:"name"`
	Bound      int              `json:"deviation_bound"`
	Variants   int              `json:"variants"`
	Executions int64            `json:"schedules"`
	Points     int64            `json:"choice_points"`
	Steps      int64            `json:"steps"`
	MaxPoints  int              `json:"max_choice_points"`
	Nontrivial int64            `json:"nontrivial"`
	Outcomes   map[string]int64 `json:"outcomes"`
	Complete   bool             `json:"complete"`
	Truncated  int64            `json:"truncated"`
	Diverged   int64            `json:"diverged"`
}

// Report is the result of an exploration.
type Report struct {
	Scenarios  []*ScenarioReport `json:"scenarios"`
	Violations []*Violation      `json:"violations"`
}

type explorer struct {
	sc       *Scenario
	rep      *ScenarioReport
	viol     map[string]*Violation
	w, n     int
	variant  int
	deadline time.Time
	stop     bool
}

func execute(sc *Scenario, variant int, devs []Dev, tracing bool) (*sched, *X) {
	x := &X{Variant: variant}
	sc0 := &sched{
		devs: devs, max: sc.MaxSteps, ctl: make(chan struct{}, 64),
		chans: map[ptr]*chanState{}, mus: map[ptr]*muState{}, onces: map[ptr]*onceState{}, wgs: map[ptr]*wgState{},
		conds: map[ptr]*condState{}, pools: map[ptr]*[]any{}, atoms: map[ptr]*[]int32{}, files: map[ptr]*fileState{},
		shadows: map[ptr]*shadow{}, raceLog: map[string]bool{},
		tracing: tracing, x: x, timerDev: sc.TimerDev, races: sc.Races, accYield: sc.AccYield, maxTime: int64(sc.MaxTime),
	}
	if sc0.max == 0 {
		sc0.max = 20000
	}
	if sc0.maxTime == 0 {
		sc0.maxTime = int64(time.Minute)
	}
	s = sc0
	clear(timersOf)
	clear(tickersOf)
	m := s.spawn("main", func() {
		sc.Body(x)
		x.Ended = true
	})
	s.main = m
	s.cur = m
	m.wake <- struct{}{}
	<-s.ctl
	// the execution is over: end the remaining threads one by one
	x.Panic = s.panicText
	x.Cut = s.truncated
	for _, t := range s.threads {
		if t.state != done {
			x.Stuck = append(x.Stuck, t.name+": "+t.desc)
		}
	}
	s.killing = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t.state == done {
			continue
		}
		t.wake <- struct{}{}
		<-s.ctl
	}
	s = nil
	if x.Panic != "" && !sc.PanicOK {
		x.Fail("panic", x.Panic)
	}
	if x.Cut {
		x.Fail("no-progress", fmt.Sprintf("still running after %d steps; blocked: %s", sc0.max, strings.Join(x.Stuck, "; ")))
	} else if !x.Ended && x.Panic == "" && !sc.StuckOK {
		x.Fail("deadlock", "no thread can run; blocked: "+strings.Join(x.Stuck, "; "))
	}
	if sc.After != nil {
		sc.After(x)
	}
	return sc0, x
}

func (e *explorer) mine(devs []Dev) bool {
	if e.sc.Variants >= 2*e.n {
		return true // variants are dealt out whole
	}
	if len(devs) == 0 {
		return e.w == e.variant%e.n
	}
	return (devs[0].Point+devs[0].Alt)%e.n == e.w
}

func (e *explorer) run(devs []Dev, prefix []uint8, count bool) []uint8 {
	current.Store(&running{e.sc.Name, e.variant, devs})
	sd, x := execute(e.sc, e.variant, devs, false)
	if len(devs) > 0 {
		last := devs[len(devs)-1].Point
		bad := len(sd.alts) <= last || sd.di != len(devs)
		for i := 0; !bad && i <= last; i++ {
			bad = sd.alts[i] != prefix[i]
		}
		if bad {
			e.rep.Diverged++
			return nil
		}
	}
	if count {
		r := e.rep
		r.Executions++
		r.Points += int64(len(sd.alts))
		r.Steps += int64(sd.steps)
		if len(sd.alts) > r.MaxPoints {
			r.MaxPoints = len(sd.alts)
		}
		if sd.truncated {
			r.Truncated++
		}
		if x.nontriv {
			r.Nontrivial++
		}
		if x.outcome != "" {
			r.Outcomes[x.outcome]++
		}
		for _, f := range x.fails {
			k := f.Key
			v := e.viol[k]
			if v == nil {
				if len(e.viol) >= 12 {
					continue
				}
				v = &Violation{Scenario: e.sc.Name, Variant: e.variant, Key: f.Key, Detail: f.Detail, Schedule: append([]Dev(nil), devs...)}
				e.viol[k] = v
			} else if len(devs) < len(v.Schedule) {
				v.Detail, v.Schedule, v.Variant = f.Detail, append([]Dev(nil), devs...), e.variant
			}
			v.Count++
		}
	}
	return sd.alts
}

func (e *explorer) dfs(devs []Dev, prefix []uint8, bound int) {
	if e.stop {
		return
	}
	if time.Now().After(e.deadline) || (e.sc.MaxExecs > 0 && e.rep.Executions >= int64(e.sc.MaxExecs)) {
		e.stop = true
		return
	}
	count := e.mine(devs)
	if len(devs) > 0 && !count {
		return
	}
	alts := e.run(devs, prefix, count)
	if alts == nil || len(devs) >= bound {
		return
	}
	from := 0
	if len(devs) > 0 {
		from = devs[len(devs)-1].Point + 1
	}
	for p := from; p < len(alts); p++ {
		for a := 1; a < int(alts[p]); a++ {
			e.dfs(append(devs[:len(devs):len(devs)], Dev{p, a}), alts, bound)
			if e.stop {
				return
			}
		}
	}
}

func exploreAll(scs []*Scenario, w, n int, budget time.Duration) *Report {
	rep := &Report{}
	start := time.Now()
	for i, sc := range scs {
		e := &explorer{sc: sc, viol: map[string]*Violation{}, w: w, n: n}
		// the remaining budget is shared by the remaining scenarios
		left := budget - time.Since(start)
		share := left / time.Duration(len(scs)-i) * 3
		if share > left {
			share = left
		}
		if share < time.Second {
			share = time.Second
		}
		e.deadline = time.Now().Add(share)
		e.rep = &ScenarioReport{Name: sc.Name, Bound: sc.Bound, Outcomes: map[string]int64{}}
		nv := max(sc.Variants, 1)
		e.rep.Variants = nv
		for v := 0; v < nv && !e.stop; v++ {
			if nv >= 2*n && v%n != w {
				continue
			}
			e.variant = v
			e.dfs(nil, nil, sc.Bound)
		}
		e.rep.Complete = !e.stop
		rep.Scenarios = append(rep.Scenarios, e.rep)
		var ks []string
		for k := range e.viol {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := e.viol[k]
			sd, _ := execute(sc, v.Variant, v.Schedule, true)
			v.Trace = sd.trace
			if len(v.Trace) > 400 {
				v.Trace = append(append([]string(nil), v.Trace[:200]...), append([]string{"..."}, v.Trace[len(v.Trace)-200:]...)...)
			}
			rep.Violations = append(rep.Violations, v)
		}
	}
	return rep
}

// running is the execution in progress.
type running struct {
	scenario string
	variant  int
	devs     []Dev
}

var current atomic.Pointer[running]

// watch reports an execution that does not come to an end: code that runs on
// without any visible operation.
func watch(report func(*Report)) {
	var last *running
	var since time.Duration
	for {
		time.Sleep(time.Second)
		c := current.Load()
		if c != last || c == nil {
			last, since = c, 0
			continue
		}
		if since += time.Second; since >= 100*time.Second {
			report(&Report{Violations: []*Violation{{Scenario: c.scenario, Variant: c.variant, Key: "hang", Count: 1, Schedule: c.devs,
				Detail: "an execution did not end within 100 s"}}})
			os.Exit(0)
		}
	}
}

// Worker runs this process as one of several workers when the environment says
// so; main must call it first and return when it reports true.
func Worker(scs func(thorough bool) []*Scenario) bool {
	if r := os.Getenv("VSCHED_REPLAY"); r != "" {
		replay(scs(os.Getenv("VERIF_TIER") == "thorough"), r)
		return true
	}
	wn := os.Getenv("VSCHED_WORKER")
	if wn == "" {
		return false
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	var w, n int
	fmt.Sscanf(wn, "%d/%d", &w, &n)
	b, _ := strconv.Atoi(os.Getenv("VSCHED_BUDGET"))
	out := os.NewFile(3, "out")
	report := func(rep *Report) {
		bw := bufio.NewWriter(out)
		json.NewEncoder(bw).Encode(rep)
		bw.Flush()
		out.Close()
	}
	go watch(report)
	rep := exploreAll(scs(os.Getenv("VERIF_TIER") == "thorough"), w, n, time.Duration(b)*time.Second)
	current.Store(nil)
	report(rep)
	return true
}

func replay(scs []*Scenario, r string) {
	name, devs, _ := strings.Cut(r, "@") // scenario#variant@[{"p":..,"a":..}]
	name, vn, _ := strings.Cut(name, "#")
	variant, _ := strconv.Atoi(vn)
	var d []Dev
	json.Unmarshal([]byte(devs), &d)
	for _, sc := range scs {
		if sc.Name == name {
			sd, x := execute(sc, variant, d, true)
			for _, l := range sd.trace {
				fmt.Println(l)
			}
			fmt.Println("outcome:", x.outcome, "stuck:", x.Stuck)
			for _, f := range x.fails {
				fmt.Println("FAIL", f.Key, f.Detail)
			}
		}
	}
}

// Explore enumerates all schedules of the scenarios within their bounds, in n
// worker processes.
func Explore(scs []*Scenario, budget time.Duration) (*Report, error) {
	os.Setenv("VSCHED_EXPLORING", "1") // for the watchdog of package vk
	defer os.Unsetenv("VSCHED_EXPLORING")
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	reps := make([]*Report, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r, w, err := os.Pipe()
			if err != nil {
				errs[i] = err
				return
			}
			cmd := exec.Command(exe)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VSCHED_WORKER=%d/%d", i, n), fmt.Sprintf("VSCHED_BUDGET=%d", int(budget.Seconds())))
			var eb strings.Builder
			cmd.Stderr = &eb
			cmd.ExtraFiles = []*os.File{w}
			if errs[i] = cmd.Start(); errs[i] != nil {
				return
			}
			w.Close()
			kill := time.AfterFunc(budget+180*time.Second, func() { cmd.Process.Kill() })
			defer kill.Stop()
			rep := &Report{}
			derr := json.NewDecoder(r).Decode(rep)
			r.Close()
			if err := cmd.Wait(); err != nil || derr != nil {
				t := eb.String()
				if len(t) > 4000 {
					t = t[:4000]
				}
				errs[i] = fmt.Errorf("worker %d: %v %v: %s", i, err, derr, t)
				return
			}
			reps[i] = rep
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	out := reps[0]
	for i, r := range reps { // a worker that was caught in a hang has no figures
		if len(r.Scenarios) > 0 {
			out = r
			reps[i] = &Report{Violations: out.Violations}
			out.Violations = nil
			break
		}
	}
	for _, r := range reps {
		if r == out {
			continue
		}
		for j, sr := range r.Scenarios {
			o := out.Scenarios[j]
			o.Executions += sr.Executions
			o.Points += sr.Points
			o.Steps += sr.Steps
			o.Nontrivial += sr.Nontrivial
			o.Truncated += sr.Truncated
			o.Diverged += sr.Diverged
			o.Complete = o.Complete && sr.Complete
			if sr.MaxPoints > o.MaxPoints {
				o.MaxPoints = sr.MaxPoints
			}
			for k, v := range sr.Outcomes {
				o.Outcomes[k] += v
			}
		}
		for _, v := range r.Violations {
			var same *Violation
			for _, u := range out.Violations {
				if u.Scenario == v.Scenario && u.Key == v.Key {
					same = u
				}
			}
			if same == nil {
				out.Violations = append(out.Violations, v)
				continue
			}
			c := same.Count + v.Count
			if len(v.Schedule) < len(same.Schedule) {
				*same = *v
			}
			same.Count = c
		}
	}
	return out, nil
}
