// Package vsched is a controlled scheduler for stateless model checking of
// real Go code. The instrumenter (tools/instr) routes every goroutine start,
// channel operation, select, lock, atomic, timer, context and pipe operation
// of the instrumented packages through it. Exactly one thread runs at a time;
// at every visible operation the scheduler decides which ready thread goes
// on. The explorer enumerates every schedule that deviates from the default
// (run until blocked, then round robin) at no more than a given number of
// points. Time is virtual and advances only when no thread can run.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

const (
	ready = iota
	parked
	done
)

type thread struct {
	id    int
	name  string
	wake  chan struct{}
	state int
	desc  string
	cond  func() bool // when parked on a condition
	idle  bool        // parked until nothing else can run

	// result of a channel operation completed by another thread
	sel *selState
	vc  []int32
	run int // consecutive steps
}

// Dev is one deviation from the default schedule: alternative Alt at choice
// point Point.
type Dev struct {
	Point int `json:"p"`
	Alt   int `json:"a"`
}

type sched struct {
	threads []*thread
	cur     *thread
	now     int64
	timers  []*timer
	tseq    int

	devs   []Dev
	di     int
	npts   int
	alts   []uint8 // number of alternatives at each choice point
	sig    uint64  // hash of the choices met (determinism check)
	steps  int
	max    int
	noTime bool

	timerDev bool
	races    bool
	accYield bool
	maxTime  int64

	killing   bool
	over      bool
	ctl       chan struct{}
	panicText string
	truncated bool
	main      *thread

	chans   map[ptr]*chanState
	mus     map[ptr]*muState
	onces   map[ptr]*onceState
	wgs     map[ptr]*wgState
	conds   map[ptr]*condState
	pools   map[ptr]*[]any
	atoms   map[ptr]*[]int32
	files   map[ptr]*fileState
	shadows map[ptr]*shadow
	raceLog map[string]bool

	trace   []string
	tracing bool
	x       *X
}

var s *sched // the scheduler of the running execution, nil outside one

// Active reports whether the caller runs under the scheduler.
func Active() bool { return s != nil }

func (s *sched) logf(f string, a ...any) {
	if s.tracing {
		n := "-"
		if s.cur != nil {
			n = s.cur.name
		}
		s.trace = append(s.trace, fmt.Sprintf("%4d %s: ", s.npts, n)+fmt.Sprintf(f, a...))
	}
}

func (s *sched) isReady(t *thread) bool {
	switch t.state {
	case ready:
		return true
	case parked:
		return t.cond != nil && t.cond()
	}
	return false
}

// choose picks the next thread to run; nil when the execution is over.
func (s *sched) choose() *thread {
	s.steps++
	if s.steps > s.max {
		s.truncated = true
		return nil
	}
	for {
		var cand [24]*thread
		n := 0
		c := s.cur
		rot := c == nil || c.state == done
		if !rot && c.run > 3000 { // a thread that never blocks lets the others run
			rot = true
		}
		if !rot && s.isReady(c) {
			cand[0] = c
			n = 1
		}
		base := 0
		if c != nil {
			base = c.id + 1
		}
		for i := range s.threads {
			t := s.threads[(base+i)%len(s.threads)]
			if n > 0 && t == cand[0] {
				continue
			}
			if s.isReady(t) && n < len(cand) {
				cand[n] = t
				n++
			}
		}
		if n == 0 {
			// nothing can run: let an idle waiter go on, else advance time
			for _, t := range s.threads {
				if t.state == parked && t.idle {
					t.idle = false
					t.state = ready
					return s.pick(t)
				}
			}
			if !s.fireNext() {
				return nil
			}
			continue
		}
		alts := n
		if s.timerDev && len(s.timers) > 0 && alts < 250 && s.nextDue() <= s.maxTime {
			alts++
		}
		k := 0
		if alts > 1 {
			k = s.decide(alts)
		}
		if k >= n {
			s.logf("(time advances early)")
			s.fireNext()
			continue
		}
		return s.pick(cand[k])
	}
}

func (s *sched) pick(t *thread) *thread {
	if t == s.cur {
		t.run++
	} else {
		t.run = 0
	}
	return t
}

// decide registers a choice point with n alternatives and returns the one to
// take.
func (s *sched) decide(n int) int {
	p := s.npts
	s.npts++
	s.alts = append(s.alts, uint8(n))
	s.sig = s.sig*1099511628211 + uint64(n)
	if s.di < len(s.devs) && s.devs[s.di].Point == p {
		k := s.devs[s.di].Alt
		s.di++
		if k < n {
			return k
		}
	}
	return 0
}

// Choose is a nondeterministic choice of the environment with n outcomes.
func Choose(n int) int {
	if s == nil || n < 2 {
		return 0
	}
	check()
	return s.decide(n)
}

func (s *sched) finish() {
	s.over = true
	s.ctl <- struct{}{}
}

func (s *sched) switchTo(n, me *thread) {
	s.cur = n
	if n.state == parked {
		n.state = ready
		n.cond = nil
	}
	if n == me {
		return
	}
	n.wake <- struct{}{}
	<-me.wake
	if s.killing {
		runtime.Goexit()
	}
}

func check() {
	if s.killing || s.over {
		runtime.Goexit()
	}
}

// point is a scheduling point before a visible operation.
func (s *sched) point(desc string) {
	check()
	me := s.cur
	me.desc = desc
	if s.tracing {
		s.logf("%s", desc)
	}
	n := s.choose()
	if n == nil {
		s.stop(me)
	}
	s.switchTo(n, me)
}

func (s *sched) stop(me *thread) {
	s.finish()
	<-me.wake
	runtime.Goexit()
}

// park blocks the current thread until another one makes it ready.
func (s *sched) park(desc string, cond func() bool) {
	me := s.cur
	me.state = parked
	me.cond = cond
	me.desc = desc
	if s.tracing {
		s.logf("blocks: %s", desc)
	}
	n := s.choose()
	if n == nil {
		s.stop(me)
	}
	s.switchTo(n, me)
}

func (s *sched) await(desc string, cond func() bool) {
	s.point(desc)
	for !cond() {
		s.park(desc, cond)
	}
}

func (s *sched) spawn(name string, fn func()) *thread {
	t := &thread{id: len(s.threads), name: name, wake: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	if s.races {
		if s.cur != nil {
			t.vc = append([]int32(nil), s.cur.vc...)
			s.tick(s.cur)
		}
		s.tick(t)
	}
	sc := s
	go func() {
		defer func() {
			r := recover()
			if sc.killing || sc.over {
				t.state = done
				sc.ctl <- struct{}{}
				return
			}
			t.state = done
			if r != nil {
				sc.panicText = fmt.Sprintf("panic in %s: %v\n%s", t.name, r, stackOf(debug.Stack()))
				sc.finish()
				return
			}
			if t == sc.main {
				sc.finish()
				return
			}
			n := sc.choose()
			if n == nil {
				sc.finish()
				return
			}
			sc.cur = n
			if n.state == parked {
				n.state = ready
				n.cond = nil
			}
			n.wake <- struct{}{}
		}()
		<-t.wake
		if sc.killing {
			return
		}
		fn()
	}()
	return t
}

func stackOf(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "vsched") && !strings.Contains(l, "/runtime/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, " < ")
}

// Go starts a thread.
func Go(fn func()) { GoName("", fn) }

// GoName starts a thread with a name for reports.
func GoName(name string, fn func()) {
	if s == nil {
		go fn()
		return
	}
	check()
	if name == "" {
		_, file, line, _ := runtime.Caller(2)
		if i := strings.LastIndexByte(file, '/'); i >= 0 {
			file = file[i+1:]
		}
		name = fmt.Sprintf("go#%d(%s:%d)", len(s.threads), file, line)
	}
	s.spawn(name, fn)
	s.point("go " + name)
}

// Yield is a scheduling point without effect.
func Yield() {
	if s == nil {
		runtime.Gosched()
		return
	}
	s.point("yield")
}

// Await blocks until cond holds; cond must be a pure function of state changed
// by other threads under the scheduler.
func Await(desc string, cond func() bool) {
	if s == nil {
		for !cond() {
			runtime.Gosched()
		}
		return
	}
	s.await(desc, cond)
}

// WaitIdle blocks until no other thread can run (without advancing time).
func WaitIdle() {
	if s == nil {
		return
	}
	check()
	me := s.cur
	me.idle = true
	s.park("wait idle", nil)
	me.idle = false
}

// Settle lets virtual time d pass and then waits until nothing can run.
func Settle(d time.Duration) {
	Sleep(d)
	WaitIdle()
}

// Cur names the running thread.
func Cur() string {
	if s == nil || s.cur == nil {
		return "-"
	}
	return s.cur.name
}

// Log adds a line to the trace of a replayed execution.
func Log(f string, a ...any) {
	if s != nil {
		s.logf(f, a...)
	}
}

// Stuck lists the threads other than the caller that are blocked.
func Stuck() []string {
	var out []string
	for _, t := range s.threads {
		if t.state != done && t != s.cur {
			out = append(out, t.name+": "+t.desc)
		}
	}
	return out
}

// Alive counts the threads whose name contains sub and which have not ended.
func Alive(sub string) int {
	n := 0
	for _, t := range s.threads {
		if t.state != done && strings.Contains(t.name, sub) {
			n++
		}
	}
	return n
}
