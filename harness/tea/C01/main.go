// C01: every schedule (up to a deviation bound) of a running program, the
// requests to end it and everything else that can happen meanwhile.
package main

import (
	"fmt"
	"os/exec"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/tea/zzverif/drv"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vsched"
)

// one program: how it is run, who asks it to end, what else happens
type plan struct {
	how    string
	public bool
	alt    bool
	quits  []string
	noise  []string
	again  bool // run it a second time afterwards
}

func (p plan) String() string {
	kind := "internal"
	if p.public {
		kind = "public"
	}
	return fmt.Sprintf("%s/%s quits=%v noise=%v again=%v", p.how, kind, p.quits, p.noise, p.again)
}

func (p plan) has(n string) bool {
	for _, k := range p.noise {
		if k == n {
			return true
		}
	}
	return false
}

func body(pl plan) func(x *vsched.X) {
	return func(x *vsched.X) {
		w := drv.New(x, pl.public, pl.alt, true)
		x.Hooks.Run = func(c *exec.Cmd) error { vsched.Sleep(20 * time.Millisecond); return nil }
		quit := func() any { return drv.Quit{} }
		tick := 0
		last := 1 << 30 // no further Updates
		w.OnInit = func() drv.Cmd {
			for _, q := range pl.quits {
				if q == "init" {
					return quit
				}
			}
			return nil
		}
		w.OnMsg = func(l string) drv.Cmd {
			switch l {
			case "q", "key:q":
				return quit
			case "Q":
				w.Quit()
				last = min(last, w.N)
			case "busy":
				vsched.Sleep(300 * time.Millisecond)
			case "verybusy":
				vsched.Sleep(1500 * time.Millisecond)
			case "batch":
				return w.Batch(func() any { return drv.T("b1") }, func() any { return nil }, func() any { return drv.T("b2") })
			case "qbatch":
				return w.Batch(func() any { return drv.T("b1") }, quit, func() any { return drv.T("b2") })
			case "qseq":
				return w.Sequence(func() any { return drv.T("s1") }, quit, func() any { return drv.T("s2") })
			case "many":
				return func() any {
					var b drv.BatchOf
					for i := 0; i < 150; i++ {
						b = append(b, drv.T(fmt.Sprint("m", i)))
					}
					return b
				}
			case "manycmds":
				return func() any { return drv.T("spawn40") }
			case "block":
				return func() any { vsched.Sleep(10 * time.Second); return drv.T("late") }
			case "slow": // longer than this run
				return func() any { vsched.Sleep(20 * time.Second); return drv.T("late") }
			case "slowquit":
				return func() any { vsched.Sleep(20 * time.Second); return drv.Quit{} }
			case "slowlist":
				return w.Batch(func() any { vsched.Sleep(20 * time.Second); return drv.T("late") }, func() any { return nil },
					func() any { vsched.Sleep(22 * time.Second); return drv.Quit{} })
			case "exec":
				return func() any { _ = w.P.ExecProcess(exec.Command("x")); return drv.T("executed") }
			case "tick":
				tick++
				return func() any { vsched.Sleep(time.Millisecond); return drv.T("tick") }
			}
			return nil
		}
		ended := w.Running(pl.how)
		for _, n := range pl.noise {
			switch n {
			case "sends":
				vsched.GoName("sender", func() {
					for i := 0; i < 2; i++ {
						_ = w.Send(drv.T(fmt.Sprint("n", i)))
					}
				})
			case "flood":
				vsched.GoName("sender", func() {
					for i := 0; i < 110; i++ {
						if w.Send(drv.T("f")) != nil {
							return
						}
					}
				})
			case "keys":
				vsched.GoName("typist", func() { vsched.Feed(w.TTY, "ab"); vsched.Feed(w.TTY, "c") })
			case "typing":
				vsched.Feed(w.TTY, strings.Repeat("a", 130))
				vsched.Sleep(time.Millisecond) // the queue is full of keys, more are waiting
			case "busy", "verybusy", "batch", "many", "block", "slow", "slowquit", "slowlist", "tick", "exec":
				_ = w.Send(drv.T(n))
			case "suspended":
				if err := w.P.Suspend(); err != nil {
					x.Fail("suspend", err.Error())
				}
			case "suspend":
				vsched.GoName("suspender", func() { _ = w.P.Suspend(); _ = w.P.Resume() })
			}
		}
		act := func(q string) {
			switch q {
			case "q", "Q", "qbatch", "qseq":
				for w.Send(drv.T(q)) != nil && w.P.IsRunning() {
				}
			case "key":
				vsched.Feed(w.TTY, "q")
			case "msg":
				for w.Send(drv.Quit{}) != nil && w.P.IsRunning() {
				}
			case "quit":
				w.Quit()
				last = min(last, w.N+1) // one may be about to begin
			case "Qin":
				_ = w.Send(drv.BatchOf{drv.T("b1"), drv.T("Q"), drv.T("b2"), drv.T("b3"), drv.SequenceOf{drv.T("b4")}})
			case "stop":
				t := vsched.Elapsed()
				w.P.Stop()
				if d := vsched.Elapsed() - t; d > 1500*time.Millisecond {
					x.Fail("stop-slow", fmt.Sprintf("Stop took %v", d))
				}
				if !pl.has("verybusy") {
					if w.P.IsRunning() {
						x.Fail("stop-early", "the program was still running when Stop returned")
					}
					w.Over = true
				}
			}
		}
		acting := 0
		if len(pl.quits) > 1 {
			for _, q := range pl.quits[1:] {
				acting++
				vsched.GoName("quitter", func() { act(q); acting-- })
			}
		}
		if len(pl.quits) > 0 {
			act(pl.quits[0])
		}
		x.Nontrivial()
		limit := 800 * time.Millisecond
		if pl.has("verybusy") {
			limit = 2500 * time.Millisecond
		}
		if pl.has("flood") {
			limit = 5 * time.Second
		}
		if !ended(limit) {
			x.Fail("never-ends", "the program still runs long after it was asked to end; "+strings.Join(vsched.Stuck(), "; "))
			return
		}
		w.CheckNormal("modes-left")
		w.Over = true
		seen := len(w.Seen)
		if w.N > last {
			x.Fail("late-update", fmt.Sprintf("%d Updates happened although the program had been asked to end after %d; they saw %v", w.N, last, w.Seen))
		}
		vsched.Settle(50 * time.Millisecond)
		if w.Send(drv.T("x")) == nil {
			x.Fail("send-after-end", "Send on a program that has ended reported success")
		}
		if pl.has("suspended") {
			if err := w.P.Resume(); err != nil {
				x.Fail("resume-after-end", err.Error())
			}
			w.CheckNormal("resume-after-end")
		}
		w.P.Stop() // not running: no effect
		if w.Quit != nil {
			w.Quit()
		}
		if vsched.Reading(w.TTY) > 0 {
			x.Fail("still-reading", "the terminal is still read after the end")
		}
		vsched.Settle(15 * time.Second)
		if len(w.Seen) != seen {
			x.Fail("after-end", "an Update happened after the end")
		}
		x.Outcome(strings.Join(w.Seen, ","))
		if !pl.again {
			return
		}
		vsched.Await("quitters end", func() bool { return acting == 0 })
		// neither the old requests nor the Quit and Stop in between end the next run
		w.Over = false
		w.Started = false
		w.Inits = 0
		w.OnInit = nil
		old := len(w.Seen)
		ended = w.Running("start")
		if err := w.Send(drv.T("again")); err != nil {
			x.Fail("again", "Send to the second run: "+err.Error())
		}
		vsched.Settle(20 * time.Millisecond)
		if pl.has("slow") || pl.has("slowquit") || pl.has("slowlist") {
			vsched.Settle(10 * time.Second) // what the first run started ends during this one
		}
		if got := strings.Join(noKeys(w.Seen[old:]), ","); got != "again" {
			x.Fail("again", fmt.Sprintf("the second run handled %q instead of the one message sent", got))
		}
		if !w.P.IsRunning() {
			x.Fail("again", "the second run ended by itself")
		}
		w.P.Stop()
		w.Over = true
		if !ended(time.Second) {
			x.Fail("never-ends", "the second run does not end")
		}
		w.CheckNormal("modes-left")
	}
}

// what is typed late is read by the next run
func noKeys(l []string) (o []string) {
	for _, s := range l {
		if !strings.HasPrefix(s, "key:") {
			o = append(o, s)
		}
	}
	return
}

func plans() (main, pairs []plan) {
	hows := []string{"run", "start"}
	for _, how := range hows {
		for _, q := range []string{"q", "quit", "stop", "msg", "key", "init", "Q", "Qin", "qbatch", "qseq"} {
			public := q == "q" || q == "stop" || q == "msg" || q == "key" || q == "qbatch" || q == "qseq" || q == "init"
			main = append(main, plan{how: how, public: public, alt: q == "q", quits: []string{q}, again: true})
		}
	}
	noises := []string{"sends", "keys", "busy", "verybusy", "batch", "block", "tick", "exec", "suspended", "suspend"}
	for i, n := range noises {
		for j, q := range []string{"q", "quit", "stop"} {
			if q == "q" && n == "suspended" && false {
				continue
			}
			pairs = append(pairs, plan{how: hows[(i+j)%2], alt: (i+j)%3 == 0, quits: []string{q}, noise: []string{n}, again: i%2 == j%2 && n != "tick" && n != "exec"})
		}
	}
	for i, n := range []string{"slow", "slowquit", "slowlist"} {
		for j, q := range []string{"q", "quit", "stop", "key"} {
			pairs = append(pairs, plan{how: hows[(i+j)%2], alt: j%2 == 0, public: q == "q" || q == "key", quits: []string{q}, noise: []string{n}, again: true})
		}
	}
	for j, qs := range [][]string{{"quit", "quit"}, {"quit", "stop"}, {"stop", "stop"}, {"q", "stop"}, {"q", "quit"}, {"msg", "quit"}, {"key", "stop"}} {
		pairs = append(pairs, plan{how: hows[j%2], quits: qs, again: qs[0] != "key"})
	}
	return
}

func scenarios(thorough bool) []*vsched.Scenario {
	pick := func(a, b int) int {
		if thorough {
			return b
		}
		return a
	}
	main, pairs := plans()
	mk := func(name string, ps []plan, bound int) *vsched.Scenario {
		return &vsched.Scenario{Name: name, Variants: len(ps), Bound: bound, MaxSteps: 30000, MaxTime: time.Minute, Races: true,
			Body: func(x *vsched.X) { body(ps[x.Variant])(x) }}
	}
	big := []plan{}
	for i, q := range []string{"quit", "stop", "q"} {
		for j, n := range []string{"many", "flood"} {
			big = append(big, plan{how: []string{"run", "start"}[(i+j)%2], public: false, quits: []string{q}, noise: []string{n, "sends"}, again: true})
			big = append(big, plan{how: []string{"run", "start"}[(i+j)%2], public: false, quits: []string{q}, noise: []string{"busy", n}})
		}
	}
	var flood []plan
	for _, how := range []string{"run", "start"} {
		flood = append(flood, plan{how: how, quits: []string{"q"}, noise: []string{"many", "flood"}}, plan{how: how, quits: []string{"quit"}, noise: []string{"many", "flood"}})
	}
	big = append(big, flood...)
	var typing []plan
	for i, q := range []string{"quit", "stop"} {
		for j, n := range []string{"busy", "tick"} {
			typing = append(typing, plan{how: []string{"run", "start"}[(i+j)%2], quits: []string{q}, noise: []string{n, "typing"}})
		}
	}
	timed := []plan{}
	for _, how := range []string{"run", "start"} {
		for _, q := range []string{"q", "quit", "stop"} {
			timed = append(timed, plan{how: how, quits: []string{q}, noise: []string{"exec"}}, plan{how: how, quits: []string{q}, noise: []string{"block", "tick"}})
		}
	}
	return []*vsched.Scenario{
		mk("end", main, pick(2, 3)),
		mk("end-while", pairs, pick(2, 3)),
		mk("end-typing", typing, pick(1, 1)),
		mk("end-loaded", big, pick(1, 1)),
	}
}

func main() {
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C01", "model_checking", 0, func(c *vk.C) {
		m, p := plans()
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 100*time.Second, 13*time.Minute))
		c.Sched(rep, err)
		c.Rule(fmt.Sprintf("one case per schedule: %d programs ended by each single request (each then run a second time), %d programs ended while something else happens or by two requests at once, 16 programs with 150 queued results or 110 concurrent sends, 4 programs with more keys typed than the queue holds; public and internal program, Run and Start; all schedules up to the deviation bound, unsynchronised accesses reported", len(m), len(p)))
	})
}
