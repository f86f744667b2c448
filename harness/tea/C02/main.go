// C02: every terminal operation failing at every call index, every callback
// panicking at every call, every way to end a run, after suspensions and
// external processes, under every schedule up to a deviation bound.
package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os/exec"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/tea/zzverif/drv"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vsched"
)

type plan struct {
	how         string
	public, alt bool
	steps       string // S suspend, R resume, E external process, F failing one, M message, s r e the same from a command, u v w from within Update
	end         string // stop, quit, qmsg, qcmd, or a panic in init, update or view number n
	n           int
	fails       []int
	again       bool // a second run follows
}

func (p plan) String() string {
	return fmt.Sprintf("%s public=%v alt=%v steps=%q end=%s%d terminal calls failing=%v", p.how, p.public, p.alt, p.steps, p.end, p.n, p.fails)
}

var errChild = errors.New("exit status 3")

func run(pl plan) func(x *vsched.X) {
	return func(x *vsched.X) {
		w := drv.New(x, pl.public, pl.alt, true)
		w.Term.Strict = true
		w.Term.FailAt = map[int]bool{}
		for _, f := range pl.fails {
			w.Term.FailAt[f] = true
		}
		w.FailOut = func(n int) bool { return len(pl.fails) > 0 && pl.fails[0] == n }
		x.Hooks.Run = func(c *exec.Cmd) error {
			if c.Path == "fail" {
				return errChild
			}
			return nil
		}
		panics := strings.HasPrefix(pl.end, "p")
		do := func(op byte) {
			w.Term.MayShow++
			defer func() { w.Term.MayShow-- }()
			switch op {
			case 'S', 's', 'u':
				_ = w.P.Suspend()
			case 'R', 'r', 'v':
				_ = w.P.Resume()
			case 'E', 'e', 'w':
				_ = w.P.ExecProcess(&exec.Cmd{Path: "ok"})
			case 'F':
				_ = w.P.ExecProcess(&exec.Cmd{Path: "fail"})
			}
		}
		acked := 0
		w.OnInit = func() drv.Cmd {
			if pl.end == "pinit" {
				panic("init")
			}
			return nil
		}
		w.OnMsg = func(l string) drv.Cmd {
			if pl.end == "pupdate" && w.N == pl.n {
				panic("update")
			}
			switch {
			case strings.HasPrefix(l, "do"):
				op := l[2]
				if op >= 'u' && op <= 'w' {
					do(op)
					acked++
					return nil
				}
				return func() any { do(op); acked++; return nil }
			case l == "quit":
				return func() any { return drv.Quit{} }
			}
			return nil
		}
		w.OnView = func() {
			if pl.end == "pview" && w.Views == pl.n+1 {
				panic("view")
			}
		}
		var runErr error
		var panicked any
		done := false
		if pl.how == "run" {
			vsched.GoName("Run", func() {
				ok := false
				defer func() {
					if r := recover(); r != nil {
						panicked = r
						ok = true
					}
					if ok {
						w.Over, done = true, true
						if w.P.IsRunning() {
							x.Fail("still-running", "IsRunning is true after Run ended")
						}
					}
				}()
				runErr = w.P.Run()
				ok = true
			})
			vsched.Await("started", func() bool { return w.Started })
		} else if err := w.P.Start(); err != nil {
			x.Fail("start", err.Error())
		}
		over := func() bool {
			if pl.how == "run" {
				return done
			}
			return !w.P.IsRunning()
		}
		for i := 0; i < len(pl.steps) && !over(); i++ {
			op := pl.steps[i]
			switch {
			case op == 'M':
				_ = w.Send(drv.T("m"))
			case op >= 'a':
				want := acked + 1
				if w.Send(drv.T("do"+string(op))) != nil {
					continue
				}
				for k := 0; acked < want && !over() && k < 100; k++ {
					vsched.Sleep(5 * time.Millisecond)
				}
			default:
				do(op)
			}
		}
		switch pl.end {
		case "stop":
			w.P.Stop()
		case "quit":
			w.Quit()
		case "qmsg":
			_ = w.Send(drv.Quit{})
		case "qcmd":
			_ = w.Send(drv.T("quit"))
		}
		for k := 0; !over() && k < 200; k++ {
			if panics {
				_ = w.Send(drv.T("m"))
			}
			vsched.Sleep(5 * time.Millisecond)
		}
		if !over() {
			x.Fail("never-ends", "the program did not end: "+pl.String())
			return
		}
		w.Over = true
		vsched.Settle(200 * time.Millisecond)
		x.Nontrivial()
		desc := pl.String() + ", terminal calls: " + strings.Join(w.Term.Log, " ")
		altFailed := runErr != nil
		if panics && panicked == nil && !altFailed {
			x.Fail("panic-lost", "the panic did not leave Run: "+desc)
		}
		if !panics && panicked != nil {
			x.Fail("panic", fmt.Sprintf("%v: %s", panicked, desc))
		}
		if runErr != nil {
			n := 0 // may only be an alternate screen that could not be entered
			if pl.alt {
				n = 1
			}
			if n == 0 || len(w.Term.Log) < 2 || !w.Term.FailAt[1] || w.Inits > 0 {
				x.Fail("run-error", fmt.Sprintf("%v: %s", runErr, desc))
			}
		}
		if pl.how == "run" && pl.alt && w.Term.FailAt[1] && runErr == nil {
			x.Fail("run-error", "Run reports no error: "+desc)
		}
		if w.Term.Raw && !w.Term.Failed["ExitRawMode"] {
			x.Fail("raw-mode-left", "the terminal was left in raw mode: "+desc)
		}
		if w.Term.Alt && !w.Term.Failed["ExitAltScreen"] {
			x.Fail("alt-screen-left", "the terminal was left in the alternate screen: "+desc)
		}
		if w.Term.Hidden && !w.Term.Failed["ShowCursor"] {
			x.Fail("cursor-left", "the cursor was left hidden: "+desc)
		}
		if w.P.IsSuspended() {
			x.Fail("still-suspended", "still suspended after the end: "+desc)
		}
		vsched.Feed(w.TTY, "zz")
		vsched.Settle(100 * time.Millisecond)
		if vsched.Unread(w.TTY) != "zz" {
			x.Fail("input-stolen", "input is read after the end: "+desc)
		}
		if pl.again {
			w.Over, w.Started, w.Inits = false, false, 0
			w.OnInit, w.OnMsg, w.OnView = nil, nil, nil
			ended := w.Running(pl.how)
			_ = w.Send(drv.T("m"))
			w.P.Stop()
			if !ended(time.Second) {
				x.Fail("never-ends", "the second run did not end: "+desc)
			}
			w.Over = true
			w.CheckNormal("second-run")
		}
		x.Outcome(fmt.Sprint(pl.end, " ", panicked != nil, " ", runErr != nil, " ", len(w.Term.Log)))
	}
}

func plans(thorough bool) (out []plan) {
	stepLists := []string{"", "M", "S", "SR", "E", "F", "s", "r", "sr", "e", "u", "uv", "w", "SRM", "SRSR", "uvE", "SRS", "EuvS", "RR"}
	ends := []plan{{end: "stop"}, {end: "quit"}, {end: "qmsg"}, {end: "qcmd"}, {end: "pinit"}, {end: "pview", n: 0}, {end: "pview", n: 1}, {end: "pupdate", n: 1}, {end: "pupdate", n: 2}, {end: "pview", n: 2}}
	i := 0
	maxFail := 11
	for _, st := range stepLists {
		for _, e := range ends {
			for _, alt := range []bool{true, false} {
				for f := -1; f < maxFail; f++ {
					if !alt && f > 7 || len(st) < 2 && f > 8 {
						continue
					}
					for _, how := range []string{"run", "start"} {
						if how == "start" && e.end[0] == 'p' || len(st) > 0 && e.end == "pinit" {
							continue
						}
						i++
						if !thorough && f >= 0 && i%2 == 0 && how == "start" {
							continue
						}
						p := plan{how: how, public: i%3 == 0 && e.end != "quit", alt: alt, steps: st, end: e.end, n: e.n}
						if f >= 0 {
							p.fails = []int{f}
						}
						out = append(out, p)
						if !thorough && f >= 0 && f < 2 && len(st) < 2 { // a second failure early on
							for g := f + 1; g < 4; g++ {
								q := p
								q.fails = []int{f, g}
								out = append(out, q)
							}
						}
						if thorough && f >= 0 {
							for g := f + 1; g < maxFail; g++ {
								q := p
								q.fails = []int{f, g}
								out = append(out, q)
							}
						}
					}
				}
			}
		}
	}
	return
}

func scenarios(thorough bool) []*vsched.Scenario {
	ps := plans(thorough)
	var free []plan // no failing operation: deeper
	for i, p := range ps {
		if len(p.fails) == 0 && (thorough || i%3 == 0) {
			free = append(free, p)
		}
	}
	var again []plan // each followed by a second run
	for _, p := range ps {
		if len(p.fails) == 0 && p.end[0] != 'p' {
			p.again = true
			again = append(again, p)
		}
	}
	mk := func(name string, ps []plan, bound int) *vsched.Scenario {
		return &vsched.Scenario{Name: name, Variants: len(ps), Bound: bound, MaxSteps: 20000, MaxTime: time.Minute,
			Body: func(x *vsched.X) { run(ps[x.Variant])(x) }}
	}
	if thorough {
		return []*vsched.Scenario{mk("endings", free, 3), mk("faults", ps, 1), mk("again", again, 2)}
	}
	return []*vsched.Scenario{mk("faults", ps, 1), mk("again", again, 1), mk("endings", free, 2)}
}

func main() {
	log.SetOutput(io.Discard)
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C02", "model_checking", 0, func(c *vk.C) {
		ps := plans(c.Thorough())
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 100*time.Second, 13*time.Minute))
		c.Sched(rep, err)
		c.Rule(fmt.Sprintf("one case per schedule: %d plans: 19 histories of suspensions, resumptions, external processes and messages (from outside, from commands and from within Update) x every way to end (Stop, Quit, quit message, quit command, panic in Init, in the first two Updates and the first three Views) x every index of a failing terminal call (and of a failing output write) x alternate screen or inline x Run or Start; a second failure early on; runs without failures are followed by a second run", len(ps)))
	})
}
