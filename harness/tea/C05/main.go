// C05: every sequence of suspensions, resumptions and external processes up to
// a length, every terminal operation failing in turn, and every schedule (up to
// a deviation bound) of such calls from several threads.
package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/phoenix-tui/phoenix/tea/internal/application/program"
	"github.com/phoenix-tui/phoenix/tea/zzverif/drv"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vsched"
)

var errChild = errors.New("exit status 3")

// proc stands for the external process.
type proc struct {
	w        *drv.World
	running  int
	runs     int
	fail     bool
	startErr bool
	yields   int
	typed    string // typed while it runs, not read by it
	fg       int32  // foreground process group of the terminal
	hasTTY   bool
	setFails int // the n-th attempt to set the foreground group fails; 0: none
	sets     int
	killed   bool
	opts     program.TTYOptions
}

const parentPg, childPid = 100, 4242

func (p *proc) begin() {
	x := p.w.X
	if p.running > 0 {
		x.Fail("two-processes", "two external processes have the terminal at the same time")
	}
	p.running++
	p.runs++
	p.w.Handed = true
	if n := p.w.Term.Normal(); n != "" {
		x.Fail("mode-during-process", "the external process started with the terminal in: "+n)
	}
}

func (p *proc) work() {
	x := p.w.X
	before := vsched.Unread(p.w.TTY)
	if p.typed != "" {
		vsched.Feed(p.w.TTY, p.typed)
	}
	p.w.Out.WriteString("child\r\n")
	for i := 0; i < p.yields; i++ {
		vsched.Yield()
	}
	vsched.WaitIdle()
	if got := vsched.Unread(p.w.TTY); !strings.HasPrefix(got, before+p.typed) {
		x.Fail("input-stolen", fmt.Sprintf("input %q typed for the external process was taken by the program, %q is left", before+p.typed, got))
	}
	if n := p.w.Term.Normal(); n != "" {
		x.Fail("mode-during-process", "the terminal was put in: "+n+" while the external process ran")
	}
}

func (p *proc) end() {
	p.running--
	p.w.Handed = false
}

func (p *proc) hooks() {
	x := p.w.X
	x.Hooks.Run = func(c *exec.Cmd) error {
		p.begin()
		if c.Stdin != os.Stdin || c.Stdout != os.Stdout || c.Stderr != os.Stderr {
			x.Fail("stdio", "the external process is not connected to the terminal")
		}
		p.work()
		p.end()
		if p.fail || c.Path == "fail" {
			return errChild
		}
		return nil
	}
	x.Hooks.Start = func(c *exec.Cmd) error {
		if p.startErr {
			return errChild
		}
		p.begin()
		if c.Stdin != os.Stdin || c.Stdout != os.Stdout || c.Stderr != os.Stderr {
			x.Fail("stdio", "the external process is not connected to the terminal")
		}
		if g := c.SysProcAttr != nil && c.SysProcAttr.Setpgid && c.SysProcAttr.Pgid == 0; g != p.opts.CreateProcessGroup {
			x.Fail("process-group", fmt.Sprintf("own process group: %v, asked for: %v", g, p.opts.CreateProcessGroup))
		}
		p.killed = false
		c.Process = &os.Process{Pid: childPid}
		return nil
	}
	x.Hooks.Wait = func(c *exec.Cmd) error {
		if !p.killed {
			if p.opts.TransferForeground && p.fg != childPid {
				x.Fail("foreground-child", "the external process was not given the foreground")
			}
			if !p.opts.TransferForeground && p.fg != parentPg {
				x.Fail("foreground-child", "the external process was given the foreground unasked")
			}
			p.work()
		}
		p.end()
		if p.fail || p.killed {
			return errChild
		}
		return nil
	}
	x.Hooks.Kill = func(*os.Process) error {
		p.killed = true
		return nil
	}
	x.Hooks.Sys = func(trap, a1, a2, a3 uintptr) (uintptr, uintptr, syscall.Errno) {
		if trap != syscall.SYS_IOCTL || !p.hasTTY {
			return 0, 0, syscall.ENOTTY
		}
		v := (*int32)(unsafe.Pointer(a3))
		switch a2 {
		case 0x540F:
			*v = p.fg
		case 0x5410:
			p.sets++
			if p.sets == p.setFails {
				return 0, 0, syscall.EPERM
			}
			p.fg = *v
		default:
			return 0, 0, syscall.EINVAL
		}
		return 0, 0, 0
	}
}

// shown demands that the view is on the screen: all of it in the alternate
// screen, its last lines inline.
func shown(w *drv.World, alt bool, key string) {
	got, want := w.Screen(), drv.ViewOf(w.N)
	if alt && got != want || !alt && got != want && !strings.HasSuffix(got, "\n"+want) {
		w.X.Fail(key, fmt.Sprintf("the screen shows %q, the view of the model is %q", got, want))
	}
}

// check compares the state of the program with what it should be: suspended or
// its own modes. want is the input that must have reached Update.
func check(w *drv.World, alt, susp bool, want []string, after string) {
	x := w.X
	if w.P.IsSuspended() != susp {
		x.Fail("suspended-flag", fmt.Sprintf("IsSuspended is %v after %s", !susp, after))
	}
	if susp {
		if n := w.Term.Normal(); n != "" {
			x.Fail("mode-while-suspended", "suspended, the terminal is in: "+n+" after "+after)
		}
	} else {
		if !w.Term.Raw || w.Term.Alt != alt {
			x.Fail("mode-after-resume", fmt.Sprintf("raw mode %v, alternate screen %v (want true, %v) after %s", w.Term.Raw, w.Term.Alt, alt, after))
		}
		shown(w, alt, "not-shown")
	}
	if got := strings.Join(w.Seen, ","); got != strings.Join(want, ",") {
		x.Fail("messages", fmt.Sprintf("Update saw %s, should have seen %s after %s", got, strings.Join(want, ","), after))
	}
}

func allSeqs(alphabet string, n int) []string {
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, c := range alphabet {
				next = append(next, s+string(c))
			}
		}
		last = next
	}
	return last
}

type config struct {
	how         string
	public, alt bool
}

var configs = []config{{"run", true, true}, {"start", false, true}, {"start", true, false}, {"run", false, false}}

// sequences: one caller; after every call the whole state is compared with a
// reference.
func sequences(name, alphabet string, length int, cfgs []config, bound int) *vsched.Scenario {
	seqs := allSeqs(alphabet, length)
	return &vsched.Scenario{
		Name: name, Variants: len(seqs) * len(cfgs), Bound: bound, MaxSteps: 20000, MaxTime: time.Minute,
		Body: func(x *vsched.X) {
			cfg := cfgs[x.Variant%len(cfgs)]
			ops := seqs[x.Variant/len(cfgs)]
			w := drv.New(x, cfg.public, cfg.alt, true)
			p := &proc{w: w, fg: parentPg, hasTTY: true}
			p.hooks()
			ended := w.Running(cfg.how)
			vsched.Settle(100 * time.Millisecond)
			check(w, cfg.alt, false, nil, "the start")
			susp := false
			var want, held []string
			done := ""
			for i, op := range ops {
				done += string(op)
				p.fail, p.typed, p.setFails, p.sets, p.startErr = false, "", 0, 0, false
				p.opts = program.TTYOptions{}
				var err error
				var wantErr error
				execd := false
				if !strings.ContainsRune("SRMK", op) {
					w.Handed = false // until the process starts
				}
				switch op {
				case 'S':
					err = w.P.Suspend()
					susp = true
					w.Handed = true
				case 'R':
					w.Handed = false
					err = w.P.Resume()
					susp = false
				case 'M':
					m := fmt.Sprint("m", i)
					err = w.Send(drv.T(m))
					want = append(want, m)
				case 'K':
					k := string(rune('a' + i))
					vsched.Feed(w.TTY, k)
					held = append(held, "key:"+k)
				case 'E', 'F':
					p.fail = op == 'F'
					if p.fail {
						wantErr = errChild
					}
					p.typed = string(rune('A' + i))
					held = append(held, "key:"+p.typed)
					execd = true
					err = w.P.ExecProcess(exec.Command("x"))
				default: // external process with control of the terminal
					p.opts = program.TTYOptions{TransferForeground: true, CreateProcessGroup: true}
					execd = true
					switch op {
					case 't':
						p.opts.CreateProcessGroup = false
						p.hasTTY = true
					case 'p':
						p.opts = program.TTYOptions{CreateProcessGroup: true}
					case 'n':
						p.hasTTY = false
					case 's':
						p.startErr, wantErr = true, errChild
					case 'f':
						p.fail, wantErr = true, errChild
					case 'x':
						p.setFails, wantErr = 1, syscall.EPERM
					case 'y':
						p.setFails = 2
					}
					before := p.runs
					err = w.P.ExecProcessWithTTY(exec.Command("x"), p.opts)
					if p.running != 0 {
						x.Fail("left-running", "the program took the terminal back from a process that was not gone after "+done)
						p.end()
					}
					if op == 'x' && !p.killed {
						x.Fail("left-running", "a process that could not be given the terminal was left alive")
					}
					if r := p.runs - before; r != 1 && op != 's' {
						x.Fail("runs", fmt.Sprintf("the external process ran %d times", r))
					}
					if p.fg != parentPg && op != 'y' {
						x.Fail("foreground", fmt.Sprintf("the foreground process group is %d afterwards, it was %d", p.fg, parentPg))
					}
					p.fg = parentPg
					p.hasTTY = true
				}
				if execd {
					susp, w.Handed = false, false
				}
				if !errors.Is(err, wantErr) || wantErr == nil && err != nil {
					if !(wantErr != nil && err != nil && strings.Contains(err.Error(), wantErr.Error())) {
						x.Fail("result", fmt.Sprintf("%s returned %v, not %v", done, err, wantErr))
					}
				}
				if susp {
					before := len(vsched.Unread(w.TTY))
					vsched.Settle(100 * time.Millisecond)
					if before != len(vsched.Unread(w.TTY)) {
						x.Fail("input-stolen", "input was read while suspended after "+done)
					}
				} else {
					vsched.Settle(100 * time.Millisecond)
					want = append(want, held...)
					held = nil
				}
				// a resumption hands out held keys and may come before or after
				// messages that were sent meanwhile; those were handled at once
				check(w, cfg.alt, susp, want, done)
				if x.Failed() {
					return
				}
			}
			x.Nontrivial()
			if susp {
				w.Handed = false
				if err := w.P.Resume(); err != nil {
					x.Fail("result", err.Error())
				}
				vsched.Settle(100 * time.Millisecond)
				check(w, cfg.alt, false, append(want, held...), "the last resumption")
			}
			w.P.Stop()
			if !ended(time.Second) {
				x.Fail("never-ends", "the program did not end after "+ops)
				return
			}
			w.CheckNormal("modes-at-end")
			if w.P.IsSuspended() {
				x.Fail("suspended-flag", "suspended after the end")
			}
		},
	}
}

// failing: every terminal operation that a call makes fails in turn; calling
// again then succeeds.
func failing() *vsched.Scenario {
	const maxFail = 8
	return &vsched.Scenario{
		Name: "terminal-fails", Variants: len(configs) * maxFail * 5, Bound: 1, MaxSteps: 20000, MaxTime: time.Minute,
		Body: func(x *vsched.X) {
			cfg := configs[x.Variant%len(configs)]
			v := x.Variant / len(configs)
			n, what := v%maxFail, v/maxFail
			w := drv.New(x, cfg.public, cfg.alt, true)
			p := &proc{w: w, fg: parentPg, hasTTY: true}
			p.hooks()
			ended := w.Running(cfg.how)
			vsched.Settle(100 * time.Millisecond)
			call := func(again bool) error {
				if what == 1 && again {
					w.Handed = true
				}
				switch what {
				case 0:
					return w.P.Suspend()
				case 1:
					return w.P.Resume()
				case 3:
					p.fail = true
					return w.P.ExecProcess(exec.Command("x"))
				case 4:
					p.opts = program.TTYOptions{TransferForeground: true, CreateProcessGroup: true}
					return w.P.ExecProcessWithTTY(exec.Command("x"), p.opts)
				}
				return w.P.ExecProcess(exec.Command("x"))
			}
			if what == 1 {
				if err := w.P.Suspend(); err != nil {
					x.Fail("result", err.Error())
				}
			}
			start := w.Term.Calls
			w.Term.FailAt = map[int]bool{start + n: true}
			err := call(false)
			hit := w.Term.Calls > start+n
			op := ""
			if hit {
				op = w.Term.Log[start+n]
			}
			w.Term.FailAt = nil
			susp := w.P.IsSuspended()
			vsched.Settle(100 * time.Millisecond)
			x.Outcome(fmt.Sprintf("%d %s %v %v", what, op, err != nil, susp))
			desc := fmt.Sprintf("%s failed in %s", op, []string{"Suspend", "Resume", "ExecProcess", "a failing ExecProcess", "ExecProcessWithTTY"}[what])
			cursor := op == "HideCursor" || op == "ShowCursor"
			own := what != 3
			if hit && !cursor && err == nil {
				x.Fail("unreported", desc+" without an error")
			}
			if (!hit || cursor) && err != nil && own {
				x.Fail("result", fmt.Sprintf("%s: %v", desc, err))
			}
			if what == 3 && p.runs > 0 && (err == nil || !strings.Contains(err.Error(), errChild.Error())) {
				x.Fail("result", fmt.Sprintf("%s: the failure of the process is not in %v", desc, err))
			}
			hard := hit && !cursor
			wantSusp := false
			switch {
			case what == 0:
				wantSusp = !hard
			case hard && strings.HasPrefix(op, "Enter"):
				wantSusp = true
			}
			if susp != wantSusp {
				x.Fail("suspended-flag", fmt.Sprintf("%s: IsSuspended is %v", desc, susp))
			}
			if hard && what >= 2 && strings.HasPrefix(op, "Exit") && p.runs != 0 {
				x.Fail("runs", desc+", yet the process was run")
			}
			if !x.Failed() {
				if !susp {
					check(w, cfg.alt, false, nil, desc)
				} else if w.Term.Raw || w.Term.Alt {
					x.Fail("mode-while-suspended", "suspended, the terminal is in: "+w.Term.Normal()+" after: "+desc)
				}
			}
			x.Nontrivial()
			// input and the next attempt work
			vsched.Feed(w.TTY, "k")
			vsched.Settle(100 * time.Millisecond)
			if susp && vsched.Unread(w.TTY) != "k" {
				x.Fail("input-stolen", "input was read while suspended after: "+desc)
			}
			if susp {
				if err := w.P.Resume(); err != nil {
					x.Fail("cannot-resume", fmt.Sprintf("%s; then Resume: %v", desc, err))
				}
				vsched.Settle(100 * time.Millisecond)
			}
			check(w, cfg.alt, false, []string{"key:k"}, "resuming, "+desc)
			if err := w.P.Suspend(); err != nil {
				x.Fail("cannot-suspend", fmt.Sprintf("%s; then Suspend: %v", desc, err))
			}
			if err := w.P.Resume(); err != nil {
				x.Fail("cannot-resume", fmt.Sprintf("%s; then Resume: %v", desc, err))
			}
			vsched.Settle(100 * time.Millisecond)
			check(w, cfg.alt, false, []string{"key:k"}, "suspending and resuming, "+desc)
			w.P.Stop()
			if !ended(time.Second) {
				x.Fail("never-ends", "the program did not end")
				return
			}
			w.CheckNormal("modes-at-end")
		},
	}
}

// concurrent: several callers, messages and keys at the same time; afterwards
// the program is resumed and must be as before.
func concurrent(bound, ncfg int) *vsched.Scenario {
	plans := []string{
		"SR|SR", "SR|E", "E|E", "E|F", "SR|M", "E|M", "SR|K", "E|K", "S|R", "S|S", "SR|SRSR", "E|t", "t|t", "t|SR", "t|R", "SR|cE", "E|cE", "cE|M", "cE|cE", "ct|cE", "SR|MM|K", "E|MK",
	}
	return &vsched.Scenario{
		Name: "concurrent", Variants: len(plans) * ncfg, Bound: bound, MaxSteps: 20000, MaxTime: time.Minute, Races: true,
		Body: func(x *vsched.X) {
			i := x.Variant / ncfg
			plan := plans[i]
			cfg := configs[(x.Variant%ncfg*2+i)%len(configs)]
			if ncfg > 2 {
				cfg = configs[x.Variant%ncfg]
			}
			w := drv.New(x, cfg.public, cfg.alt, true)
			p := &proc{w: w, fg: parentPg, hasTTY: true, yields: 2}
			p.hooks()
			ended := w.Running(cfg.how)
			vsched.Settle(100 * time.Millisecond)
			fail := func(op string, err error) {
				if err != nil {
					x.Fail("result", fmt.Sprintf("%s in %s: %v", op, plan, err))
				}
			}
			execs := strings.Count(plan, "E") + strings.Count(plan, "t") + strings.Count(plan, "F")
			tty := program.TTYOptions{TransferForeground: true, CreateProcessGroup: true}
			p.opts = tty
			finished := 0
			w.OnMsg = func(l string) drv.Cmd {
				switch l {
				case "cE":
					return func() any { fail("exec", w.P.ExecProcess(exec.Command("x"))); return drv.T("cdone") }
				case "ct":
					return func() any { fail("exec", w.P.ExecProcessWithTTY(exec.Command("x"), tty)); return drv.T("cdone") }
				}
				return nil
			}
			want := map[string]int{}
			one := func(ops string) {
				for i := 0; i < len(ops); i++ {
					switch ops[i] {
					case 'S':
						fail("Suspend", w.P.Suspend())
					case 'R':
						fail("Resume", w.P.Resume())
					case 'E':
						fail("exec", w.P.ExecProcess(exec.Command("x")))
					case 't':
						fail("exec", w.P.ExecProcessWithTTY(exec.Command("x"), tty))
					case 'F':
						if err := w.P.ExecProcess(&exec.Cmd{Path: "fail"}); !errors.Is(err, errChild) {
							x.Fail("result", fmt.Sprintf("failing exec in %s: %v", plan, err))
						}
					case 'M':
						fail("Send", w.Send(drv.T("m")))
						want["m"]++
					case 'K':
						vsched.Feed(w.TTY, "k")
						want["key:k"]++
					case 'c':
						i++
						l := ops[i-1 : i+1]
						fail("Send", w.Send(drv.T(l)))
						want[l]++
						want["cdone"]++
					}
				}
				finished++
			}
			parts := strings.Split(plan, "|")
			for _, t := range parts[1:] {
				vsched.GoName("caller", func() { one(t) })
			}
			one(parts[0])
			vsched.Await("callers", func() bool { return finished == len(parts) })
			vsched.Settle(300 * time.Millisecond)
			x.Outcome(fmt.Sprint(w.P.IsSuspended(), w.Seen))
			if w.P.IsSuspended() {
				if !strings.Contains(plan, "S") || plan == "SR|E" || plan == "SR|SR" {
					x.Fail("suspended-flag", plan+" left the program suspended")
				}
				if n := w.Term.Normal(); n != "" {
					x.Fail("mode-while-suspended", "suspended, the terminal is in: "+n+" after "+plan)
				}
				fail("Resume", w.P.Resume())
				vsched.Settle(100 * time.Millisecond)
			}
			x.Nontrivial()
			// typed bytes are delivered after the last resumption
			vsched.Feed(w.TTY, "z")
			vsched.Settle(100 * time.Millisecond)
			want["key:z"]++
			if w.P.IsSuspended() || !w.Term.Raw || w.Term.Alt != cfg.alt {
				x.Fail("mode-after-resume", fmt.Sprintf("suspended %v, raw mode %v, alternate screen %v (want false, true, %v) after %s", w.P.IsSuspended(), w.Term.Raw, w.Term.Alt, cfg.alt, plan))
			}
			if p.runs != execs {
				x.Fail("runs", fmt.Sprintf("%d processes ran, %d were asked for", p.runs, execs))
			}
			if p.fg != parentPg {
				x.Fail("foreground", fmt.Sprintf("the foreground process group is %d afterwards, it was %d", p.fg, parentPg))
			}
			shown(w, cfg.alt, "not-shown")
			for _, s := range w.Seen {
				want[s]--
			}
			for l, n := range want {
				if n > 0 && l == "key:k" {
					continue // typed before a suspension: see C06
				}
				if n != 0 {
					x.Fail("messages", fmt.Sprintf("%s reached Update %d times too few after %s", l, n, plan))
				}
			}
			w.P.Stop()
			if !ended(time.Second) {
				x.Fail("never-ends", "the program did not end after "+plan)
				return
			}
			w.CheckNormal("modes-at-end")
		},
	}
}

func scenarios(thorough bool) []*vsched.Scenario {
	if thorough {
		return []*vsched.Scenario{
			sequences("sequences", "SREFMK", 5, configs, 0),
			sequences("tty-sequences", "tpnsfxySR", 3, configs, 0),
			sequences("short", "SREKM", 3, configs, 1),
			failing(), concurrent(3, 4),
		}
	}
	return []*vsched.Scenario{
		sequences("sequences", "SREFMK", 4, configs[:2], 0),
		sequences("inline-sequences", "SREFMK", 3, configs[2:], 0),
		sequences("tty-sequences", "tpnsfxySR", 2, configs, 0),
		sequences("short", "SREKM", 2, configs, 1),
		failing(), concurrent(2, 2),
	}
}

func main() {
	log.SetOutput(io.Discard)
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C05", "model_checking", 0, func(c *vk.C) {
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 100*time.Second, 13*time.Minute))
		c.Sched(rep, err)
		c.Rule("one case per schedule: all sequences of suspend, resume, successful and failing external process, message and key up to the length bound, all sequences of external processes with control of the terminal and their failures, each terminal operation of each call failing in turn, and 22 plans of concurrent calls under all schedules up to the deviation bound; public and internal program, alternate screen and inline")
	})
}
