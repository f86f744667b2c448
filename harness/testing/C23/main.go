// C23: every sequence of calls on the test terminals up to a depth is compared
// with a reference recorder, and every interleaving of small concurrent
// programs using one mock terminal must be linearizable.
package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/terminal"
	ptest "github.com/phoenix-tui/phoenix/testing"
	"github.com/phoenix-tui/phoenix/testing/zzverif/vk"
	"github.com/phoenix-tui/phoenix/testing/zzverif/vsched"
)

var _ terminal.Terminal = (*ptest.MockTerminal)(nil)

type call struct {
	name string // what must be recorded
	run  func(t terminal.Terminal) string
}

func e(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func calls() []call {
	var cs []call
	add := func(name string, f func(t terminal.Terminal) string) { cs = append(cs, call{name, f}) }
	for _, p := range [][2]int{{0, 0}, {3, -7}} {
		add(fmt.Sprintf("SetCursorPosition(%d, %d)", p[0], p[1]), func(t terminal.Terminal) string { return e(t.SetCursorPosition(p[0], p[1])) })
		add(fmt.Sprintf("WriteAt(%d, %d, %q)", p[0], p[1], "a\"é\n"), func(t terminal.Terminal) string { return e(t.WriteAt(p[0], p[1], "a\"é\n")) })
	}
	for _, n := range []int{1, -2} {
		add(fmt.Sprintf("MoveCursorUp(%d)", n), func(t terminal.Terminal) string { return e(t.MoveCursorUp(n)) })
		add(fmt.Sprintf("MoveCursorDown(%d)", n), func(t terminal.Terminal) string { return e(t.MoveCursorDown(n)) })
		add(fmt.Sprintf("MoveCursorLeft(%d)", n), func(t terminal.Terminal) string { return e(t.MoveCursorLeft(n)) })
		add(fmt.Sprintf("MoveCursorRight(%d)", n), func(t terminal.Terminal) string { return e(t.MoveCursorRight(n)) })
		add(fmt.Sprintf("ClearLines(%d)", n), func(t terminal.Terminal) string { return e(t.ClearLines(n)) })
	}
	for _, s := range []string{"", "x", "Clear", "\x1b[2J)"} {
		add(fmt.Sprintf("Write(%q)", s), func(t terminal.Terminal) string { return e(t.Write(s)) })
	}
	for _, s := range []terminal.CursorStyle{terminal.CursorBlock, terminal.CursorBar} {
		add(fmt.Sprintf("SetCursorStyle(%s)", s), func(t terminal.Terminal) string { return e(t.SetCursorStyle(s)) })
	}
	add("GetCursorPosition", func(t terminal.Terminal) string { x, y, err := t.GetCursorPosition(); return fmt.Sprint(x, y, err) })
	add("SaveCursorPosition", func(t terminal.Terminal) string { return e(t.SaveCursorPosition()) })
	add("RestoreCursorPosition", func(t terminal.Terminal) string { return e(t.RestoreCursorPosition()) })
	add("HideCursor", func(t terminal.Terminal) string { return e(t.HideCursor()) })
	add("ShowCursor", func(t terminal.Terminal) string { return e(t.ShowCursor()) })
	add("Clear", func(t terminal.Terminal) string { return e(t.Clear()) })
	add("ClearLine", func(t terminal.Terminal) string { return e(t.ClearLine()) })
	add("ClearFromCursor", func(t terminal.Terminal) string { return e(t.ClearFromCursor()) })
	add("ReadScreenBuffer", func(t terminal.Terminal) string { b, err := t.ReadScreenBuffer(); return fmt.Sprint(b == nil, err) })
	add("Size", func(t terminal.Terminal) string { w, h, err := t.Size(); return fmt.Sprint(w, h, err) })
	add("ColorDepth", func(t terminal.Terminal) string { return fmt.Sprint(t.ColorDepth()) })
	add("SupportsDirectPositioning", func(t terminal.Terminal) string { return fmt.Sprint(t.SupportsDirectPositioning()) })
	add("SupportsReadback", func(t terminal.Terminal) string { return fmt.Sprint(t.SupportsReadback()) })
	add("SupportsTrueColor", func(t terminal.Terminal) string { return fmt.Sprint(t.SupportsTrueColor()) })
	add("Platform", func(t terminal.Terminal) string { return fmt.Sprint(t.Platform()) })
	add("EnterAltScreen", func(t terminal.Terminal) string { return e(t.EnterAltScreen()) })
	add("ExitAltScreen", func(t terminal.Terminal) string { return e(t.ExitAltScreen()) })
	add("IsInAltScreen", func(t terminal.Terminal) string { return fmt.Sprint(t.IsInAltScreen()) })
	add("EnterRawMode", func(t terminal.Terminal) string { return e(t.EnterRawMode()) })
	add("ExitRawMode", func(t terminal.Terminal) string { return e(t.ExitRawMode()) })
	add("IsInRawMode", func(t terminal.Terminal) string { return fmt.Sprint(t.IsInRawMode()) })
	return cs
}

// fixed results of calls without effect
var fixed = map[string]string{"GetCursorPosition": "0 0 <nil>", "ReadScreenBuffer": "true <nil>", "Size": "80 24 <nil>", "ColorDepth": "256",
	"SupportsDirectPositioning": "false", "SupportsReadback": "false", "SupportsTrueColor": "true", "Platform": fmt.Sprint(terminal.PlatformUnknown)}

type st struct {
	alt, raw bool
	log      []string
}

func (s *st) step(name string) string {
	if name == "Reset" {
		s.log = nil
		return ""
	}
	if m, ok := strings.CutPrefix(name, "count:"); ok {
		n := 0
		for _, l := range s.log {
			if l == m || strings.HasPrefix(l, m+"(") {
				n++
			}
		}
		return fmt.Sprint(n)
	}
	s.log = append(s.log, name)
	sw := func(b *bool, to bool) string {
		if *b == to {
			return "error"
		}
		*b = to
		return "ok"
	}
	switch name {
	case "EnterAltScreen":
		return sw(&s.alt, true)
	case "ExitAltScreen":
		return sw(&s.alt, false)
	case "EnterRawMode":
		return sw(&s.raw, true)
	case "ExitRawMode":
		return sw(&s.raw, false)
	case "IsInAltScreen":
		return fmt.Sprint(s.alt)
	case "IsInRawMode":
		return fmt.Sprint(s.raw)
	}
	if f, ok := fixed[name]; ok {
		return f
	}
	return "ok"
}

func sequential(c *vk.C) {
	cs := calls()
	n := len(cs)
	// all methods of the interface are exercised
	have := map[string]bool{}
	for _, k := range cs {
		m, _, _ := strings.Cut(k.name, "(")
		have[m] = true
	}
	it := reflect.TypeOf((*terminal.Terminal)(nil)).Elem()
	for i := 0; i < it.NumMethod(); i++ {
		if !have[it.Method(i).Name] {
			c.Partial("method %s of the terminal interface is not exercised", it.Method(i).Name)
		}
	}
	mocks := append(append([]call{}, cs...), call{"Reset", nil}, call{"count:Write", nil}, call{"count:Clear", nil}, call{"count:SetCursorPosition", nil})
	depth := vk.Pick(c, 3, 4)
	n = len(mocks)
	var walk func(pre []int)
	total := c.Parallel(n, func(first int) {
		var run func(seq []int)
		run = func(seq []int) {
			m := ptest.NewMockTerminal()
			s := &st{}
			var names []string
			for _, i := range seq {
				k := mocks[i]
				names = append(names, k.name)
				var got string
				switch {
				case k.name == "Reset":
					m.Reset()
				case strings.HasPrefix(k.name, "count:"):
					got = fmt.Sprint(m.CallCount(strings.TrimPrefix(k.name, "count:")))
				default:
					got = k.run(m)
				}
				want := s.step(k.name)
				c.Transitions.Add(1)
				if got != want {
					c.Fail("result:"+k.name, fmt.Sprintf("after %v: %s returned %q, want %q", names[:len(names)-1], k.name, got, want), names)
					return
				}
			}
			c.Traces.Add(1)
			if strings.Join(m.Calls, "|") != strings.Join(s.log, "|") {
				c.Fail("log", fmt.Sprintf("after %v the log is %q, want %q", names, m.Calls, s.log), names)
				return
			}
			if len(seq) < depth {
				for i := range mocks {
					run(append(seq[:len(seq):len(seq)], i))
				}
			}
		}
		run([]int{first})
	})
	_ = walk
	if total < n {
		c.Partial("mock terminal: %d of %d first calls explored", total, n)
	}
	c.States.Add(4)
	c.Part("mock terminal: every sequence of up to %d of %d calls", depth, n)
	// the null terminal accepts everything and reports fixed capabilities
	for _, a := range cs {
		for _, b := range cs {
			t := ptest.NewNullTerminal()
			for _, k := range []call{a, b} {
				want := "ok"
				if f, ok := fixed[k.name]; ok {
					want = f
				}
				if strings.HasPrefix(k.name, "IsIn") {
					want = "false"
				}
				if got := k.run(t); got != want {
					c.Fail("null:"+k.name, fmt.Sprintf("null terminal %s returned %q, want %q", k.name, got, want), nil)
				}
				c.Transitions.Add(1)
			}
		}
	}
	c.Part("null terminal: every pair of calls")
}

// long: many calls on one mock, arguments of every size.
func long(c *vk.C) {
	cs := calls()
	for lead := range cs { // every call in turn is repeated most often
		m := ptest.NewMockTerminal()
		s := &st{}
		for i := range 3000 {
			k := cs[lead]
			if i%3 == 2 {
				k = cs[i/3%len(cs)]
			}
			got, want := k.run(m), s.step(k.name)
			c.Transitions.Add(1)
			if got != want {
				c.Fail("long", fmt.Sprintf("call %d: %s returned %q, want %q", i, k.name, got, want), nil)
				return
			}
			if i%61 == 0 || i == 2999 {
				method, _, _ := strings.Cut(k.name, "(")
				if n := fmt.Sprint(m.CallCount(method)); n != s.step("count:"+method) {
					c.Fail("long", fmt.Sprintf("%d calls were made, CallCount(%q) is %s, want %s", i+1, method, n, s.step("count:"+method)), nil)
					return
				}
				if strings.Join(m.Calls, "|") != strings.Join(s.log, "|") {
					c.Fail("long", fmt.Sprintf("the log of %d calls is wrong", i+1), nil)
					return
				}
			}
		}
		c.Traces.Add(1)
	}
	m := ptest.NewMockTerminal()
	var want []string
	for n := -300; n <= 300; n++ {
		_ = m.SetCursorPosition(n, 7-n)
		_ = m.MoveCursorUp(n)
		_ = m.MoveCursorDown(n)
		_ = m.MoveCursorLeft(n)
		_ = m.MoveCursorRight(n)
		_ = m.ClearLines(n)
		text := strings.Repeat("x世", max(0, n)) + string(rune(n+300))
		_ = m.Write(text)
		_ = m.WriteAt(-n, n, text)
		want = append(want, fmt.Sprintf("SetCursorPosition(%d, %d)", n, 7-n), fmt.Sprintf("MoveCursorUp(%d)", n), fmt.Sprintf("MoveCursorDown(%d)", n), fmt.Sprintf("MoveCursorLeft(%d)", n),
			fmt.Sprintf("MoveCursorRight(%d)", n), fmt.Sprintf("ClearLines(%d)", n), fmt.Sprintf("Write(%q)", text), fmt.Sprintf("WriteAt(%d, %d, %q)", -n, n, text))
		c.Transitions.Add(8)
	}
	for i := range want {
		if i >= len(m.Calls) || m.Calls[i] != want[i] {
			c.Fail("arguments", fmt.Sprintf("call %d should be recorded as %.80s", i, want[i]), nil)
			return
		}
	}
	c.Part("mock terminal: 3000 calls in a row for each of %d calls; arguments from -300 to 300, texts of up to 1200 bytes with every character up to U+0258", len(cs))
}

func scenario(name string, threads, per int, set []string, bound int) *vsched.Scenario {
	byName := map[string]call{}
	for _, k := range calls() {
		byName[k.name] = k
	}
	n := 1
	for i := 0; i < threads*per; i++ {
		n *= len(set)
	}
	return &vsched.Scenario{Name: name, Variants: n, Bound: bound, Races: true, AccYield: true, Body: func(x *vsched.X) {
		m := ptest.NewMockTerminal()
		clock, done := 0, 0
		var hist []vk.LinOp
		code := x.Variant
		for th := 0; th < threads; th++ {
			var prog []string
			for k := 0; k < per; k++ {
				prog = append(prog, set[code%len(set)])
				code /= len(set)
			}
			vsched.GoName("T"+string(rune('A'+th)), func() {
				for _, o := range prog {
					h := vk.LinOp{Thread: th, Op: o}
					clock++
					h.Call = clock
					switch {
					case o == "Reset":
						m.Reset()
					case strings.HasPrefix(o, "count:"):
						h.Out = fmt.Sprint(m.CallCount(strings.TrimPrefix(o, "count:")))
					default:
						h.Out = byName[o].run(m)
					}
					clock++
					h.Ret = clock
					hist = append(hist, h)
				}
				done++
			})
		}
		vsched.Await("all done", func() bool { return done == threads })
		log := strings.Join(m.Calls, "|")
		final := fmt.Sprintf("%v %v %s", m.IsInAltScreen(), m.IsInRawMode(), log)
		ok := vk.Linearizable(hist, "false false ", func(state, o string) (string, string) {
			var s st
			p := strings.SplitN(state, " ", 3)
			s.alt, s.raw = p[0] == "true", p[1] == "true"
			if p[2] != "" {
				s.log = strings.Split(p[2], "|")
			}
			out := s.step(o)
			return fmt.Sprintf("%v %v %s", s.alt, s.raw, strings.Join(s.log, "|")), out
		}, func(state string) bool { return state == final })
		if !ok {
			x.Fail("not-linearizable", "no order of the calls explains results and log "+final+":"+vk.History(hist))
		}
		x.Nontrivial()
		x.Outcome(fmt.Sprint(len(m.Calls)))
	}}
}

func scenarios(thorough bool) []*vsched.Scenario {
	all := []string{"MoveCursorUp(1)", "Write(\"x\")", "EnterAltScreen", "ExitAltScreen", "IsInAltScreen", "EnterRawMode", "ExitRawMode", "IsInRawMode", "Reset", "count:Write"}
	some := []string{"Write(\"x\")", "EnterAltScreen", "ExitAltScreen", "Reset"}
	b := 1
	if thorough {
		b = 3
	}
	var every []string
	for _, k := range calls() {
		every = append(every, k.name)
	}
	return []*vsched.Scenario{
		scenario("two threads, two calls each", 2, 2, all, b),
		scenario("two threads, one call each, every method", 2, 1, every, b+1),
		scenario("three threads, one call each", 3, 1, all, b+1),
		scenario("three threads, two calls each", 3, 2, some, b),
	}
}

func main() {
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C23", "model_checking", 0, func(c *vk.C) {
		sequential(c)
		long(c)
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 60*time.Second, 8*time.Minute))
		c.Sched(rep, err)
		c.Rule("call sequences: all up to the depth; concurrent programs: all programs of the stated sizes over the stated calls, all schedules up to the deviation bound with lock operations and field accesses as scheduling points")
	})
}
