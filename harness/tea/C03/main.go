// C03: every schedule (up to a deviation bound) of senders, a typist and
// commands with the event loop; what Update saw is compared with what was sent.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/tea"
	"github.com/phoenix-tui/phoenix/tea/internal/domain/model"
	"github.com/phoenix-tui/phoenix/tea/internal/domain/service"
	"github.com/phoenix-tui/phoenix/tea/zzverif/drv"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vsched"
)

type plan struct {
	how     string
	public  bool
	alt     bool
	senders [][]string // messages; "!x" asks for a command delivering cx, "size" is a window size
	keys    []string   // chunks typed
	init    bool       // Init returns a command
	slow    bool       // Update takes 150 ms
	quit    bool       // a last sender ends the program at any time
	resume  bool       // suspended and resumed once in between
	held    bool       // suspended until the senders have ended
	gate    bool       // the Update of "m0" takes long: the queue runs full and senders may be refused
}

func run(pl plan) func(x *vsched.X) {
	return func(x *vsched.X) {
		w := drv.New(x, pl.public, pl.alt, true)
		if pl.init {
			w.OnInit = func() drv.Cmd { return func() any { return drv.T("i") } }
		}
		w.OnMsg = func(l string) drv.Cmd {
			if pl.slow {
				vsched.Sleep(150 * time.Millisecond)
			}
			if l == "quit" {
				return func() any { return drv.Quit{} }
			}
			if pl.gate && l == "m0" {
				vsched.Sleep(250 * time.Millisecond)
			}
			if strings.HasPrefix(l, "!") {
				return func() any { vsched.Yield(); return drv.T("c" + l[1:]) }
			}
			return nil
		}
		ended := w.Running(pl.how)
		accepted := make([][]string, len(pl.senders))
		busy := len(pl.senders)
		for i, ms := range pl.senders {
			vsched.GoName(fmt.Sprint("sender", i), func() {
				for _, m := range ms {
					var v any = drv.T(m)
					if m == "size" {
						m = "size:30x9"
						if pl.public {
							v = tea.WindowSizeMsg{Width: 30, Height: 9}
						} else {
							v = model.WindowSizeMsg{Width: 30, Height: 9}
						}
					}
					if w.Send(v) == nil {
						accepted[i] = append(accepted[i], m)
					} else if !pl.quit && !pl.gate {
						x.Fail("send-refused", fmt.Sprintf("%q was refused by a running program", m))
					}
				}
				busy--
			})
		}
		if pl.held {
			if err := w.P.Suspend(); err != nil {
				x.Fail("suspend", err.Error())
			}
		}
		typed := false
		vsched.GoName("typist", func() {
			for _, k := range pl.keys {
				vsched.Feed(w.TTY, k)
			}
			typed = true
		})
		if pl.resume {
			if err := w.P.Suspend(); err != nil {
				x.Fail("suspend", err.Error())
			}
			if err := w.P.Resume(); err != nil {
				x.Fail("resume", err.Error())
			}
		}
		vsched.Await("senders end", func() bool { return busy == 0 && typed })
		if pl.held {
			if err := w.P.Resume(); err != nil {
				x.Fail("resume", err.Error())
			}
		}
		if pl.slow || pl.gate {
			vsched.Settle(3 * time.Second)
		} else {
			vsched.Settle(150 * time.Millisecond)
		}
		seen := strings.Join(w.Seen, ",")
		x.Outcome(seen)
		x.Nontrivial()
		// exactly once, in the sender's order
		check := func(who string, sent []string, exact bool) {
			in := map[string]bool{}
			for _, m := range sent {
				in[m] = true
			}
			var got []string
			for _, m := range w.Seen {
				if in[m] {
					got = append(got, m)
				}
			}
			g, s := strings.Join(got, ","), strings.Join(sent, ",")
			if exact && g != s || !strings.HasPrefix(s, g) {
				x.Fail("delivery", fmt.Sprintf("%s: sent %q, Update saw %q (all: %s)", who, s, g, seen))
			}
		}
		var all []string
		for i, a := range accepted {
			check(fmt.Sprint("sender ", i), a, !pl.quit)
			all = append(all, a...)
		}
		var keys []string
		for _, k := range pl.keys {
			for _, r := range k {
				keys = append(keys, "key:"+string(r))
			}
		}
		check("keyboard", keys, !pl.quit && !pl.resume && !pl.held)
		all = append(all, keys...)
		if pl.init {
			all = append(all, "i")
			check("Init's command", []string{"i"}, !pl.quit)
		}
		for _, m := range w.Seen {
			if strings.HasPrefix(m, "!") {
				all = append(all, "c"+m[1:])
				check("command", []string{"c" + m[1:]}, !pl.quit)
			}
		}
		// nothing else
		n := map[string]int{}
		for _, m := range all {
			n[m]++
		}
		for _, m := range w.Seen {
			if n[m]--; n[m] < 0 {
				x.Fail("invented", fmt.Sprintf("Update saw %q, which nobody sent (any more)", m))
			}
		}
		if w.Inits != 1 {
			x.Fail("init", fmt.Sprintf("Init was called %d times", w.Inits))
		}
		if pl.quit {
			if !ended(time.Second) {
				x.Fail("never-ends", "the program did not end")
			}
			return
		}
		if w.N > 0 || w.Draws > 0 {
			w.CheckShown("not-shown")
		}
		if w.Draws == 0 {
			x.Fail("not-shown", "no view was rendered")
		}
		w.P.Stop()
		if !ended(time.Second) {
			x.Fail("never-ends", "the program did not end")
		}
	}
}

func plans() []plan {
	ab, cd, ef := []string{"a", "b"}, []string{"c", "d"}, []string{"e", "f"}
	var out []plan
	for i, how := range []string{"run", "start", "run", "start"} {
		pub, alt := i%2 == 0, i/2 == 0
		out = append(out,
			plan{how: how, public: pub, alt: alt, senders: [][]string{ab, cd}},
			plan{how: how, public: pub, alt: !alt, senders: [][]string{ab}, keys: []string{"x", "yyz"}},
			plan{how: how, public: pub, alt: alt, senders: [][]string{{"!a", "b"}, {"!c"}}, init: true},
			plan{how: how, public: pub, alt: false, senders: [][]string{{"size", "a"}, {"b", "!d"}}},
			plan{how: how, public: pub, alt: !alt, senders: [][]string{ab}, keys: []string{"xy"}, quit: true},
			plan{how: how, public: pub, alt: alt, senders: [][]string{ab, {"!c"}}, resume: true, keys: []string{"x"}},
			plan{how: how, public: pub, alt: alt, senders: [][]string{ab, {"!c", "d"}}, slow: true, keys: []string{"x"}},
		)
		if i < 2 {
			out = append(out, plan{how: how, public: pub, alt: alt, senders: [][]string{ab, cd, ef}},
				plan{how: how, public: pub, senders: [][]string{{"a", "quit", "b"}, cd}, quit: true})
		}
	}
	// plain quit plans end through a "quit" message
	for i := range out {
		if out[i].quit && len(out[i].senders) == 1 {
			out[i].senders = append(out[i].senders, []string{"quit"})
		}
	}
	return out
}

// what the host of the program writes between two runs
var between = []string{"", "note\r\n", "\r\n\r\nnote\r\n", "\x1b[2J\x1b[H", "\x1b[2J\x1b[Hnote\r\n"}

// rerun runs a program three times, with output of its host in between: every
// run shows the view of the model and leaves that output alone.
func rerun(x *vsched.X) {
	v := x.Variant
	how, v := []string{"run", "start"}[v%2], v/2
	public, v := v%2 == 0, v/2
	alt, v := v%2 == 0, v/2
	between := between[v]
	w := drv.New(x, public, alt, true)
	x.Nontrivial()
	shown := func(when, note string) {
		got, view := w.Screen(), drv.ViewOf(w.N)
		if alt && got != view || !strings.HasSuffix("\n"+got, "\n"+view) {
			x.Fail("not-shown", fmt.Sprintf("%s: the screen shows %q, the view of the model is %q", when, got, view))
		} else if above := strings.TrimSuffix("\n"+got, "\n"+view); !alt && note != "" && !strings.HasSuffix(above, "\n"+note) {
			x.Fail("host-output", fmt.Sprintf("%s: what the program's host wrote is gone: the screen shows %q", when, got))
		}
	}
	for i := 0; i < 3; i++ {
		w.Over, w.Started, w.Inits = false, false, 0
		note := ""
		if i > 0 {
			s := strings.Replace(between, "note", fmt.Sprint("note", i), 1)
			w.Out.WriteString(s)
			if strings.Contains(s, "note") {
				note = fmt.Sprint("note", i)
			}
		}
		ended := w.Running(how)
		vsched.Settle(50 * time.Millisecond)
		shown(fmt.Sprintf("run %d starts", i+1), note)
		for j := 0; j < i; j++ {
			if err := w.Send(drv.T(fmt.Sprint("m", j))); err != nil {
				x.Fail("send-refused", err.Error())
			}
			vsched.Settle(50 * time.Millisecond)
			shown(fmt.Sprintf("run %d after %d messages", i+1, j+1), note)
		}
		w.P.Stop()
		if !ended(time.Second) {
			x.Fail("never-ends", "the program did not end")
			return
		}
		w.CheckNormal("modes-left")
	}
	x.Outcome(w.Screen())
}

// contents sends one message of every kind, with every field different from the
// others, and looks at what the model got: by Send, as the result of a command,
// inside a batch and a sequence.
func contents(x *vsched.X) {
	pub := x.Variant%2 == 0
	w := drv.New(x, pub, false, true)
	var give any
	w.OnMsg = func(l string) drv.Cmd {
		if l == "give" {
			return func() any { return give }
		}
		return nil
	}
	ended := w.Running([]string{"start", "run"}[x.Variant/2])
	at := time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)
	n := 0
	text := ""
	w.Text = func(int) string { return text }
	try := func(m any) {
		n++
		switch n % 3 { // the model shows nothing, the same again, something else
		case 0:
			text = ""
		case 1:
			text = fmt.Sprint("message ", n)
		}
		want := fmt.Sprintf("%T%#v", m, m)
		for i, how := range []string{"Send", "a command", "a batch", "a sequence", "Send twice"} {
			have := len(w.Raw)
			var err error
			switch i {
			case 0:
				err = w.Send(m)
			case 1:
				give = m
				err = w.Send(drv.T("give"))
				have++
			case 2:
				err = w.Send(drv.BatchOf{m, drv.T("end")})
			case 3:
				err = w.Send(drv.SequenceOf{drv.T("start"), drv.BatchOf{m}})
				have++
			case 4: // the same once more
				if err = w.Send(m); err == nil {
					err = w.Send(m)
				}
			}
			vsched.Settle(150 * time.Millisecond)
			if err != nil || len(w.Raw) <= have {
				x.Fail("lost", fmt.Sprintf("%s by %s did not reach Update (Send: %v)", want, how, err))
				continue
			}
			if i == 4 && len(w.Raw) != have+2 {
				x.Fail("lost", fmt.Sprintf("%s, sent twice, reached Update %d times", want, len(w.Raw)-have))
			}
			if got := fmt.Sprintf("%T%#v", w.Raw[have], w.Raw[have]); got != want {
				x.Fail("contents", fmt.Sprintf("%s by %s reached Update as %s", want, how, got))
			}
			if sized := fmt.Sprintf("%T", m); sized != "tea.WindowSizeMsg" && sized != "model.WindowSizeMsg" {
				w.CheckShown("not-shown")
			}
		}
	}
	type mine struct {
		A int
		B string
	}
	if pub {
		for k := tea.KeyRune; k <= tea.KeyCtrlC; k++ {
			try(tea.KeyMsg{Type: k})
		}
		for i := 0; i < 8*6*3; i++ {
			try(tea.MouseMsg{X: 3 + i, Y: 40 - i, Button: tea.MouseButton(i / 8 % 6), Action: tea.MouseAction(i / 48), Alt: i&1 != 0, Ctrl: i&2 != 0, Shift: i&4 != 0})
		}
		for i := 0; i < 8; i++ {
			try(tea.KeyMsg{Type: tea.KeyRune, Rune: '中' + rune(i), Alt: i&1 != 0, Ctrl: i&2 != 0, Shift: i&4 != 0})
			try(tea.KeyMsg{Type: tea.KeyUp, Alt: i&1 != 0, Ctrl: i&2 != 0, Shift: i&4 != 0})
		}
		for _, z := range [][2]int{{0, 0}, {0, 5}, {5, 0}, {-1, -1}, {1, 1}, {1 << 40, 1 << 40}, {31, 17}} {
			try(tea.WindowSizeMsg{Width: z[0], Height: z[1]})
		}
		try(tea.MouseMsg{})
		try(tea.MouseMsg{X: -1, Y: -7, Button: 99, Action: 99})
		try(tea.KeyMsg{})
		try(tea.KeyMsg{Type: 999, Rune: -1, Alt: true})
		try(tea.KeyMsg{Type: tea.KeyRune, Rune: 'c', Ctrl: true})
		try(tea.PrintlnMsg{})
		try(tea.TickMsg{})
		try(tea.PrintlnMsg{Message: "hello"})
		try(tea.TickMsg{Time: at})
	} else {
		for k := model.KeyRune; k <= model.KeyCtrlC; k++ {
			try(model.KeyMsg{Type: k})
		}
		for i := 0; i < 8*6*3; i++ {
			try(model.MouseMsg{X: 3 + i, Y: 40 - i, Button: model.MouseButton(i / 8 % 6), Action: model.MouseAction(i / 48), Alt: i&1 != 0, Ctrl: i&2 != 0, Shift: i&4 != 0})
		}
		for i := 0; i < 8; i++ {
			try(model.KeyMsg{Type: model.KeyRune, Rune: '中' + rune(i), Alt: i&1 != 0, Ctrl: i&2 != 0, Shift: i&4 != 0})
			try(model.KeyMsg{Type: model.KeyUp, Alt: i&1 != 0, Ctrl: i&2 != 0, Shift: i&4 != 0})
		}
		for _, z := range [][2]int{{0, 0}, {0, 5}, {5, 0}, {-1, -1}, {1, 1}, {1 << 40, 1 << 40}, {31, 17}} {
			try(model.WindowSizeMsg{Width: z[0], Height: z[1]})
		}
		try(model.MouseMsg{})
		try(model.MouseMsg{X: -1, Y: -7, Button: 99, Action: 99})
		try(model.KeyMsg{})
		try(model.KeyMsg{Type: 999, Rune: -1, Alt: true})
		try(model.KeyMsg{Type: model.KeyRune, Rune: 'c', Ctrl: true})
		try(service.PrintlnMsg{})
		try(service.TickMsg{})
		try(service.PrintlnMsg{Message: "hello"})
		try(service.TickMsg{Time: at})
	}
	for _, a := range []int{-80, -1, 0, 1, 2, 80} {
		for _, b := range []int{-24, -1, 0, 1, 2, 24} {
			m := tea.WindowSizeMsg{Width: a, Height: b}
			if in := (model.WindowSizeMsg{Width: a, Height: b}); m.IsValid() != (a > 0 && b > 0) || in.IsValid() != m.IsValid() {
				x.Fail("size", fmt.Sprintf("IsValid of the size %dx%d is %t", a, b, m.IsValid()))
			}
		}
	}
	try(mine{7, "x"})
	try(mine{})
	try(&mine{3, "y"})
	try((*mine)(nil))
	try([]int(nil))
	try(0)
	try("")
	try(false)
	try(true)
	try(struct{}{})
	try(error(nil2{}))
	try(42)
	try("text")
	try(fmt.Errorf("an error"))
	if pub {
		// the public names mean the same keys and buttons as the reader's
		for i, k := range []tea.KeyType{tea.KeyRune, tea.KeyEnter, tea.KeyBackspace, tea.KeyTab, tea.KeyEsc, tea.KeySpace, tea.KeyUp, tea.KeyDown, tea.KeyLeft, tea.KeyRight, tea.KeyHome,
			tea.KeyEnd, tea.KeyPgUp, tea.KeyPgDown, tea.KeyDelete, tea.KeyInsert, tea.KeyF1, tea.KeyF2, tea.KeyF3, tea.KeyF4, tea.KeyF5, tea.KeyF6, tea.KeyF7, tea.KeyF8, tea.KeyF9, tea.KeyF10, tea.KeyF11, tea.KeyF12, tea.KeyCtrlC} {
			in := []model.KeyType{model.KeyRune, model.KeyEnter, model.KeyBackspace, model.KeyTab, model.KeyEsc, model.KeySpace, model.KeyUp, model.KeyDown, model.KeyLeft, model.KeyRight, model.KeyHome,
				model.KeyEnd, model.KeyPgUp, model.KeyPgDown, model.KeyDelete, model.KeyInsert, model.KeyF1, model.KeyF2, model.KeyF3, model.KeyF4, model.KeyF5, model.KeyF6, model.KeyF7, model.KeyF8, model.KeyF9, model.KeyF10, model.KeyF11, model.KeyF12, model.KeyCtrlC}[i]
			if int(k) != int(in) {
				x.Fail("names", fmt.Sprintf("key type %d of the public package is %d inside", k, in))
			}
		}
	}
	x.Outcome(fmt.Sprint(n, " messages"))
	w.P.Stop()
	if !ended(time.Second) {
		x.Fail("never-ends", "the program did not end")
	}
}

type nil2 struct{}

func (nil2) Error() string { return "" }

func scenarios(thorough bool) []*vsched.Scenario {
	ps := plans()
	bound := 2
	if thorough {
		bound = 3
	}
	load := func(n int) (l []string) {
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprint("m", i))
		}
		return
	}
	loads := []plan{
		{how: "start", public: true, senders: [][]string{load(60)}, keys: []string{strings.Repeat("abcdefghijklmnopqrstuvwxyz", 4)}},
		{how: "run", senders: [][]string{load(90)}},
	}
	for i := range loads {
		loads[i].keys = nil
	}
	fulls := []plan{
		{how: "start", public: true, senders: [][]string{append([]string{"!a"}, load(105)...), {"b"}}, keys: []string{"xy"}, gate: true},
		{how: "run", senders: [][]string{append([]string{"!a"}, load(104)...)}, alt: true, init: true, gate: true},
		{how: "start", senders: [][]string{load(105)}, gate: true, held: true},
	}
	b1 := 1
	return []*vsched.Scenario{
		{Name: "contents", Variants: 4, Bound: 0, MaxSteps: 400000, MaxTime: 10 * time.Minute, Body: contents},
		{Name: "again", Variants: 8 * len(between), Bound: 1, MaxSteps: 60000, MaxTime: time.Minute, Body: rerun},
		{Name: "deliver", Variants: len(ps), Bound: bound, MaxSteps: 30000, MaxTime: time.Minute, Races: true,
			Body: func(x *vsched.X) { run(ps[x.Variant])(x) }},
		{Name: "deliver-many", Variants: len(loads), Bound: b1, MaxSteps: 60000, MaxTime: time.Minute, Races: true,
			Body: func(x *vsched.X) { run(loads[x.Variant])(x) }},
		{Name: "queue-full", Variants: len(fulls), Bound: b1, MaxSteps: 60000, MaxTime: time.Minute, Races: true,
			Body: func(x *vsched.X) { run(fulls[x.Variant])(x) }},
	}
}

func main() {
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C03", "model_checking", 0, func(c *vk.C) {
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 100*time.Second, 13*time.Minute))
		c.Sched(rep, err)
		c.Rule(fmt.Sprintf("one case per schedule: %d programs with 1-3 senders of 1-3 messages, a typist, commands of Init and Update, resizes, slow updates, a suspension or a quit in between, public and internal program, Run and Start, inline and alternate screen; 2 programs with 60-90 messages; 3 programs whose queue runs full while Update is busy, one of them suspended (a refused message must not be delivered, an accepted one must); every kind of message with all fields different by four ways of delivery; 40 programs run three times with output of their host in between; all schedules up to the deviation bound, unsynchronised accesses reported", len(plans())))
	})
}
