// Package drv drives the program of package tea under the controlled
// scheduler: a model whose behaviour the harness scripts, a terminal and an
// output that record what is done to them.
package drv

import (
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/tea"
	"github.com/phoenix-tui/phoenix/tea/internal/application/program"
	"github.com/phoenix-tui/phoenix/tea/internal/domain/model"
	"github.com/phoenix-tui/phoenix/tea/internal/domain/service"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vsched"
	"github.com/phoenix-tui/phoenix/terminal"
)

// Cmd is a command in neutral form; a nil result delivers nothing.
type Cmd func() any

// Quit is the neutral quit message, T an ordinary message.
type (
	Quit struct{}
	T    string
)

// Prog is what both program types offer.
type Prog interface {
	Run() error
	Start() error
	Stop()
	IsRunning() bool
	Suspend() error
	Resume() error
	IsSuspended() bool
	ExecProcess(*exec.Cmd) error
	ExecProcessWithTTY(*exec.Cmd, program.TTYOptions) error
}

// World is one program with its surroundings.
type World struct {
	X    *vsched.X
	P    Prog
	Term *Term
	TTY  *os.File
	Out  strings.Builder

	Public bool
	Send   func(msg any) error
	Quit   func() // internal program only

	OnInit func() Cmd
	OnMsg  func(label string) Cmd
	OnView func()
	Text   func(n int) string // the view after n updates; nil: ViewOf

	Started bool // the program has begun to set up the terminal
	Inits   int
	N       int // updates so far
	Seen    []string
	Raw     []any // the same messages, as the model got them
	Views   int
	busy    string
	Over    bool // the run has ended: nothing more may happen
	Handed  bool // the terminal is handed over
	Draws   int
	Outs    []string // frames
	FailOut func(n int) bool
}

// New makes a program; alt selects the alternate screen.
func New(x *vsched.X, public, alt, deadlines bool) *World {
	w := &World{X: x, Public: public}
	w.TTY = vsched.NewTTY(deadlines)
	w.Term = &Term{w: w}
	if public {
		opts := []tea.Option[pub]{tea.WithInput[pub](w.TTY), tea.WithOutput[pub](out{w}), tea.WithTerminal[pub](w.Term)}
		if alt {
			opts = append(opts, tea.WithAltScreen[pub]())
		}
		p := tea.New(pub{w, 0}, opts...)
		w.P = p
		w.Send = func(m any) error { return p.Send(w.toPub(m)) }
		return w
	}
	opts := []program.Option[pri]{program.WithInput[pri](w.TTY), program.WithOutput[pri](out{w}), program.WithTerminal[pri](w.Term)}
	if alt {
		opts = append(opts, program.WithAltScreen[pri]())
	}
	p := program.New[pri](pri{w, 0}, opts...)
	w.P = p
	w.Send = func(m any) error { return p.Send(w.toPri(m)) }
	w.Quit = p.Quit
	return w
}

func (w *World) toPub(m any) tea.Msg {
	switch m := m.(type) {
	case nil:
		return nil
	case Quit:
		return tea.QuitMsg{}
	case Prefixes:
		var base []tea.Msg
		for _, k := range m {
			base = append(base, w.toPub(k))
		}
		var o tea.BatchMsg
		for i := range base {
			o.Messages = append(o.Messages, tea.BatchMsg{Messages: base[:i+1]})
		}
		return o
	case BatchOf:
		var o tea.BatchMsg
		for _, k := range m {
			o.Messages = append(o.Messages, w.toPub(k))
		}
		return o
	case SequenceOf:
		var o tea.SequenceMsg
		for _, k := range m {
			o.Messages = append(o.Messages, w.toPub(k))
		}
		return o
	}
	return m
}

func (w *World) toPri(m any) model.Msg {
	switch m := m.(type) {
	case nil:
		return nil
	case Quit:
		return model.QuitMsg{}
	case Prefixes:
		var base []model.Msg
		for _, k := range m {
			base = append(base, w.toPri(k))
		}
		var o model.BatchMsg
		for i := range base {
			o.Messages = append(o.Messages, model.BatchMsg{Messages: base[:i+1]})
		}
		return o
	case BatchOf:
		var o model.BatchMsg
		for _, k := range m {
			o.Messages = append(o.Messages, w.toPri(k))
		}
		return o
	case SequenceOf:
		var o model.SequenceMsg
		for _, k := range m {
			o.Messages = append(o.Messages, w.toPri(k))
		}
		return o
	}
	return m
}

// Prefixes is a batch of a batch with the first of the messages, one with the
// first two, and so on, made of one list.
type Prefixes []any

// BatchOf and SequenceOf are results that hold several messages.
type (
	BatchOf    []any
	SequenceOf []any
)

// Pub and Pri convert commands.
func (w *World) Pub(c Cmd) tea.Cmd {
	if c == nil {
		return nil
	}
	return func() tea.Msg {
		r := c()
		if p, ok := r.(tea.Msg); ok && p == nil {
			return nil
		}
		return w.toPub(r)
	}
}

func (w *World) Pri(c Cmd) model.Cmd {
	if c == nil {
		return nil
	}
	return func() model.Msg { return w.toPri(c()) }
}

// Batch and Sequence build composite commands with the library's own
// functions.
// listed makes a composite of a list that was used before and is used for
// something else afterwards.
func listed[C ~func() M, M any](w *World, make func(...C) C, list []C) C {
	make(list...)
	c := make(list...)
	for i := range list {
		list[i] = func() (m M) {
			w.X.Fail("foreign", "a composite ran a command that stood in its list later")
			return
		}
	}
	return c
}

func (w *World) Batch(cs ...Cmd) Cmd {
	if w.Public {
		var ps []tea.Cmd
		for _, c := range cs {
			ps = append(ps, w.Pub(c))
		}
		return fromPub(listed(w, tea.Batch, ps))
	}
	var ps []model.Cmd
	for _, c := range cs {
		ps = append(ps, w.Pri(c))
	}
	return fromPri(listed(w, model.Batch, ps))
}

func (w *World) Sequence(cs ...Cmd) Cmd {
	if w.Public {
		var ps []tea.Cmd
		for _, c := range cs {
			ps = append(ps, w.Pub(c))
		}
		return fromPub(listed(w, tea.Sequence, ps))
	}
	var ps []model.Cmd
	for _, c := range cs {
		ps = append(ps, w.Pri(c))
	}
	return fromPri(listed(w, model.Sequence, ps))
}

// Tick and Println are the library's own commands.
func (w *World) Tick(d time.Duration) Cmd {
	if w.Public {
		return fromPub(tea.Tick(d))
	}
	return fromPri(service.Tick(d))
}

func (w *World) Println(s string) Cmd {
	if w.Public {
		return fromPub(tea.Println(s))
	}
	return fromPri(service.Println(s))
}

// LibQuit is the library's own quit command.
func (w *World) LibQuit() Cmd {
	if w.Public {
		return fromPub(tea.Quit())
	}
	return fromPri(service.Quit())
}

// TickTime is the time in a tick message.
func TickTime(m any) (time.Time, bool) {
	switch m := m.(type) {
	case tea.TickMsg:
		return m.Time, true
	case service.TickMsg:
		return m.Time, true
	}
	return time.Time{}, false
}

func fromPub(c tea.Cmd) Cmd {
	if c == nil {
		return nil
	}
	return func() any { return c() }
}

func fromPri(c model.Cmd) Cmd {
	if c == nil {
		return nil
	}
	return func() any { return c() }
}

// Label names a message.
func Label(m any) string {
	switch m := m.(type) {
	case nil:
		return "nil"
	case T:
		return string(m)
	case tea.KeyMsg:
		return "key:" + m.String()
	case model.KeyMsg:
		return "key:" + m.String()
	case tea.WindowSizeMsg:
		return fmt.Sprintf("size:%dx%d", m.Width, m.Height)
	case model.WindowSizeMsg:
		return fmt.Sprintf("size:%dx%d", m.Width, m.Height)
	case tea.PrintlnMsg:
		return m.Message
	case service.PrintlnMsg:
		return m.Message
	case tea.TickMsg:
		return fmt.Sprint("tick:", m.Time.UnixNano())
	case service.TickMsg:
		return fmt.Sprint("tick:", m.Time.UnixNano())
	}
	return fmt.Sprintf("%T", m)
}

func (w *World) enter(what string) {
	if w.busy != "" {
		w.X.Fail("overlap", what+" was called during "+w.busy)
	}
	if w.Over {
		w.X.Fail("after-end", what+" was called after the program had ended")
	}
	w.busy = what
	vsched.Yield()
}

func (w *World) init(n int) Cmd {
	w.enter("Init")
	w.Inits++
	var c Cmd
	if w.OnInit != nil {
		c = w.OnInit()
	}
	w.busy = ""
	return c
}

func (w *World) update(n int, label string) (int, Cmd) {
	w.enter("Update")
	if n != w.N {
		w.X.Fail("stale-model", fmt.Sprintf("Update %d got the model of update %d", w.N+1, n))
	}
	if w.Inits == 0 {
		w.X.Fail("init-late", "Update was called before Init")
	}
	w.N++
	me := w.N
	w.Seen = append(w.Seen, label)
	vsched.Log("  update %s", label)
	var c Cmd
	if w.OnMsg != nil {
		c = w.OnMsg(label)
	}
	w.busy = ""
	return me, c
}

// ViewOf is the view of the model after n updates.
func ViewOf(n int) string { return fmt.Sprintf("view %d\nlast", n) }

func (w *World) view(n int) string {
	w.enter("View")
	if n != w.N {
		w.X.Fail("stale-view", fmt.Sprintf("View after update %d got the model of update %d", w.N, n))
	}
	w.Views++
	if w.OnView != nil {
		w.OnView()
	}
	w.busy = ""
	return w.text(n)
}

func (w *World) text(n int) string {
	if w.Text != nil {
		return w.Text(n)
	}
	return ViewOf(n)
}

type pub struct {
	w *World
	n int
}

func (m pub) Init() tea.Cmd { return m.w.Pub(m.w.init(m.n)) }
func (m pub) Update(msg tea.Msg) (pub, tea.Cmd) {
	m.w.Raw = append(m.w.Raw, msg)
	n, c := m.w.update(m.n, Label(msg))
	return pub{m.w, n}, m.w.Pub(c)
}
func (m pub) View() string { return m.w.view(m.n) }

type pri struct {
	w *World
	n int
}

func (m pri) Init() model.Cmd { return m.w.Pri(m.w.init(m.n)) }
func (m pri) Update(msg model.Msg) (model.Model[pri], model.Cmd) {
	m.w.Raw = append(m.w.Raw, msg)
	n, c := m.w.update(m.n, Label(msg))
	return pri{m.w, n}, m.w.Pri(c)
}
func (m pri) View() string { return m.w.view(m.n) }

type out struct{ w *World }

func (o out) Write(p []byte) (int, error) {
	w := o.w
	vsched.Yield()
	if w.Over {
		w.X.Fail("after-end", "a frame was written after the program had ended")
	}
	if w.Handed {
		w.X.Fail("drawn-while-handed-over", "a frame was written while the terminal was handed over")
	}
	w.Draws++
	if w.FailOut != nil && w.FailOut(w.Draws-1) {
		return 0, ErrTerm
	}
	w.Out.Write(p)
	w.Outs = append(w.Outs, string(p))
	return len(p), nil
}

var _ io.Writer = out{}

var screens = map[string]string{}

// Screen is what a terminal shows that executed the output since mark.
func (w *World) Screen() string {
	s := w.Out.String()
	if r, ok := screens[s]; ok {
		return r
	}
	t := vk.NewTerm(40, 12)
	t.LFOnly = true
	t.WriteString(s)
	var rows []string
	for y := 0; y < t.H; y++ {
		rows = append(rows, t.Row(y))
	}
	r := strings.TrimRight(strings.Join(rows, "\n"), "\n")
	if len(screens) < 100000 {
		screens[s] = r
	}
	return r
}

// CheckShown demands that the screen shows the view of the current model.
func (w *World) CheckShown(key string) {
	if got, want := w.Screen(), strings.TrimRight(w.text(w.N), " \n"); got != want {
		w.X.Fail(key, fmt.Sprintf("the screen shows %q, the view of the model is %q", got, want))
	}
}

// Term is the terminal: it knows its modes and can be told to fail.
type Term struct {
	terminal.Terminal
	w                *World
	Raw, Alt, Hidden bool
	Log              []string
	FailAt           map[int]bool
	Calls            int
	Failed           map[string]bool // operations whose last call failed on demand
	Strict           bool            // redundant switches are violations
	MayShow          int             // suspensions under way, which show the cursor in any case
}

// ErrTerm is the injected failure.
var ErrTerm = errors.New("terminal failure")

func (t *Term) op(name string, f func() error) error {
	t.w.Started = true
	vsched.Yield()
	n := t.Calls
	t.Calls++
	t.Log = append(t.Log, name)
	vsched.Log("  terminal %s", name)
	if t.Failed == nil {
		t.Failed = map[string]bool{}
	}
	t.Failed[name] = t.FailAt[n]
	if t.FailAt[n] {
		return ErrTerm
	}
	if t.w.Handed && (strings.HasPrefix(name, "Enter") || name == "HideCursor") {
		t.w.X.Fail("mode-while-handed-over", name+" was called while the terminal was handed over")
	}
	if t.w.Over {
		t.w.X.Fail("after-end", name+" was called after the program had ended")
	}
	return f()
}

func (t *Term) sw(b *bool, to bool, what string) func() error {
	return func() error {
		if *b == to {
			if t.Strict {
				t.w.X.Fail("redundant", "a terminal mode was switched although the terminal is "+what)
			}
			return errors.New(what)
		}
		*b = to
		return nil
	}
}

func (t *Term) EnterRawMode() error { return t.op("EnterRawMode", t.sw(&t.Raw, true, "already raw")) }
func (t *Term) ExitRawMode() error  { return t.op("ExitRawMode", t.sw(&t.Raw, false, "not raw")) }
func (t *Term) EnterAltScreen() error {
	err := t.op("EnterAltScreen", t.sw(&t.Alt, true, "already in alt screen"))
	if err == nil {
		t.w.Out.WriteString("\x1b[?1049h")
	}
	return err
}
func (t *Term) ExitAltScreen() error {
	err := t.op("ExitAltScreen", t.sw(&t.Alt, false, "not in alt screen"))
	if err == nil {
		t.w.Out.WriteString("\x1b[?1049l")
	}
	return err
}
func (t *Term) IsInRawMode() bool   { return t.Raw }
func (t *Term) IsInAltScreen() bool { return t.Alt }
func (t *Term) HideCursor() error {
	return t.op("HideCursor", func() error { t.Hidden = true; return nil })
}
func (t *Term) ShowCursor() error {
	return t.op("ShowCursor", func() error {
		if t.Strict && !t.Hidden && t.MayShow == 0 && !t.Failed["HideCursor"] {
			t.w.X.Fail("redundant", "the cursor was shown although it is not hidden")
		}
		t.Hidden = false
		return nil
	})
}
func (t *Term) Size() (int, int, error) {
	return 40, 12, nil
}
func (t *Term) Write(s string) error { _, err := out{t.w}.Write([]byte(s)); return err }
func (t *Term) Clear() error         { return t.Write("\x1b[H\x1b[2J") }
func (t *Term) SetCursorPosition(x, y int) error {
	return t.Write(fmt.Sprintf("\x1b[%d;%dH", y+1, x+1))
}
func (t *Term) ClearFromCursor() error                    { return t.Write("\x1b[J") }
func (t *Term) ClearLine() error                          { return t.Write("\x1b[2K") }
func (t *Term) SupportsDirectPositioning() bool           { return false }
func (t *Term) SupportsReadback() bool                    { return false }
func (t *Term) SupportsTrueColor() bool                   { return true }
func (t *Term) ColorDepth() int                           { return 256 }
func (t *Term) Platform() terminal.Platform               { return terminal.PlatformUnix }
func (t *Term) SetCursorStyle(terminal.CursorStyle) error { return nil }
func (t *Term) GetCursorPosition() (int, int, error)      { return 0, 0, nil }
func (t *Term) SaveCursorPosition() error                 { return nil }
func (t *Term) RestoreCursorPosition() error              { return nil }

// Normal reports what is wrong with the modes for somebody else to use the
// terminal.
func (t *Term) Normal() string {
	var p []string
	if t.Raw {
		p = append(p, "raw mode")
	}
	if t.Alt {
		p = append(p, "alternate screen")
	}
	if t.Hidden {
		p = append(p, "hidden cursor")
	}
	return strings.Join(p, ", ")
}

// CheckNormal demands normal modes.
func (w *World) CheckNormal(key string) {
	if n := w.Term.Normal(); n != "" {
		w.X.Fail(key, "the terminal was left in: "+n)
	}
}

// Running runs the program in the way given, returning when it is under way;
// the returned function waits (in virtual time) for its end and reports
// whether it came within limit.
func (w *World) Running(how string) (ended func(limit time.Duration) bool) {
	if how == "run" {
		done := false
		vsched.GoName("Run", func() {
			if err := w.P.Run(); err != nil {
				w.X.Fail("run-error", err.Error())
			}
			if w.P.IsRunning() {
				w.X.Fail("still-running", "IsRunning is true after Run returned")
			}
			w.Over = true
			done = true
		})
		vsched.Await("started", func() bool { return w.Started })
		return func(limit time.Duration) bool {
			t := vsched.Elapsed()
			for !done && vsched.Elapsed()-t < limit {
				vsched.Sleep(5 * time.Millisecond)
			}
			return done
		}
	}
	if err := w.P.Start(); err != nil {
		w.X.Fail("run-error", err.Error())
	}
	return func(limit time.Duration) bool {
		t := vsched.Elapsed()
		for w.P.IsRunning() {
			if vsched.Elapsed()-t >= limit {
				return false
			}
			vsched.Sleep(5 * time.Millisecond)
		}
		w.Over = true
		return true
	}
}
