// C40: the top-level package does exactly what the modules do it stands for.
package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/clipboard"
	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/tea"
	"github.com/phoenix-tui/phoenix/terminal"
	"github.com/phoenix-tui/phoenix/zzverif/vk"
)

var depths = []struct {
	a, b core.ColorDepth
}{{phoenix.ColorDepthNone, core.ColorDepthNone}, {phoenix.ColorDepth8, core.ColorDepth8}, {phoenix.ColorDepth256, core.ColorDepth256}, {phoenix.ColorDepthTrueColor, core.ColorDepthTrueColor}}

func caps(c *core.Capabilities) string {
	return fmt.Sprint("ansi ", c.SupportsANSI(), " depth ", c.ColorDepth(), " mouse ", c.SupportsMouse(), " alt ", c.SupportsAltScreen(), " cursor ", c.SupportsCursorControl(), " color ", c.SupportsColor(), " true ", c.SupportsTrueColor())
}

func term(t *core.Terminal) string {
	return fmt.Sprint(caps(t.Capabilities()), " size ", t.Size(), " raw ", t.IsRawModeEnabled())
}

func terminals(c *vk.C) {
	eq := func(what, got, want string) {
		c.Evals.Add(1)
		c.States.Add(1)
		if got != want {
			c.Fail("core", what+" gives "+got+", the module gives "+want, what)
		}
	}
	for _, d := range depths {
		eq("color depth constant", fmt.Sprint(int(d.a), d.a), fmt.Sprint(int(d.b), d.b))
		for m := range 16 {
			b := [4]bool{m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0}
			what := fmt.Sprint("NewCapabilities", b, d.a)
			pc, mc := phoenix.NewCapabilities(b[0], d.a, b[1], b[2], b[3]), core.NewCapabilities(b[0], d.b, b[1], b[2], b[3])
			eq(what, caps(pc), caps(mc))
			eq(what+" in a terminal", term(phoenix.NewTerminalWithCapabilities(pc)), term(core.NewTerminalWithCapabilities(mc)))
			eq(what+" in a terminal of a size", term(phoenix.NewTerminalWithCapabilities(pc).WithSize(phoenix.NewSize(m, 3))), term(core.NewTerminalWithCapabilities(mc).WithSize(core.NewSize(m, 3))))
		}
	}
	eq("NewTerminal", term(phoenix.NewTerminal()), term(core.NewTerminal()))
	eq("NewTerminalWithCapabilities(nil)", guard(func() string { return term(phoenix.NewTerminalWithCapabilities(nil)) }), guard(func() string { return term(core.NewTerminalWithCapabilities(nil)) }))
	for _, w := range []int{-1 << 63, -1, 0, 1, 2, 79, 80, 81, 1 << 30, 1<<63 - 1} {
		for _, h := range []int{-1 << 63, -7, 0, 1, 2, 23, 24, 1 << 30, 1<<63 - 1} {
			eq(fmt.Sprintf("NewSize(%d, %d)", w, h), fmt.Sprint(phoenix.NewSize(w, h)), fmt.Sprint(core.NewSize(w, h)))
		}
	}
	// every environment: what is detected at the top is what core detects
	vars := []string{"TERM", "COLORTERM", "NO_COLOR", "TERM_PROGRAM", "WT_SESSION"}
	vals := [][]string{{"-", "", "dumb", "xterm", "xterm-256color", "linux", "tmux"}, {"-", "", "truecolor", "24bit", "x"}, {"-", "", "1"}, {"-", "iTerm.app", "Apple_Terminal", "vscode"}, {"-", "x"}}
	old := map[string]string{}
	for _, v := range vars {
		if s, ok := os.LookupEnv(v); ok {
			old[v] = s
		}
	}
	var walk func(i int, what string)
	walk = func(i int, what string) {
		if i == len(vars) {
			eq("AutoDetectTerminal with "+what, term(phoenix.AutoDetectTerminal()), term(core.AutoDetect()))
			return
		}
		for _, s := range vals[i] {
			if s == "-" {
				os.Unsetenv(vars[i])
			} else {
				os.Setenv(vars[i], s)
			}
			walk(i+1, what+" "+vars[i]+"="+s)
		}
	}
	walk(0, "")
	for _, v := range vars {
		if s, ok := old[v]; ok {
			os.Setenv(v, s)
		} else {
			os.Unsetenv(v)
		}
	}
	// platform terminals: the kinds the functions are named after
	eq("NewANSITerminal", fmt.Sprintf("%v %v %d", phoenix.NewANSITerminal().Platform(), phoenix.NewANSITerminal().SupportsReadback(), phoenix.NewANSITerminal().ColorDepth()), fmt.Sprintf("%v %v %d", ansi.Platform(), ansi.SupportsReadback(), ansi.ColorDepth()))
	eq("NewPlatformTerminal", fmt.Sprintf("%T %v", phoenix.NewPlatformTerminal(), phoenix.NewPlatformTerminal().Platform()), fmt.Sprintf("%T %v", plat, plat.Platform()))
}

func guard(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panic: ", r)
		}
	}()
	return f()
}

// styles: one made at the top is an ordinary style, in every sequence of settings.
func styles(c *vk.C) {
	sets := []struct {
		name string
		f    func(style.Style) style.Style
	}{
		{"bold", func(s style.Style) style.Style { return s.Bold(true) }},
		{"underline", func(s style.Style) style.Style { return s.Underline(true) }},
		{"red", func(s style.Style) style.Style { return s.Foreground(style.RGB(200, 3, 4)) }},
		{"on 240", func(s style.Style) style.Style { return s.Background(style.Color256(240)) }},
		{"width 9", func(s style.Style) style.Style { return s.Width(9) }},
		{"plain", func(s style.Style) style.Style { return s.Bold(false).Underline(false) }},
	}
	var walk func(a, b style.Style, what string, d int)
	walk = func(a, b style.Style, what string, d int) {
		c.States.Add(1)
		for _, t := range []string{"", "x", "two words", "a\nb", "日本"} {
			c.Evals.Add(1)
			if x, y := style.Render(a, t), style.Render(b, t); x != y {
				c.Fail("style", fmt.Sprintf("NewStyle%s renders %q as %q, a style of the module as %q", what, t, x, y), what)
			}
		}
		if d == 0 {
			return
		}
		for _, s := range sets {
			walk(s.f(a), s.f(b), what+" "+s.name, d-1)
		}
	}
	walk(phoenix.NewStyle(), style.New(), "", vk.Pick(c, 4, 6))
}

// ---------------------------------------------------------------- programs

type typed struct {
	mu   sync.Mutex
	data []byte
}

func (k *typed) Read(p []byte) (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if len(k.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, k.data[:1])
	k.data = k.data[n:]
	return n, nil
}

type screen struct {
	mu  sync.Mutex
	t   *vk.Term
	alt bool
	n   int
}

func (s *screen) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range p {
		_, _ = s.t.Write(p[i : i+1])
		s.alt = s.alt || s.t.Alt
	}
	s.n += len(p)
	return len(p), nil
}

// fake is a platform terminal that shows on the screen.
type fake struct {
	terminal.Terminal
	scr *screen
	raw bool
}

func (f *fake) out(s string) error          { _, err := f.scr.Write([]byte(s)); return err }
func (f *fake) Write(s string) error        { return f.out(s) }
func (f *fake) EnterAltScreen() error       { return f.out("\x1b[?1049h") }
func (f *fake) ExitAltScreen() error        { return f.out("\x1b[?1049l") }
func (f *fake) HideCursor() error           { return f.out("\x1b[?25l") }
func (f *fake) ShowCursor() error           { return f.out("\x1b[?25h") }
func (f *fake) Clear() error                { return f.out("\x1b[2J\x1b[H") }
func (f *fake) EnterRawMode() error         { f.raw = true; return nil }
func (f *fake) ExitRawMode() error          { f.raw = false; return nil }
func (f *fake) IsInRawMode() bool           { return f.raw }
func (f *fake) Size() (int, int, error)     { return 40, 8, nil }
func (f *fake) Platform() terminal.Platform { return terminal.PlatformUnix }
func (f *fake) IsInAltScreen() bool {
	f.scr.mu.Lock()
	defer f.scr.mu.Unlock()
	return f.scr.t.Alt
}

type app struct {
	text string
	log  *[]string
}

type noted string

func (a app) Init() tea.Cmd { return func() tea.Msg { return noted("started") } }
func (a app) View() string  { return "text: " + a.text + "\nsecond line" }
func (a app) Update(m tea.Msg) (app, tea.Cmd) {
	switch m := m.(type) {
	case noted:
		*a.log = append(*a.log, string(m))
	case tea.KeyMsg:
		*a.log = append(*a.log, m.String())
		switch m.String() {
		case "q":
			return a, phoenix.Quit()
		case "n":
			return a, func() tea.Msg { return noted("n") }
		}
		a.text += m.String()
	}
	return a, nil
}

type runner interface{ Run() error }

func outcome(mk func(log *[]string, opts []tea.Option[app]) runner, mask int, root bool, keys string) string {
	var log []string
	scr := &screen{t: vk.NewTerm(40, 8)}
	opts := []tea.Option[app]{tea.WithInput[app](&typed{data: []byte(keys)}), tea.WithOutput[app](scr), tea.WithTerminal[app](&fake{scr: scr})}
	if mask&1 != 0 {
		if root {
			opts = append(opts, phoenix.WithAltScreen[app]())
		} else {
			opts = append(opts, tea.WithAltScreen[app]())
		}
	}
	if mask&2 != 0 {
		if root {
			opts = append(opts, phoenix.WithMouseAllMotion[app]())
		} else {
			opts = append(opts, tea.WithMouseAllMotion[app]())
		}
	}
	if mask&4 != 0 { // options in the other order
		for i, j := 0, len(opts)-1; i < j; i, j = i+1, j-1 {
			opts[i], opts[j] = opts[j], opts[i]
		}
	}
	done := make(chan error, 1)
	go func() { done <- mk(&log, opts).Run() }()
	select {
	case err := <-done:
		scr.mu.Lock()
		defer scr.mu.Unlock()
		return fmt.Sprintf("err %v, alt screen used %v, left in it %v, cursor shown %v, modes %v, keys %v, screen %s", err, scr.alt, scr.t.Alt, scr.t.Visible, scr.t.Modes, keysOf(log), scr.t.Screen())
	case <-time.After(60 * time.Second):
		return "does not end"
	}
}

// keysOf drops the reports of commands, which are not ordered with the keys.
func keysOf(l []string) []string {
	var out []string
	for _, s := range l {
		if s != "n" && s != "started" {
			out = append(out, s)
		}
	}
	return out
}

func programs(c *vk.C) {
	pieces := []string{"a", "x", "\x1b[A", "é", "\x7f"}
	var seqs []string
	var gen func(s string, d int)
	gen = func(s string, d int) {
		seqs = append(seqs, s+"q")
		if d == 0 {
			return
		}
		for _, p := range pieces {
			gen(s+p, d-1)
		}
	}
	// a program that ignores its options must not write on this check's own output
	stdin, stdout := os.Stdin, os.Stdout
	defer func() { os.Stdin, os.Stdout = stdin, stdout }()
	if null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0); err == nil {
		os.Stdin, os.Stdout = null, null
	}
	var stuck atomic.Bool
	gen("", vk.Pick(c, 4, 5))
	c.Parallel(len(seqs)*8, func(i int) {
		if stuck.Load() {
			return
		}
		keys, mask := seqs[i/8], i%8
		c.Evals.Add(1)
		c.Traces.Add(1)
		top := outcome(func(log *[]string, o []tea.Option[app]) runner { return phoenix.NewProgram(app{log: log}, o...) }, mask, true, keys)
		mod := outcome(func(log *[]string, o []tea.Option[app]) runner { return tea.New(app{log: log}, o...) }, mask, false, keys)
		if top == "does not end" || mod == "does not end" {
			stuck.Store(true)
		}
		where := fmt.Sprintf("keys %q, alt screen %v, mouse %v, options reversed %v", keys, mask&1 != 0, mask&2 != 0, mask&4 != 0)
		if top != mod {
			c.Fail("program", fmt.Sprintf("%s: a program made at the top: %s; one of the module: %s", where, top, mod), where)
		} else if !strings.Contains(top, fmt.Sprintf("err <nil>, alt screen used %v, left in it false, cursor shown true", mask&1 != 0)) {
			c.Fail("program", fmt.Sprintf("%s: %s", where, top), where)
		}
	})
}

// clipboards: through the top or through the module, it is the same clipboard.
// The clipboard is chosen when a program starts, so each case is a process of its own.
func clipboards(c *vk.C) {
	dir, err := os.MkdirTemp("", "c40-")
	if err != nil {
		c.Fail("setup", err.Error(), nil)
		return
	}
	defer os.RemoveAll(dir)
	store := filepath.Join(dir, "store")
	tool := "#!/bin/sh\ncase \"$*\" in *-o*) exec /bin/cat '" + store + "';; *) exec /bin/cat > '" + store + "';; esac\n"
	if err := os.WriteFile(filepath.Join(dir, "xclip"), []byte(tool), 0o755); err != nil {
		c.Fail("setup", err.Error(), nil)
		return
	}
	self, err := os.Executable()
	if err != nil {
		c.Fail("setup", err.Error(), nil)
		return
	}
	for _, have := range []bool{true, false} {
		path, arg := dir, "tool"
		if !have {
			path, arg = filepath.Join(dir, "none"), "none"
		}
		cmd := exec.Command(self, "-clipboard", arg)
		for _, kv := range os.Environ() {
			switch name, _, _ := strings.Cut(kv, "="); name {
			case "PATH", "SSH_TTY", "SSH_CLIENT", "SSH_CONNECTION", "WAYLAND_DISPLAY", "DISPLAY":
			default:
				cmd.Env = append(cmd.Env, kv)
			}
		}
		cmd.Env = append(cmd.Env, "PATH="+path, "DISPLAY=:0")
		out, err := cmd.CombinedOutput()
		n := 0
		for _, l := range strings.Split(string(out), "\n") {
			switch {
			case strings.HasPrefix(l, "case "):
				n++
				c.Evals.Add(2)
				c.States.Add(1)
			case strings.HasPrefix(l, "wrong "):
				c.Fail("clipboard", strings.TrimPrefix(l, "wrong "), arg)
			}
		}
		if err != nil || n != 15 {
			c.Fail("clipboard", fmt.Sprintf("with %s: after %d of 15 cases: %v %s", arg, n, err, out), arg)
		}
	}
}

func clipboardChild(have bool) {
	for _, a := range []string{"a", "two\nlines\n", "é 日本", " x ", strings.Repeat("long ", 5000)} {
		for _, b := range []string{"b", "a", "other text"} {
			fmt.Printf("case %.20q %q\n", a, b)
			what := fmt.Sprintf("tool present %v, texts %.20q and %q", have, a, b)
			e1 := phoenix.WriteClipboard(a)
			r1, re1 := clipboard.Read()
			e2 := clipboard.Write(b)
			r2, re2 := phoenix.ReadClipboard()
			if have {
				if e1 != nil || re1 != nil || r1 != a || e2 != nil || re2 != nil || r2 != b {
					fmt.Printf("wrong %s: written at the top %v, read by the module %.20q %v; written by the module %v, read at the top %.20q %v\n", what, e1, r1, re1, e2, r2, re2)
				}
			} else if e1 == nil || re1 == nil || e2 == nil || re2 == nil || r1 != "" || r2 != "" {
				fmt.Printf("wrong %s: without any clipboard the top says %v %q %v, the module %v %q %v\n", what, e1, r2, re2, e2, r1, re1)
			}
		}
	}
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-clipboard" {
		clipboardChild(os.Args[2] == "tool")
		return
	}
	vk.Main("C40", "model_checking", 0, func(c *vk.C) {
		c.Rule("every combination of capability arguments, sizes and environment variables; every sequence of style settings up to the depth; every sequence of keys up to the length through programs with every set and order of options on a terminal emulator; every pair of texts through both clipboards: always the same as the module")
		terminals(c)
		styles(c)
		programs(c)
		clipboards(c)
	})
}
