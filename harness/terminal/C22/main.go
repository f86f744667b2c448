// C22: every sequence of terminal operations up to a depth is executed by the
// real terminal object; the bytes it emits drive a terminal emulator, and the
// emulator, the mode flags and the tty attributes of the input are compared
// with a reference that applies the operations' descriptions to a screen.
// Failing outputs and inputs are part of the alphabet. Concurrent mode
// switches are explored under all schedules.
package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/sys/unix"

	"github.com/phoenix-tui/phoenix/terminal"
	"github.com/phoenix-tui/phoenix/terminal/zzverif/vk"
	"github.com/phoenix-tui/phoenix/terminal/zzverif/vsched"
)

// ---- the surroundings of a terminal object ----

// world is an output file, an input terminal and the object under test.
type world struct {
	out       *os.File // a file standing for the output
	outKeep   int      // a second descriptor of it
	in        *os.File // slave side of a pty
	inKeep    int
	master    *os.File
	full, nul int
	off       int64
	cooked    unix.Termios
	t         terminal.Terminal
}

var newMu sync.Mutex

func open(path string, flag int) int {
	fd, err := unix.Open(path, flag|unix.O_CLOEXEC|unix.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	return fd
}

// openPty returns master and slave of a new pty.
func openPty() (m, s *os.File, err error) {
	fd, err := unix.Open("/dev/ptmx", unix.O_RDWR|unix.O_CLOEXEC|unix.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	if err := unix.IoctlSetPointerInt(fd, unix.TIOCSPTLCK, 0); err != nil {
		return nil, nil, err
	}
	n, err := unix.IoctlGetInt(fd, unix.TIOCGPTN)
	if err != nil {
		return nil, nil, err
	}
	sfd, err := unix.Open(fmt.Sprintf("/dev/pts/%d", n), unix.O_RDWR|unix.O_CLOEXEC|unix.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	return os.NewFile(uintptr(fd), "ptmx"), os.NewFile(uintptr(sfd), "pts"), nil
}

func newWorld() *world {
	f, err := os.CreateTemp("", "c22")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	w := &world{out: f}
	w.outKeep, err = unix.FcntlInt(f.Fd(), unix.F_DUPFD_CLOEXEC, 3)
	if err != nil {
		panic(err)
	}
	w.full, w.nul = open("/dev/full", unix.O_WRONLY), open("/dev/null", unix.O_RDWR)
	w.master, w.in, err = openPty()
	if err != nil { // no pty: raw mode cannot be exercised
		w.in, w.master = os.NewFile(uintptr(open("/dev/null", unix.O_RDWR)), "in"), nil
	}
	w.inKeep, _ = unix.FcntlInt(w.in.Fd(), unix.F_DUPFD_CLOEXEC, 3)
	w.cooked = w.attrs()
	return w
}

func (w *world) close() {
	w.out.Close()
	w.in.Close()
	if w.master != nil {
		w.master.Close()
	}
	for _, fd := range []int{w.outKeep, w.inKeep, w.full, w.nul} {
		unix.Close(fd)
	}
}

func (w *world) attrs() unix.Termios {
	if w.master == nil {
		return unix.Termios{}
	}
	t, err := unix.IoctlGetTermios(w.inKeep, unix.TCGETS)
	if err != nil {
		panic(err)
	}
	return *t
}

// quiet: the original attributes, with the echo switched off or not.
func (w *world) quiet(q bool) unix.Termios {
	t := w.cooked
	if q {
		t.Lflag ^= unix.ECHO
	}
	return t
}

// fresh makes a new terminal object on this output and input.
func (w *world) fresh(auto bool) {
	if w.master != nil {
		c := w.cooked
		if err := unix.IoctlSetTermios(w.inKeep, unix.TCSETS, &c); err != nil {
			panic(err)
		}
	}
	w.off = 0
	_ = unix.Ftruncate(w.outKeep, 0)
	_, _ = unix.Seek(w.outKeep, 0, 0)
	newMu.Lock()
	defer newMu.Unlock()
	so, si := os.Stdout, os.Stdin
	os.Stdout, os.Stdin = w.out, w.in
	if auto {
		w.t = terminal.New()
	} else {
		w.t = terminal.NewANSI()
	}
	os.Stdout, os.Stdin = so, si
}

// emitted returns what was written since the last call.
func (w *world) emitted() string {
	var st unix.Stat_t
	if err := unix.Fstat(w.outKeep, &st); err != nil {
		panic(err)
	}
	b := make([]byte, st.Size-w.off)
	if len(b) > 0 {
		if _, err := unix.Pread(w.outKeep, b, w.off); err != nil {
			panic(err)
		}
	}
	w.off = st.Size
	return string(b)
}

func dup(from int, to *os.File) {
	if err := unix.Dup3(from, int(to.Fd()), unix.O_CLOEXEC); err != nil {
		panic(err)
	}
}

// ---- the reference ----

type ref struct {
	t     *vk.Term
	main  [][]vk.Cell // the main screen while the alternate one is shown
	mx    int
	my    int
	raw   bool
	quiet bool // somebody else switched the echo of the input off before raw mode
}

func (r *ref) clone() *ref {
	n := *r
	n.t = r.t.Clone()
	if r.main != nil {
		n.main = make([][]vk.Cell, len(r.main))
		for i := range r.main {
			n.main[i] = append([]vk.Cell(nil), r.main[i]...)
		}
	}
	return &n
}

func (r *ref) move(x, y int) {
	t := r.t
	t.X, t.Y, t.Pending = min(max(x, 0), t.W-1), min(max(y, 0), t.H-1), false
}

func blanks(w, h int) [][]vk.Cell { return vk.NewTerm(w, h).Cells }

func (r *ref) wipeRow(y int) { r.t.Cells[y] = blanks(r.t.W, 1)[0] }

// wipeFrom blanks everything from the cursor to the end of the screen.
func (r *ref) wipeFrom() {
	t := r.t
	row := t.Cells[t.Y]
	for x := t.X; x < t.W; x++ {
		if row[x].W == 0 { // the right half of a character that starts further left
			row[x-1] = vk.Cell{S: " ", W: 1}
		}
		if row[x].W == 2 && x+1 < t.W {
			row[x+1] = vk.Cell{S: " ", W: 1}
		}
		row[x] = vk.Cell{S: " ", W: 1}
	}
	for y := t.Y + 1; y < t.H; y++ {
		r.wipeRow(y)
	}
}

func view(t *vk.Term, raw bool, alt bool) string {
	style := ""
	for m := range t.Modes {
		style += m + ","
	}
	return fmt.Sprintf("%s cursor=(%d,%d) pending=%v visible=%v alt=%v raw=%v saved=%v(%d,%d) modes=%s", t.Styled(), t.X, t.Y, t.Pending, t.Visible, alt, raw, t.SavedOK, t.SavedX, t.SavedY, style)
}

// ---- the operations ----

type op struct {
	name string
	// run calls the terminal and reports its error.
	run func(t terminal.Terminal) error
	// model applies the description; it reports whether the operation must
	// fail, in which case it changed nothing.
	model    func(r *ref) (mustFail bool)
	mayFail, // a failure without effect is acceptable, too
	input bool // concerns the input terminal
	fault bool // the output (or input) fails during this operation
	stty  bool // not an operation of the object: the input's echo is toggled from outside
}

func ops() []op {
	var os []op
	add := func(name string, run func(t terminal.Terminal) error, model func(r *ref)) *op {
		os = append(os, op{name: name, run: run, model: func(r *ref) bool { model(r); return false }})
		return &os[len(os)-1]
	}
	pos := func(x, y int) func(r *ref) bool {
		return func(r *ref) bool {
			if x < 0 || y < 0 {
				return true
			}
			r.move(x, y)
			return false
		}
	}
	for _, p := range [][2]int{{0, 0}, {1, 1}, {2, 0}, {0, 2}, {3, 2}, {9, 9}, {-1, 1}, {1, -1}, {-5, -5}} {
		add(fmt.Sprintf("SetCursorPosition(%d,%d)", p[0], p[1]), func(t terminal.Terminal) error { return t.SetCursorPosition(p[0], p[1]) }, nil)
		os[len(os)-1].model = pos(p[0], p[1])
		os[len(os)-1].mayFail = p[0] >= 4 || p[1] >= 3
	}
	for i, p := range [][2]int{{1, 2}, {3, 0}, {-1, 0}, {0, -1}, {2, 1}} {
		m := pos(p[0], p[1])
		s := "xy"
		if i == 4 {
			s = ""
		}
		add(fmt.Sprintf("WriteAt(%d,%d,%q)", p[0], p[1], s), func(t terminal.Terminal) error { return t.WriteAt(p[0], p[1], s) }, nil)
		os[len(os)-1].model = func(r *ref) bool {
			if m(r) {
				return true
			}
			r.t.WriteString(s)
			return false
		}
	}
	for _, n := range []int{-1, 0, 1, 2, 5} {
		mv := func(name string, f func(t terminal.Terminal) error, dx, dy int) {
			add(fmt.Sprintf("%s(%d)", name, n), f, func(r *ref) {
				if n > 0 {
					r.move(r.t.X+n*dx, r.t.Y+n*dy)
				}
			})
		}
		mv("MoveCursorUp", func(t terminal.Terminal) error { return t.MoveCursorUp(n) }, 0, -1)
		mv("MoveCursorDown", func(t terminal.Terminal) error { return t.MoveCursorDown(n) }, 0, 1)
		mv("MoveCursorLeft", func(t terminal.Terminal) error { return t.MoveCursorLeft(n) }, -1, 0)
		mv("MoveCursorRight", func(t terminal.Terminal) error { return t.MoveCursorRight(n) }, 1, 0)
	}
	for _, n := range []int{-1, 0, 1, 2, 3, 9} {
		add(fmt.Sprintf("ClearLines(%d)", n), func(t terminal.Terminal) error { return t.ClearLines(n) }, func(r *ref) {
			if n > 0 {
				r.move(0, r.t.Y-(n-1))
				r.wipeFrom()
			}
		})
	}
	add("Save", func(t terminal.Terminal) error { return t.SaveCursorPosition() }, func(r *ref) { r.t.SavedOK, r.t.SavedX, r.t.SavedY = true, r.t.X, r.t.Y })
	add("Restore", func(t terminal.Terminal) error { return t.RestoreCursorPosition() }, func(r *ref) {
		if r.t.SavedOK {
			r.move(r.t.SavedX, r.t.SavedY)
		} else {
			r.move(0, 0)
		}
	})
	add("HideCursor", func(t terminal.Terminal) error { return t.HideCursor() }, func(r *ref) { r.t.Visible = false })
	add("ShowCursor", func(t terminal.Terminal) error { return t.ShowCursor() }, func(r *ref) { r.t.Visible = true })
	for s, code := range map[terminal.CursorStyle]string{terminal.CursorBlock: "2", terminal.CursorUnderline: "4", terminal.CursorBar: "6"} {
		add("SetCursorStyle("+s.String()+")", func(t terminal.Terminal) error { return t.SetCursorStyle(s) }, func(r *ref) { r.t.Modes = map[string]bool{"cursorstyle=" + code: true} })
	}
	add("SetCursorStyle(invalid)", func(t terminal.Terminal) error { return t.SetCursorStyle(terminal.CursorStyle(77)) }, nil)
	os[len(os)-1].model = func(r *ref) bool { return true }
	add("Clear", func(t terminal.Terminal) error { return t.Clear() }, func(r *ref) { r.t.Cells = blanks(r.t.W, r.t.H); r.move(0, 0) })
	add("ClearLine", func(t terminal.Terminal) error { return t.ClearLine() }, func(r *ref) { r.wipeRow(r.t.Y); r.move(0, r.t.Y) })
	add("ClearFromCursor", func(t terminal.Terminal) error { return t.ClearFromCursor() }, func(r *ref) { r.wipeFrom() })
	for _, s := range []string{"", "a", "bcd", "世", "é\r\n%d%s"} {
		add(fmt.Sprintf("Write(%q)", s), func(t terminal.Terminal) error { return t.Write(s) }, func(r *ref) { r.t.WriteString(s) })
	}
	add("EnterAltScreen", func(t terminal.Terminal) error { return t.EnterAltScreen() }, nil)
	os[len(os)-1].model = func(r *ref) bool {
		if r.t.Alt {
			return true
		}
		r.t.Alt, r.main, r.mx, r.my = true, r.t.Cells, r.t.X, r.t.Y
		r.t.Cells = blanks(r.t.W, r.t.H)
		return false
	}
	add("ExitAltScreen", func(t terminal.Terminal) error { return t.ExitAltScreen() }, nil)
	os[len(os)-1].model = func(r *ref) bool {
		if !r.t.Alt {
			return true
		}
		r.t.Alt, r.t.Cells, r.main = false, r.main, nil
		r.move(r.mx, r.my)
		return false
	}
	add("EnterRawMode", func(t terminal.Terminal) error { return t.EnterRawMode() }, nil)
	os[len(os)-1].input = true
	os[len(os)-1].model = func(r *ref) bool {
		bad := r.raw
		r.raw = true
		return bad
	}
	add("ExitRawMode", func(t terminal.Terminal) error { return t.ExitRawMode() }, nil)
	os[len(os)-1].input = true
	os[len(os)-1].model = func(r *ref) bool {
		bad := !r.raw
		r.raw = false
		return bad
	}
	os = append(os, op{name: "stty echo", stty: true, model: func(r *ref) bool { r.quiet = !r.quiet; return false }})
	// operations that cannot be answered: they change nothing and say so
	add("GetCursorPosition", func(t terminal.Terminal) error {
		_, _, err := t.GetCursorPosition()
		return answered(err, t.SupportsReadback())
	}, func(r *ref) {})
	add("ReadScreenBuffer", func(t terminal.Terminal) error {
		_, err := t.ReadScreenBuffer()
		return answered(err, t.SupportsReadback())
	}, func(r *ref) {})
	return os
}

// answered: readback fails exactly if it is not supported.
func answered(err error, supported bool) error {
	if (err == nil) != supported {
		return fmt.Errorf("readback supported=%v but error=%v", supported, err)
	}
	return nil
}

// rawOK: the attributes of raw mode: no echo, no line editing, no signals, no
// translation of input or output, reads return after one byte.
func rawOK(t unix.Termios) bool {
	return t.Lflag&(unix.ECHO|unix.ICANON|unix.ISIG|unix.IEXTEN) == 0 && t.Iflag&(unix.ICRNL|unix.INLCR|unix.IGNCR|unix.IXON|unix.ISTRIP) == 0 &&
		t.Oflag&unix.OPOST == 0 && t.Cc[unix.VMIN] == 1 && t.Cc[unix.VTIME] == 0
}

// ---- operation sequences ----

type node struct {
	hist []int
	obj  string // the contents of the terminal object
	emu  *vk.Term
	ref  *ref
}

func sequences(c *vk.C, worlds chan *world, pty, auto bool, w, h, depth int) {
	all := ops()
	base := len(all)
	// the same operations on a failing output or input
	for i := 0; i < base; i++ {
		o := all[i]
		if strings.HasPrefix(o.name, "Get") || strings.HasPrefix(o.name, "Read") || o.stty || o.name == `Write("")` {
			continue
		}
		o.name, o.fault = "failing:"+o.name, true
		all = append(all, o)
	}
	if !pty {
		var keep []op
		for _, o := range all {
			if !o.input && !o.stty {
				keep = append(keep, o)
			}
		}
		all = keep
	}
	do := func(i int) func(n *node) (*node, bool, string, string) {
		o := all[i]
		return func(n *node) (next *node, ok bool, key, bad string) {
			if o.stty && n.ref.raw {
				return nil, false, "", ""
			}
			wd := <-worlds
			defer func() { worlds <- wd }()
			wd.fresh(auto)
			// bring a fresh object to this state
			for _, k := range n.hist {
				p := all[k]
				_, _ = wd.exec(p)
			}
			wd.emitted()
			before := wd.attrs()
			next = &node{hist: append(n.hist[:len(n.hist):len(n.hist)], i), emu: n.emu.Clone(), ref: n.ref.clone()}
			err, msg := wd.exec(o)
			if msg != "" {
				return nil, false, "panic:" + o.name, msg
			}
			bytes := wd.emitted()
			next.emu.WriteString(bytes)
			moved := next.ref.clone()
			fail := o.model(moved)
			changes := view(moved.t, moved.raw, moved.t.Alt) != view(next.ref.t, next.ref.raw, next.ref.t.Alt) || moved.main != nil != (next.ref.main != nil)
			switch {
			case o.fault:
				// nothing can happen; if something would have to, it is reported
				if err == nil && (changes || fail) {
					return nil, false, "fault-unreported:" + o.name, "returned no error although nothing could be done"
				}
			case fail && err == nil:
				return nil, false, "error-missing:" + o.name, fmt.Sprintf("returned no error (emitted %q)", bytes)
			case fail:
			case err != nil && o.mayFail:
			case err != nil:
				return nil, false, "error:" + o.name, fmt.Sprintf("returned %v", err)
			default:
				next.ref = moved
			}
			if err != nil && bytes != "" {
				return nil, false, "refused-but-emitted:" + o.name, fmt.Sprintf("returned %v but emitted %q", err, bytes)
			}
			if o.input && bytes != "" {
				return nil, false, "input-emitted:" + o.name, fmt.Sprintf("emitted %q", bytes)
			}
			if len(next.emu.Unknown) > 0 || next.emu.InEscape() || next.emu.AltErrors > 0 || next.emu.Bells > 0 {
				return nil, false, "malformed:" + o.name, fmt.Sprintf("emitted %q: unknown %q, redundant screen switches %d", bytes, next.emu.Unknown, next.emu.AltErrors)
			}
			alt, raw := wd.t.IsInAltScreen(), wd.t.IsInRawMode()
			r := next.ref
			got, want := view(next.emu, raw, alt), view(r.t, r.raw, r.t.Alt)
			if got != want {
				return nil, false, "state:" + o.name, fmt.Sprintf("emitted %q\n got %s\nwant %s", bytes, got, want)
			}
			if next.emu.Alt != alt {
				return nil, false, "alt-flag:" + o.name, fmt.Sprintf("says alternate screen=%v, the terminal shows %v", alt, next.emu.Alt)
			}
			if pty {
				now := wd.attrs()
				switch {
				case !o.input && !o.stty && now != before:
					return nil, false, "attrs:" + o.name, "changed the attributes of the input terminal"
				case r.raw && !rawOK(now):
					return nil, false, "not-raw:" + o.name, fmt.Sprintf("raw mode, but the attributes are %+v", now)
				case !r.raw && now != wd.quiet(r.quiet):
					return nil, false, "not-restored:" + o.name, fmt.Sprintf("not in raw mode, but the attributes differ from the original ones: %+v", now)
				}
			}
			if wd.emitted() != "" {
				return nil, false, "query-emitted", "reading the mode emitted bytes"
			}
			next.obj = vk.Dump(wd.t)
			return next, true, "", ""
		}
	}
	s := &vk.Space[*node]{
		Label: fmt.Sprintf("operation sequences on a %dx%d terminal (automatic choice=%v)", w, h, auto),
		Init:  []vk.Named[*node]{{N: &node{emu: vk.NewTerm(w, h), ref: &ref{t: vk.NewTerm(w, h)}}}},
		Depth: depth,
		Key: func(n *node) string {
			r := n.ref
			k := n.obj + fmt.Sprint(r.quiet) + view(r.t, r.raw, r.t.Alt)
			if r.main != nil {
				m := *r.t
				m.Cells = r.main
				k += fmt.Sprintf(" main=%s(%d,%d)", m.Styled(), r.mx, r.my)
			}
			return k
		},
	}
	for i := range all {
		s.Ops = append(s.Ops, vk.Op[*node]{Name: all[i].name, Do: do(i)})
	}
	s.Run(c)
}

// large: every count and position up to beyond the size of a large terminal,
// and some enormous ones; long texts.
func large(c *vk.C, worlds chan *world, w, h, limit int) {
	var ns []int
	for n := -2; n <= limit; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 255, 256, 257, 998, 999, 1000, 1001, 1002, 1024, 1100, 1199, 1200, 9999, 10000, 32767, 32768, 65535, 65536, 1<<31-1)
	starts := [][2]int{{0, 0}, {9, 9}, {66, 21}, {99, 42}, {w - 1, h - 1}, {w - 1, 0}, {0, h - 1}}
	screen := vk.NewTerm(w, h)
	for y := range h {
		screen.X, screen.Y = 0, y
		screen.Pending = false
		line := ""
		for x := 0; x < w; x += 2 {
			line += []string{"ab", "世", "x."}[(x/2+y)%3]
		}
		screen.WriteString(line)
	}
	long := strings.Repeat("0123456789", 2000)
	done := c.Parallel(len(ns), func(i int) {
		n := ns[i]
		wd := <-worlds
		defer func() { worlds <- wd }()
		type mv struct {
			name  string
			run   func(t terminal.Terminal) error
			model func(r *ref) bool
			may   bool
		}
		pos := func(x, y int, s string) mv {
			m := mv{name: fmt.Sprintf("SetCursorPosition(%d,%d)", x, y), run: func(t terminal.Terminal) error { return t.SetCursorPosition(x, y) }, may: x >= w || y >= h}
			if s != "" {
				m.name = fmt.Sprintf("WriteAt(%d,%d,%q)", x, y, s)
				m.run = func(t terminal.Terminal) error { return t.WriteAt(x, y, s) }
			}
			m.model = func(r *ref) bool {
				if x < 0 || y < 0 {
					return true
				}
				r.move(x, y)
				r.t.WriteString(s)
				return false
			}
			return m
		}
		by := func(name string, f func(t terminal.Terminal, n int) error, dx, dy int) mv {
			return mv{name: fmt.Sprintf("%s(%d)", name, n), run: func(t terminal.Terminal) error { return f(t, n) }, model: func(r *ref) bool {
				if n > 0 {
					r.move(r.t.X+n*dx, r.t.Y+n*dy)
				}
				return false
			}}
		}
		ms := []mv{pos(n, 3, ""), pos(3, n, ""), pos(n, n, ""), pos(n, 20, "世x"), pos(50, n, "y"),
			by("MoveCursorUp", terminal.Terminal.MoveCursorUp, 0, -1), by("MoveCursorDown", terminal.Terminal.MoveCursorDown, 0, 1),
			by("MoveCursorLeft", terminal.Terminal.MoveCursorLeft, -1, 0), by("MoveCursorRight", terminal.Terminal.MoveCursorRight, 1, 0),
			{name: fmt.Sprintf("ClearLines(%d)", n), run: func(t terminal.Terminal) error { return t.ClearLines(n) }, model: func(r *ref) bool {
				if n > 0 {
					r.move(0, r.t.Y-(n-1))
					r.wipeFrom()
				}
				return false
			}}}
		if k := max(0, min(n*16, len(long))); i%4 == 0 {
			ms = append(ms, mv{name: fmt.Sprintf("Write of %d bytes", k), run: func(t terminal.Terminal) error { return t.Write(long[:k]) }, model: func(r *ref) bool { r.t.WriteString(long[:k]); return false }})
		}
		for _, m := range ms {
			for _, st := range starts {
				if m.may && st != starts[0] { // where the cursor stands does not matter
					continue
				}
				wd.fresh(false)
				emu := screen.Clone()
				r := &ref{t: screen.Clone()}
				r.move(st[0], st[1])
				err := wd.t.SetCursorPosition(st[0], st[1])
				if err == nil {
					emu.WriteString(wd.emitted())
					err = m.run(wd.t)
				}
				out := wd.emitted()
				emu.WriteString(out)
				was := r.clone()
				c.States.Add(1)
				c.Transitions.Add(1)
				c.Evals.Add(1)
				fail := m.model(r)
				bad := ""
				switch {
				case fail && err == nil:
					bad = "returned no error"
				case fail || err != nil && m.may:
					r = was
				case err != nil:
					bad = fmt.Sprintf("returned %v", err)
				}
				if bad == "" && (emu.X != r.t.X || emu.Y != r.t.Y || emu.Pending != r.t.Pending || len(emu.Unknown) > 0 || emu.InEscape()) {
					bad = fmt.Sprintf("the cursor is at (%d,%d) pending=%v instead of (%d,%d) pending=%v, unknown %q", emu.X, emu.Y, emu.Pending, r.t.X, r.t.Y, r.t.Pending, emu.Unknown)
				}
				for y := 0; y < h && bad == ""; y++ {
					for x := range w {
						if emu.Cells[y][x] != r.t.Cells[y][x] {
							bad = fmt.Sprintf("cell (%d,%d) shows %q instead of %q", x, y, emu.Cells[y][x].S, r.t.Cells[y][x].S)
							break
						}
					}
				}
				if bad != "" {
					c.Fail("large", fmt.Sprintf("%s from (%d,%d) on a %dx%d terminal emitted %.60q: %s", m.name, st[0], st[1], w, h, out, bad), m.name)
					return
				}
			}
		}
	})
	if done < len(ns) {
		c.Partial("large terminal: %d of %d counts", done, len(ns))
	}
	c.Part("%dx%d terminal: every operation with every count and coordinate from -2 to %d and %d larger ones, from 7 cursor positions; texts of up to 20000 bytes", w, h, limit, len(ns)-limit-3)
}

// exec runs one operation, on a failing output and input if it says so.
func (w *world) exec(o op) (err error, msg string) {
	if o.stty {
		t := w.attrs()
		t.Lflag ^= unix.ECHO
		if err := unix.IoctlSetTermios(w.inKeep, unix.TCSETS, &t); err != nil {
			panic(err)
		}
		return
	}
	if o.fault {
		dup(w.full, w.out)
		dup(w.nul, w.in)
		defer func() { dup(w.outKeep, w.out); dup(w.inKeep, w.in) }()
	}
	msg = vk.Guard(func() { err = o.run(w.t) })
	return
}

// ---- an output that takes only part of what an operation emits ----

// partial: each operation on an output that accepts k bytes (whole writes
// only) and then fails: bytes missing at the end are reported.
func partial(c *vk.C) {
	var p [2]int
	if err := unix.Pipe2(p[:], unix.O_CLOEXEC); err != nil {
		c.Partial("no pipe: %v", err)
		return
	}
	size, err := unix.FcntlInt(uintptr(p[1]), unix.F_SETPIPE_SZ, 4096)
	if err != nil || size != 4096 {
		c.Partial("the pipe cannot be made one page long: %v", err)
		return
	}
	wr := os.NewFile(uintptr(p[1]), "pipe") // blocking at this moment: not polled
	_ = unix.SetNonblock(p[0], true)
	_ = unix.SetNonblock(p[1], true)
	defer wr.Close()
	defer unix.Close(p[0])
	buf := make([]byte, 8192)
	drain := func() string {
		var b strings.Builder
		for {
			n, err := unix.Read(p[0], buf)
			if n <= 0 || err != nil {
				return b.String()
			}
			b.Write(buf[:n])
		}
	}
	nul := os.NewFile(uintptr(open("/dev/null", unix.O_RDWR)), "in")
	defer nul.Close()
	mk := func() terminal.Terminal {
		newMu.Lock()
		defer newMu.Unlock()
		so, si := os.Stdout, os.Stdin
		os.Stdout, os.Stdin = wr, nul
		defer func() { os.Stdout, os.Stdin = so, si }()
		return terminal.NewANSI()
	}
	filler := strings.Repeat("F", 4096)
	n := 0
	for _, alt := range []bool{false, true} {
		for _, o := range ops() {
			if o.input || o.stty {
				continue
			}
			ready := func() terminal.Terminal {
				t := mk()
				if alt {
					_ = t.EnterAltScreen()
				}
				drain()
				return t
			}
			t := ready()
			if o.run(t) != nil {
				drain()
				continue
			}
			whole := drain()
			for k := 0; k < len(whole); k++ {
				t := ready()
				if _, err := unix.Write(p[1], []byte(filler[:4096-k])); err != nil {
					panic(err)
				}
				was := t.IsInAltScreen()
				var err error
				msg := vk.Guard(func() { err = o.run(t) })
				got := strings.TrimPrefix(drain(), filler[:4096-k])
				c.Transitions.Add(1)
				n++
				what := map[string]any{"operation": o.name, "accepted bytes": k, "got": got}
				switch {
				case msg != "":
					c.Fail("partial-panic:"+o.name, msg, what)
				case !strings.HasPrefix(whole, got):
					c.Fail("partial-garbage:"+o.name, fmt.Sprintf("emitted %q, which is no beginning of %q", got, whole), what)
				case got != whole && err == nil:
					c.Fail("partial-unreported:"+o.name, fmt.Sprintf("the output took only %q of %q, no error was returned", got, whole), what)
				case got != whole && t.IsInAltScreen() != was:
					c.Fail("partial-flag:"+o.name, "the screen mode changed although the switch was not written", what)
				}
			}
		}
	}
	c.Part("each operation on an output that accepts fewer bytes than it emits, every number of bytes: %d cases", n)
}

// ---- size and colours ----

func sizes(c *vk.C) {
	m, s, err := openPty()
	if err != nil {
		c.Partial("no pty (%v): sizes of a terminal not exercised", err)
	} else {
		defer m.Close()
		defer s.Close()
	}
	on := func(out *os.File) terminal.Terminal {
		newMu.Lock()
		defer newMu.Unlock()
		so := os.Stdout
		os.Stdout = out
		defer func() { os.Stdout = so }()
		return terminal.NewANSI()
	}
	if err == nil {
		t := on(s)
		vals := []uint16{0, 1, 2, 80, 255, 256, 32767, 32768, 65535}
		for _, w := range vals {
			for _, h := range vals {
				if err := unix.IoctlSetWinsize(int(m.Fd()), unix.TIOCSWINSZ, &unix.Winsize{Row: h, Col: w, Xpixel: 77, Ypixel: 99}); err != nil {
					panic(err)
				}
				c.Transitions.Add(1)
				gw, gh, err := t.Size()
				if w == 0 || h == 0 {
					if gw != 80 || gh != 24 {
						c.Fail("size-unknown", fmt.Sprintf("a terminal reporting %dx%d has size %dx%d (%v), want the 80x24 fallback", w, h, gw, gh, err), nil)
					}
				} else if err != nil || gw != int(w) || gh != int(h) {
					c.Fail("size", fmt.Sprintf("a terminal of %dx%d has size %dx%d (%v)", w, h, gw, gh, err), nil)
				}
			}
		}
		c.Part("size: every combination of %d widths and heights, changed while the object lives", len(vals))
	}
	nul := os.NewFile(uintptr(open("/dev/null", unix.O_RDWR)), "null")
	defer nul.Close()
	t := on(nul)
	if w, h, err := t.Size(); w != 80 || h != 24 || err == nil {
		c.Fail("size-none", fmt.Sprintf("output that is no terminal: size %dx%d, error %v; want 80x24 and an error", w, h, err), nil)
	}
	// colours: what is announced is consistent and follows the environment
	oc, ot := os.Getenv("COLORTERM"), os.Getenv("TERM")
	defer func() { os.Setenv("COLORTERM", oc); os.Setenv("TERM", ot) }()
	for _, ct := range []string{"", "truecolor", "24bit", "yes", "TRUECOLOR", "0", "256color"} {
		for _, te := range []string{"", "xterm", "xterm-256color", "screen-256color", "tmux-256color", "rxvt-unicode-256color", "xterm-256color-italic", "dumb", "vt100", "linux", "screen", "xterm-direct"} {
			os.Setenv("COLORTERM", ct)
			os.Setenv("TERM", te)
			c.Transitions.Add(1)
			d, tc := t.ColorDepth(), t.SupportsTrueColor()
			bad := ""
			switch {
			case d != 16 && d != 256 && d != 16777216:
				bad = "no such number of colours"
			case tc != (d == 16777216):
				bad = "true colour support and number of colours disagree"
			case (ct == "truecolor" || ct == "24bit") && !tc:
				bad = "true colour announced by the environment is not reported"
			case ct != "truecolor" && ct != "24bit" && ct != "TRUECOLOR" && strings.Contains(te, "256color") && d != 256:
				bad = "256 colours announced by the environment are not reported"
			case (ct == "" || ct == "yes" || ct == "0") && !strings.Contains(te, "256color") && te != "xterm-direct" && d != 16:
				bad = "more colours than the environment announces"
			}
			if bad != "" {
				c.Fail("colours", fmt.Sprintf("COLORTERM=%q TERM=%q: %d colours, true colour %v: %s", ct, te, d, tc, bad), nil)
			}
		}
	}
	c.Part("colour depth: every combination of 7 COLORTERM and 12 TERM values")
}

// ---- concurrent mode switches ----

var swWorld *world

func scenario(name string, threads, per int, set []string, bound int) *vsched.Scenario {
	n := 1
	for i := 0; i < threads*per; i++ {
		n *= len(set)
	}
	return &vsched.Scenario{Name: name, Variants: n, Bound: bound, Races: true, AccYield: true, Body: func(x *vsched.X) {
		if swWorld == nil {
			swWorld = newWorld()
		}
		w := swWorld
		w.fresh(false)
		clock, done := 0, 0
		var hist []vk.LinOp
		code := x.Variant
		e := func(err error) string {
			if err != nil {
				return "error"
			}
			return "ok"
		}
		for th := 0; th < threads; th++ {
			var prog []string
			for k := 0; k < per; k++ {
				prog = append(prog, set[code%len(set)])
				code /= len(set)
			}
			vsched.GoName("T"+string(rune('A'+th)), func() {
				for _, o := range prog {
					h := vk.LinOp{Thread: th, Op: o}
					clock++
					h.Call = clock
					switch o {
					case "EnterAlt":
						h.Out = e(w.t.EnterAltScreen())
					case "ExitAlt":
						h.Out = e(w.t.ExitAltScreen())
					case "IsAlt":
						h.Out = fmt.Sprint(w.t.IsInAltScreen())
					case "EnterRaw":
						h.Out = e(w.t.EnterRawMode())
					case "ExitRaw":
						h.Out = e(w.t.ExitRawMode())
					case "IsRaw":
						h.Out = fmt.Sprint(w.t.IsInRawMode())
					}
					clock++
					h.Ret = clock
					hist = append(hist, h)
				}
				done++
			})
		}
		vsched.Await("all done", func() bool { return done == threads })
		emu := vk.NewTerm(4, 3)
		bytes := w.emitted()
		emu.WriteString(bytes)
		if emu.AltErrors > 0 || len(emu.Unknown) > 0 {
			x.Fail("redundant-switch", fmt.Sprintf("emitted %q:%s", bytes, vk.History(hist)))
		}
		// what the terminal shows and how its input is set decides the final state
		now := w.attrs()
		isRaw := now != w.cooked
		if w.master == nil {
			isRaw = w.t.IsInRawMode()
		} else if isRaw && !rawOK(now) {
			x.Fail("half-raw", vk.History(hist))
		}
		if w.t.IsInAltScreen() != emu.Alt || w.t.IsInRawMode() != isRaw {
			x.Fail("flags", fmt.Sprintf("flags alt=%v raw=%v, terminal alt=%v raw=%v:%s", w.t.IsInAltScreen(), w.t.IsInRawMode(), emu.Alt, isRaw, vk.History(hist)))
		}
		final := fmt.Sprintf("%v %v", emu.Alt, isRaw)
		if !vk.Linearizable(hist, "false false", func(state, o string) (string, string) {
			var alt, raw bool
			fmt.Sscan(state, &alt, &raw)
			b := &alt
			if strings.HasSuffix(o, "Raw") {
				b = &raw
			}
			out := "ok"
			switch {
			case strings.HasPrefix(o, "Is"):
				out = fmt.Sprint(*b)
			case *b == strings.HasPrefix(o, "Enter"):
				out = "error"
			default:
				*b = !*b
			}
			return fmt.Sprintf("%v %v", alt, raw), out
		}, func(state string) bool { return state == final }) {
			x.Fail("not-linearizable", "no order of the calls explains the results and the final state "+final+":"+vk.History(hist))
		}
		x.Nontrivial()
		x.Outcome(final)
	}}
}

func scenarios(thorough bool) []*vsched.Scenario {
	all := []string{"EnterAlt", "ExitAlt", "IsAlt", "EnterRaw", "ExitRaw", "IsRaw"}
	if m, s, err := openPty(); err != nil {
		all = all[:3]
	} else {
		m.Close()
		s.Close()
	}
	b := 2
	if thorough {
		b = 4
	}
	return []*vsched.Scenario{
		scenario("two threads, two calls each", 2, 2, all, b),
		scenario("three threads, one call each", 3, 1, all, b),
		scenario("two threads, three calls each", 2, 3, []string{"EnterAlt", "ExitAlt", "IsAlt"}, b-1),
	}
}

func main() {
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C22", "model_checking", 0, func(c *vk.C) {
		worlds := make(chan *world, 8)
		pty := true
		for i := 0; i < cap(worlds); i++ {
			w := newWorld()
			defer w.close()
			pty = pty && w.master != nil
			worlds <- w
		}
		if !pty {
			c.Partial("no pty can be opened: raw mode not exercised")
		}
		sequences(c, worlds, pty, false, 4, 3, vk.Pick(c, 4, 5))
		sequences(c, worlds, pty, true, 3, 2, vk.Pick(c, 4, 5))
		sequences(c, worlds, pty, false, 1, 1, vk.Pick(c, 8, 20))
		large(c, worlds, 132, 43, vk.Pick(c, 150, 300))
		large(c, worlds, 1200, 2, 4)
		large(c, worlds, 2, 1200, 4)
		partial(c)
		sizes(c)
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 60*time.Second, 8*time.Minute))
		c.Sched(rep, err)
		c.Rule("operation sequences: all up to the depth, with every operation also on a failing output or input; outputs that fail after every number of bytes; terminal sizes and environment combinations; concurrent mode switches: all programs of the stated sizes, all schedules up to the deviation bound")
		c.Assume("the emulator's alternate screen, saved cursor and erasing follow xterm; the saved cursor position is one slot")
		c.Assume("the Windows console implementation needs Windows and is not exercised")
	})
}
