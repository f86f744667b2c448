// C33: the viewport against a reference scroller.
package main

import (
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/components/viewport"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/tea"
)

type ref struct {
	content             []string
	w, h, off           int
	follow, wrap, mouse bool
	lps                 int
	drag                bool
	dragY, dragOff      int
}

func (r *ref) max() int { return max(0, len(r.content)-r.h) }

func (r *ref) up(n int) {
	r.off = max(0, r.off-n)
	r.follow = false
}

func (r *ref) down(n int) {
	r.off = min(r.max(), r.off+n)
	if r.off >= r.max() {
		r.follow = true
	}
}

func (r *ref) set(lines []string) {
	r.content = append([]string(nil), lines...)
	r.settle()
}

func (r *ref) settle() {
	r.off = min(r.off, r.max())
	if r.follow {
		r.off = r.max()
	}
}

func (r *ref) resize(w, h int) {
	r.w, r.h = max(0, w), max(0, h)
	r.settle()
}

// clusters of the alphabet used here: a base character with its combining marks
func clusters(s string) []string {
	var out []string
	for _, c := range s {
		if len(out) > 0 && vk.RuneWidth(c) == 0 {
			out[len(out)-1] += string(c)
			continue
		}
		out = append(out, string(c))
	}
	return out
}

func width(cl string) int {
	for _, c := range cl {
		return vk.RuneWidth(c)
	}
	return 0
}

func (r *ref) lines() []string {
	var out []string
	if r.w == 0 || r.h == 0 {
		return nil
	}
	for i := r.off; i < r.off+r.h && i < len(r.content); i++ {
		cur, w := "", 0
		for _, cl := range clusters(r.content[i]) {
			cw := width(cl)
			if w+cw > r.w {
				if !r.wrap {
					break
				}
				if w > 0 {
					out = append(out, cur)
					cur, w = "", 0
				}
			}
			cur += cl
			w += cw
		}
		out = append(out, cur)
	}
	return out
}

type node struct {
	v *viewport.Viewport
	r ref
	d string // the dump of v
}

func mkNode(v *viewport.Viewport, r ref) node { return node{v, r, vk.Dump(v)} }

func check(n node) (string, string) {
	r := &n.r
	v := n.v
	if v.ScrollOffset() != r.off {
		return "offset", fmt.Sprintf("offset is %d, should be %d (of %d lines, height %d, follow %v)", v.ScrollOffset(), r.off, len(r.content), r.h, r.follow)
	}
	if v.TotalLines() != len(r.content) || v.Height() != r.h {
		return "size", fmt.Sprintf("lines %d height %d, should be %d %d", v.TotalLines(), v.Height(), len(r.content), r.h)
	}
	if v.CanScrollUp() != (r.off > 0) || v.IsAtTop() != (r.off == 0) {
		return "ends", fmt.Sprintf("CanScrollUp=%v IsAtTop=%v at offset %d", v.CanScrollUp(), v.IsAtTop(), r.off)
	}
	if v.CanScrollDown() != (r.off < r.max()) || v.IsAtBottom() != (r.off >= r.max()) {
		return "ends", fmt.Sprintf("CanScrollDown=%v IsAtBottom=%v at offset %d of max %d", v.CanScrollDown(), v.IsAtBottom(), r.off, r.max())
	}
	want := strings.Join(r.lines(), "\n")
	if got := v.View(); got != want {
		return "view", fmt.Sprintf("view is %q, should be %q", got, want)
	}
	if got := strings.Join(v.VisibleLines(), "\n"); got != want {
		return "view", fmt.Sprintf("visible lines are %q, should be %q", got, want)
	}
	return "", ""
}

func main() {
	vk.Main("C33", "model_checking", 0, func(c *vk.C) {
		c.Rule("breadth-first over all operation sequences up to the depth; every transition runs the real viewport and a reference scroller and compares offset, ends and view")
		var ops []vk.Op[node]
		add := func(name string, f func(v *viewport.Viewport) *viewport.Viewport, m func(r *ref)) {
			ops = append(ops, vk.Op[node]{Name: name, Do: func(n node) (node, bool, string, string) {
				nv := f(n.v)
				r := n.r
				m(&r)
				if vk.Dump(n.v) != n.d {
					return n, true, "mutated", "the operation changed the viewport it was called on"
				}
				return mkNode(nv, r), true, "", ""
			}})
		}
		key := func(name string, k tea.KeyMsg, m func(r *ref)) {
			add(name, func(v *viewport.Viewport) *viewport.Viewport { nv, _ := v.Update(k); return nv }, m)
		}
		rn := func(ch rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: ch} }
		ctrl := func(ch rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: ch, Ctrl: true} }
		top := func(r *ref) { r.off, r.follow = 0, false }
		bottom := func(r *ref) { r.off, r.follow = r.max(), true }
		for _, k := range []tea.KeyMsg{{Type: tea.KeyUp}, rn('k')} {
			key(k.String(), k, func(r *ref) { r.up(1) })
		}
		for _, k := range []tea.KeyMsg{{Type: tea.KeyDown}, rn('j')} {
			key(k.String(), k, func(r *ref) { r.down(1) })
		}
		for _, k := range []tea.KeyMsg{{Type: tea.KeyPgUp}, rn('b'), ctrl('b')} {
			key(k.String(), k, func(r *ref) { r.up(r.h) })
		}
		for _, k := range []tea.KeyMsg{{Type: tea.KeyPgDown}, rn('f'), ctrl('f'), {Type: tea.KeySpace}} {
			key(k.String(), k, func(r *ref) { r.down(r.h) })
		}
		for _, k := range []tea.KeyMsg{{Type: tea.KeyHome}, rn('g')} {
			key(k.String(), k, top)
		}
		for _, k := range []tea.KeyMsg{{Type: tea.KeyEnd}, rn('G')} {
			key(k.String(), k, bottom)
		}
		key("ctrl+u", ctrl('u'), func(r *ref) { r.up(r.h / 2) })
		key("ctrl+d", ctrl('d'), func(r *ref) { r.down(r.h / 2) })
		key("x", rn('x'), func(r *ref) {})
		mouse := func(name string, ms tea.MouseMsg, m func(r *ref)) {
			add(name, func(v *viewport.Viewport) *viewport.Viewport { nv, _ := v.Update(ms); return nv }, func(r *ref) {
				if r.mouse {
					m(r)
				}
			})
		}
		mouse("wheel up", tea.MouseMsg{Button: tea.MouseButtonWheelUp}, func(r *ref) { r.up(r.lps) })
		mouse("wheel down", tea.MouseMsg{Button: tea.MouseButtonWheelDown}, func(r *ref) { r.down(r.lps) })
		for _, y := range []int{0, 2} {
			mouse(fmt.Sprintf("press y=%d", y), tea.MouseMsg{Button: tea.MouseButtonLeft, Action: tea.MouseActionPress, Y: y}, func(r *ref) {
				r.drag, r.dragY, r.dragOff = true, y, r.off
			})
			mouse(fmt.Sprintf("motion y=%d", y+1), tea.MouseMsg{Button: tea.MouseButtonLeft, Action: tea.MouseActionMotion, Y: y + 1}, func(r *ref) {
				if r.drag {
					r.off = min(r.max(), max(0, r.dragOff-(y+1-r.dragY)))
					r.follow = false
				}
			})
		}
		mouse("right press", tea.MouseMsg{Button: tea.MouseButtonRight, Action: tea.MouseActionPress, Y: 1}, func(r *ref) {})
		mouse("release", tea.MouseMsg{Button: tea.MouseButtonLeft, Action: tea.MouseActionRelease, Y: 1}, func(r *ref) {
			r.drag, r.dragY, r.dragOff = false, 0, 0
		})
		add("mouse on", func(v *viewport.Viewport) *viewport.Viewport { return v.MouseEnabled(true) }, func(r *ref) { r.mouse = true })
		add("mouse off", func(v *viewport.Viewport) *viewport.Viewport { return v.MouseEnabled(false) }, func(r *ref) { r.mouse = false })
		for _, n := range []int{-1, 1, 2} {
			add(fmt.Sprintf("wheel lines %d", n), func(v *viewport.Viewport) *viewport.Viewport { return v.SetWheelScrollLines(n) }, func(r *ref) { r.lps = max(1, n) })
		}
		add("follow", func(v *viewport.Viewport) *viewport.Viewport { return v.FollowMode(true) }, bottom)
		add("no follow", func(v *viewport.Viewport) *viewport.Viewport { return v.FollowMode(false) }, func(r *ref) { r.follow = false })
		add("wrap", func(v *viewport.Viewport) *viewport.Viewport { return v.WrapLines(true) }, func(r *ref) { r.wrap = true })
		add("no wrap", func(v *viewport.Viewport) *viewport.Viewport { return v.WrapLines(false) }, func(r *ref) { r.wrap = false })
		add("to top", (*viewport.Viewport).ScrollToTop, top)
		add("to bottom", (*viewport.Viewport).ScrollToBottom, bottom)
		for _, o := range []int{-1, 0, 1, 2, 99} {
			add(fmt.Sprintf("offset %d", o), func(v *viewport.Viewport) *viewport.Viewport { return v.SetYOffset(o) }, func(r *ref) {
				r.off, r.follow = max(0, min(o, r.max())), false
			})
		}
		for _, s := range [][2]int{{3, 2}, {5, 1}, {4, 3}, {3, 0}, {0, 2}, {-1, -2}, {1, 3}} {
			add(fmt.Sprintf("size %dx%d", s[0], s[1]), func(v *viewport.Viewport) *viewport.Viewport { return v.SetSize(s[0], s[1]) }, func(r *ref) { r.resize(s[0], s[1]) })
		}
		add("window 5x2", func(v *viewport.Viewport) *viewport.Viewport {
			nv, _ := v.Update(tea.WindowSizeMsg{Width: 5, Height: 2})
			return nv
		}, func(r *ref) { r.resize(5, 2) })
		short := []string{"x", "yy"}
		long := []string{"abcdef", "", "日本語x", "e\u0301e\u0301e\u0301e\u0301e\u0301", "w", "vv"}
		add("content empty lines", func(v *viewport.Viewport) *viewport.Viewport { return v.SetLines(nil) }, func(r *ref) { r.set(nil) })
		add("content short", func(v *viewport.Viewport) *viewport.Viewport { return v.SetLines(short) }, func(r *ref) { r.set(short) })
		add("content long", func(v *viewport.Viewport) *viewport.Viewport { return v.SetContent(strings.Join(long, "\n")) }, func(r *ref) { r.set(long) })
		add("content one", func(v *viewport.Viewport) *viewport.Viewport { return v.SetContent("") }, func(r *ref) { r.set([]string{""}) })
		add("append", func(v *viewport.Viewport) *viewport.Viewport { return v.AppendLine("new") }, func(r *ref) {
			r.set(append(append([]string(nil), r.content...), "new"))
		})
		add("append two", func(v *viewport.Viewport) *viewport.Viewport { return v.AppendLines([]string{"p", "qqqqqq"}) }, func(r *ref) {
			r.set(append(append([]string(nil), r.content...), "p", "qqqqqq"))
		})
		add("theme", func(v *viewport.Viewport) *viewport.Viewport { return v.Theme(style.DarkTheme()) }, func(r *ref) {})

		var init []vk.Named[node]
		for _, h := range []int{1, 2, 3} {
			for n := 0; n <= 6; n += 2 {
				lines := long[:n]
				init = append(init, vk.Named[node]{Name: fmt.Sprintf("lines=%d height=%d", n, h), N: mkNode(viewport.NewWithLines(lines, 4, h), ref{content: lines, w: 4, h: h, lps: 3})})
				init = append(init, vk.Named[node]{Name: fmt.Sprintf("lines=%d height=%d mouse follow", n, h), N: mkNode(viewport.NewWithLines(lines, 4, h).MouseEnabled(true).FollowMode(true),
					ref{content: lines, w: 4, h: h, lps: 3, mouse: true, follow: true, off: max(0, n-h)})})
			}
		}
		init = append(init, vk.Named[node]{Name: "New", N: mkNode(viewport.New(4, 2), ref{w: 4, h: 2, lps: 3})})
		init = append(init, vk.Named[node]{Name: "NewWithContent", N: mkNode(viewport.NewWithContent("a\nb\nc\nd", 2, 2), ref{content: []string{"a", "b", "c", "d"}, w: 2, h: 2, lps: 3})})
		var big []string
		for i := 0; i < 130; i++ {
			big = append(big, strings.Repeat(string(rune('a'+i%26)), i%9))
		}
		init = append(init, vk.Named[node]{Name: "130 lines height 24", N: mkNode(viewport.NewWithLines(big, 4, 24).MouseEnabled(true).SetYOffset(50), ref{content: big, w: 4, h: 24, lps: 3, off: 50, mouse: true})})
		keyf := func(n node) string { return n.d + fmt.Sprintf("%+v", n.r) }
		s := vk.Space[node]{Label: "viewport, all operations", Init: init, Ops: ops, Check: check, Depth: vk.Pick(c, 4, 5), Max: vk.Pick(c, 500000, 4000000), Sample: 5000, Key: keyf, Full: true}
		s.Run(c)
		// deeper, with one operation of each kind
		core := map[string]bool{"k": true, "j": true, "pgdown": true, "wheel up": true, "press y=2": true, "motion y=1": true, "follow": true, "wrap": true,
			"size 5x1": true, "size 4x3": true, "content short": true, "content long": true, "append two": true, "mouse on": true, "to bottom": true, "offset 1": true}
		var few []vk.Op[node]
		for _, o := range ops {
			if core[o.Name] {
				few = append(few, o)
			}
		}
		d := vk.Space[node]{Label: "viewport, core operations", Init: init[:4], Ops: few, Check: check, Depth: vk.Pick(c, 6, 8), Max: vk.Pick(c, 500000, 4000000), Key: keyf, Full: true}
		d.Run(c)
		// long contents in large windows, in long runs
		var li []vk.Named[node]
		for _, sz := range [][3]int{{100, 80, 24}, {101, 1, 10}, {130, 200, 60}, {300, 40, 100}, {1000, 20, 24}} {
			var ls []string
			for i := 0; i < sz[0]; i++ {
				ls = append(ls, strings.Repeat([]string{"word ", "漢字", "e\u0301", "x"}[i%4], (i*7)%61))
			}
			for _, wrap := range []bool{false, true} {
				for _, off := range []int{0, sz[0] / 2, sz[0]} {
					o := max(0, min(off, sz[0]-sz[2]))
					li = append(li, vk.Named[node]{Name: fmt.Sprintf("%d lines %dx%d wrap %v offset %d", sz[0], sz[1], sz[2], wrap, o),
						N: mkNode(viewport.NewWithLines(ls, sz[1], sz[2]).MouseEnabled(true).WrapLines(wrap).SetYOffset(off),
							ref{content: ls, w: sz[1], h: sz[2], lps: 3, off: o, mouse: true, wrap: wrap})})
				}
			}
		}
		moves := vk.ByName(ops, "k", "j", "pgup", "pgdown", "ctrl+u", "ctrl+d", "wheel up", "wheel down", "append", "append two")
		keyh := func(n node) string {
			r := n.r
			r.content = nil
			return n.d + fmt.Sprintf("%+v %d", r, len(n.r.content))
		}
		lr := vk.Runs[node]{Label: "long contents", Init: li, Check: check, Key: keyh, Phases: []vk.Phase[node]{
			{Ops: moves, Reps: []int{1, 20, vk.Pick(c, 40, 310)}},
			{Ops: append(vk.ByName(ops, "follow", "to bottom", "to top", "wrap", "no wrap", "size 5x1", "size 4x3", "content short", "press y=2"), moves...), Reps: []int{1, vk.Pick(c, 2, 20)}},
			{Ops: vk.ByName(ops, "motion y=1", "append", "j", "k", "size 4x3"), Reps: []int{1}},
		}}
		lr.Run(c)
		// the caller's slice is not aliased
		in := []string{"a", "b"}
		v := viewport.NewWithLines(in, 4, 2)
		in[0] = "CHANGED"
		if v.View() != "a\nb" {
			c.Fail("alias", "changing the slice passed in changed the viewport", nil)
		}
		v2 := viewport.New(4, 2).SetLines(in)
		in[1] = "CHANGED"
		if !strings.HasSuffix(v2.View(), "\nb") {
			c.Fail("alias", "changing the slice passed in changed the viewport", nil)
		}
	})
}
