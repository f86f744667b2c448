// C10: every history of frames and screen operations over small frames, run on
// an emulated terminal; all pairs of styles; all characters of a list; every
// position of a full-size screen.
package main

import (
	"bytes"
	"fmt"

	"github.com/phoenix-tui/phoenix/render"
	"github.com/phoenix-tui/phoenix/render/zzverif/rnd"
	"github.com/phoenix-tui/phoenix/render/zzverif/vk"
)

// sys is a renderer on its terminal.
type sys struct {
	t     *vk.Term
	r     *render.Renderer
	wrote int
	want  *rnd.Frame
	shown bool // cursor
	reuse int  // 0: a new buffer for every frame, 1: always the same, drawn over, 2: one of the renderer's, returned after
	buf   *render.Buffer
}

func start(w, h, buffer, x, y int) *sys {
	s := &sys{t: vk.NewTerm(w, h), want: rnd.Blank(w, h), shown: true}
	s.t.X, s.t.Y = x, y // wherever the cursor was
	out := rnd.Sink{F: func(p []byte) (int, error) { s.wrote += len(p); return s.t.Write(p) }}
	if buffer == 0 {
		s.r = render.New(w, h, out)
	} else {
		s.r = render.WithBufferSize(w, h, out, buffer)
	}
	return s
}

func (s *sys) render(f *rnd.Frame) string {
	if f.W != s.t.W || f.H != s.t.H {
		s.t.Resize(f.W, f.H)
	}
	if err := s.draw(f); err != nil {
		return "Render: " + err.Error()
	}
	s.want = f
	return s.bad()
}

// draw renders a frame from a buffer.
func (s *sys) draw(f *rnd.Frame) error {
	b := s.buf
	switch {
	case s.reuse == 2 && s.r.Width() == f.W && s.r.Height() == f.H:
		b = s.r.Buffer()
		defer b.Release()
		f.Draw(b)
		return s.r.Render(b)
	case b == nil || s.reuse == 0 || b.Width() != f.W || b.Height() != f.H:
		b = render.NewBuffer(f.W, f.H)
		if s.reuse == 1 {
			s.buf = b
		}
	}
	f.Draw(b)
	return s.r.Render(b)
}

func (s *sys) bad() string {
	if b := s.want.Shows(s.t); b != "" {
		return b
	}
	if s.t.Visible != s.shown {
		return fmt.Sprintf("the cursor is visible: %v", s.t.Visible)
	}
	if s.r.Width() != s.want.W || s.r.Height() != s.want.H {
		return fmt.Sprintf("the renderer says it is %dx%d", s.r.Width(), s.r.Height())
	}
	if len(s.t.Unknown) > 0 {
		return fmt.Sprintf("wrote %q", s.t.Unknown)
	}
	return ""
}

// again renders the same frame once more: nothing may be written.
func (s *sys) again() string {
	n := s.wrote
	if err := s.draw(s.want); err != nil {
		return "Render: " + err.Error()
	}
	if s.wrote != n {
		return fmt.Sprintf("rendering the unchanged frame again wrote %d bytes", s.wrote-n)
	}
	return ""
}

type op struct {
	name string
	do   func(s *sys) string
}

func frameOps(frames []*rnd.Frame) (out []op) {
	for _, f := range frames {
		out = append(out, op{f.String(), func(s *sys) string {
			if b := s.render(f); b != "" {
				return b
			}
			return s.again()
		}})
	}
	return
}

func errText(name string, err error) string {
	if err != nil {
		return name + ": " + err.Error()
	}
	return ""
}

func screenOps(sizes [][2]int) (out []op) {
	out = append(out, op{"Clear", func(s *sys) string {
		if err := s.r.Clear(); err != nil {
			return "Clear: " + err.Error()
		}
		s.want = rnd.Blank(s.t.W, s.t.H)
		return s.bad()
	}}, op{"HideCursor", func(s *sys) string {
		err := s.r.HideCursor()
		s.shown = false
		return errText("HideCursor", err) + s.bad()
	}}, op{"ShowCursor", func(s *sys) string {
		err := s.r.ShowCursor()
		s.shown = true
		return errText("ShowCursor", err) + s.bad()
	}}, op{"no buffer", func(s *sys) string { return errText("Render(nil)", s.r.Render(nil)) + s.bad() }})
	for _, z := range sizes {
		out = append(out, op{fmt.Sprintf("Resize(%d,%d)", z[0], z[1]), func(s *sys) string {
			s.t.Resize(z[0], z[1])
			if err := s.r.Resize(z[0], z[1]); err != nil {
				return "Resize: " + err.Error()
			}
			s.want = rnd.Blank(z[0], z[1])
			return s.bad()
		}})
	}
	return
}

// node is a history; the renderer is rebuilt from it.
type node struct {
	init [4]int // cursor, buffer size and reuse of buffers
	hist []int16
	key  string
}

func space(c *vk.C, label string, w, h int, ops []op, depth int, dirty [][4]int) {
	sp := &vk.Space[node]{Label: label, Depth: depth, Key: func(n node) string { return n.key }}
	build := func(n node) *sys {
		s := start(w, h, n.init[2], n.init[0], n.init[1])
		s.reuse = n.init[3]
		for _, i := range n.hist {
			ops[i].do(s)
		}
		return s
	}
	key := func(n node, s *sys) string {
		return fmt.Sprint(n.init[2], n.init[3], vk.Dump([]any{s.r, s.buf}), s.t.Styled(), s.t.X, s.t.Y, s.t.Pending, s.t.Cur, s.t.Visible, s.shown)
	}
	for _, d := range dirty {
		n := node{init: d}
		n.key = key(n, build(n))
		sp.Init = append(sp.Init, vk.Named[node]{Name: fmt.Sprintf("cursor at %d,%d, output buffer %d, reuse %d", d[0], d[1], d[2], d[3]), N: n})
	}
	for i, o := range ops {
		sp.Ops = append(sp.Ops, vk.Op[node]{Name: o.name, Do: func(n node) (node, bool, string, string) {
			s := build(n)
			bad := o.do(s)
			if bad == "" {
				c.Nontrivial.Add(1)
			}
			nx := node{init: n.init, hist: append(n.hist[:len(n.hist):len(n.hist)], int16(i))}
			nx.key = key(nx, s)
			if bad == "" { // and the terminal is handed back as it was found
				cl := s
				if err := cl.r.Close(); err != nil {
					bad = "Close: " + err.Error()
				} else if cl.shown = true; true {
					if bad = cl.bad(); bad == "" && cl.t.Cur != (vk.Attr{}) {
						bad = fmt.Sprintf("Close leaves style %v behind", cl.t.Cur)
					}
				}
				if bad != "" {
					bad += " (after Close)"
				}
			}
			return nx, true, "frame", bad
		}})
	}
	sp.Run(c)
	c.Outcome(label)
}

func ch(s string, st rnd.Sty) rnd.Ch { return rnd.Ch{S: s, W: 1, St: st} }
func wide(s string, st rnd.Sty) rnd.Ch {
	return rnd.Ch{S: s, W: 2, St: st}
}

var (
	red   = rnd.Mk([]uint8{255, 0, 0}, nil, false, false, false, false)
	blue  = rnd.Mk(nil, []uint8{0, 0, 255}, false, false, false, false)
	loud  = rnd.Mk([]uint8{255, 0, 0}, []uint8{0, 0, 255}, true, false, true, false)
	bold  = rnd.Mk(nil, nil, true, false, false, false)
	turn  = rnd.Mk(nil, nil, false, false, false, true)
	ital  = rnd.Mk(nil, nil, false, true, false, false)
	plain = rnd.None
)

func histories(c *vk.C) {
	full := []rnd.Ch{ch(" ", plain), ch("a", plain), ch("a", red), ch(" ", blue), ch("b", bold), ch("e\u0301", plain), wide("世", plain), wide("世", loud), wide("界", plain)}
	small := []rnd.Ch{ch(" ", plain), ch("a", red), ch("b", turn), wide("世", plain)}
	tiny := []rnd.Ch{ch(" ", plain), ch("a", blue), wide("世", ital)}
	dirty := [][4]int{{0, 0, 0, 0}, {1, 0, 0, 1}, {1, 0, 1, 2}, {2, 0, 16, 0}}
	depth := 8

	ops := append(frameOps(rnd.Frames(3, 1, full)), screenOps(nil)...)
	space(c, "3x1 frames, 9 characters", 3, 1, ops, depth, dirty)

	ops = append(frameOps(rnd.Frames(5, 1, small)), screenOps(nil)...)
	space(c, "5x1 frames, 4 characters", 5, 1, ops, vk.Pick(c, 2, 8), [][4]int{{4, 0, 0, 1}})

	ops = append(frameOps(rnd.Frames(2, 2, small)), screenOps(nil)...)
	space(c, "2x2 frames, 4 characters", 2, 2, ops, depth, [][4]int{{0, 0, 0, 0}, {1, 1, 0, 1}, {0, 0, 0, 2}})

	ops = append(frameOps(rnd.Frames(3, 2, tiny)), screenOps(nil)...)
	space(c, "3x2 frames, 3 characters", 3, 2, ops, vk.Pick(c, 2, 8), [][4]int{{2, 1, 0, 2}})

	ops = nil
	for _, z := range [][2]int{{1, 1}, {2, 1}, {3, 1}, {1, 2}, {2, 2}} {
		ops = append(ops, frameOps(rnd.Frames(z[0], z[1], tiny))...)
	}
	ops = append(ops, screenOps([][2]int{{1, 1}, {2, 1}, {3, 1}, {2, 2}})...)
	space(c, "frames of five sizes and resizing", 2, 1, ops, 8, [][4]int{{1, 0, 0, 0}, {1, 0, 0, 1}, {1, 0, 0, 2}})

	if c.Thorough() {
		ops = append(frameOps(rnd.Frames(4, 2, tiny)), screenOps(nil)...)
		space(c, "4x2 frames, 3 characters", 4, 2, ops, 8, [][4]int{{3, 1, 0, 1}})
		ops = append(frameOps(rnd.Frames(3, 1, append(full, ch("c", loud), ch(" ", loud), wide("界", blue)))), screenOps(nil)...)
		space(c, "3x1 frames, 12 characters", 3, 1, ops, 8, [][4]int{{1, 0, 0, 1}})
	}
}

// styles renders every pair of styles next to each other and after each other.
func styles(c *vk.C) {
	all := rnd.All([][]uint8{nil, {255, 0, 0}, {1, 2, 3}})
	n := len(all)
	blank := rnd.Blank(3, 1)
	c.Parallel(n, func(i int) {
		for j := range n {
			f := &rnd.Frame{W: 3, H: 1, Rows: [][]rnd.Ch{{ch("a", all[i]), ch("b", all[j]), ch(" ", plain)}}}
			g := &rnd.Frame{W: 3, H: 1, Rows: [][]rnd.Ch{{ch("a", all[j]), ch("b", all[j]), ch("c", all[i])}}}
			s := start(3, 1, 0, 0, 0)
			for k, x := range []*rnd.Frame{f, g, f, blank} {
				c.States.Add(1)
				c.Transitions.Add(1)
				c.Evals.Add(1)
				bad := ""
				if p := vk.Guard(func() { bad = s.render(x) + s.again() }); p != "" {
					bad = p
				}
				if bad != "" {
					c.Fail("style", fmt.Sprintf("frame %d of %v, %v, %v, blank: %s", k+1, f, g, f, bad), []string{f.String(), g.String()})
					return
				}
			}
			c.Traces.Add(1)
		}
	})
	c.Part("all %d ordered pairs of styles beside and after each other", n*n)
	c.Outcome("styles")
}

// derived renders styles made from one another by every chain of calls.
func derived(c *vk.C, depth int) {
	type step struct {
		name string
		do   func(s render.Style) render.Style
		want func(a *vk.Attr)
	}
	var steps []step
	for i, k := range [][]uint8{{255, 0, 0}, {1, 2, 3}} {
		hex := fmt.Sprintf("#%02x%02x%02x", k[0], k[1], k[2])
		steps = append(steps,
			step{fmt.Sprintf("WithFg(%v)", k), func(s render.Style) render.Style { return s.WithFg(k[0], k[1], k[2]) }, func(a *vk.Attr) { a.FG = hex }},
			step{fmt.Sprintf("WithBg(%v)", k), func(s render.Style) render.Style { return s.WithBg(k[0], k[1], k[2]) }, func(a *vk.Attr) { a.BG = hex }})
		on := i == 0
		steps = append(steps,
			step{fmt.Sprintf("WithBold(%v)", on), func(s render.Style) render.Style { return s.WithBold(on) }, func(a *vk.Attr) { a.Bold = on }},
			step{fmt.Sprintf("WithItalic(%v)", on), func(s render.Style) render.Style { return s.WithItalic(on) }, func(a *vk.Attr) { a.Italic = on }},
			step{fmt.Sprintf("WithUnderline(%v)", on), func(s render.Style) render.Style { return s.WithUnderline(on) }, func(a *vk.Attr) { a.Underline = on }},
			step{fmt.Sprintf("WithReverse(%v)", on), func(s render.Style) render.Style { return s.WithReverse(on) }, func(a *vk.Attr) { a.Reverse = on }})
	}
	bases := []struct {
		name string
		s    render.Style
		a    vk.Attr
	}{
		{"StyleDefault()", render.StyleDefault(), vk.Attr{}},
		{"Bold", render.Bold, vk.Attr{Bold: true}}, {"Italic", render.Italic, vk.Attr{Italic: true}},
		{"Underline", render.Underline, vk.Attr{Underline: true}}, {"Reverse", render.Reverse, vk.Attr{Reverse: true}},
		{"FgRed", render.FgRed, vk.Attr{FG: "#ff0000"}}, {"FgGreen", render.FgGreen, vk.Attr{FG: "#00ff00"}}, {"FgBlue", render.FgBlue, vk.Attr{FG: "#0000ff"}},
		{"FgYellow", render.FgYellow, vk.Attr{FG: "#ffff00"}}, {"FgMagenta", render.FgMagenta, vk.Attr{FG: "#ff00ff"}}, {"FgCyan", render.FgCyan, vk.Attr{FG: "#00ffff"}}, {"FgWhite", render.FgWhite, vk.Attr{FG: "#ffffff"}},
		{"BgRed", render.BgRed, vk.Attr{BG: "#ff0000"}}, {"BgGreen", render.BgGreen, vk.Attr{BG: "#00ff00"}}, {"BgBlue", render.BgBlue, vk.Attr{BG: "#0000ff"}},
		{"BgYellow", render.BgYellow, vk.Attr{BG: "#ffff00"}}, {"BgMagenta", render.BgMagenta, vk.Attr{BG: "#ff00ff"}}, {"BgCyan", render.BgCyan, vk.Attr{BG: "#00ffff"}}, {"BgWhite", render.BgWhite, vk.Attr{BG: "#ffffff"}},
		{"StyleColors", render.StyleColors(9, 8, 7, 6, 5, 4), vk.Attr{FG: "#090807", BG: "#060504"}},
	}
	check := func(calls string, chain []rnd.Sty) bool {
		n := len(chain)
		f := &rnd.Frame{W: n, H: 1, Rows: make([][]rnd.Ch, 1)}
		for _, st := range chain {
			f.Rows[0] = append(f.Rows[0], ch("x", st))
		}
		c.States.Add(1)
		c.Transitions.Add(1)
		c.Evals.Add(1)
		if bad := start(n, 1, 0, 0, 0).render(f); bad != "" {
			c.Fail("derived", fmt.Sprintf("%s, one cell per step: %s", calls, bad), calls)
			return false
		}
		return true
	}
	var walk func(calls string, chain []rnd.Sty, left int)
	walk = func(calls string, chain []rnd.Sty, left int) {
		if !check(calls, chain) || left == 0 {
			return
		}
		for _, st := range steps {
			last := chain[len(chain)-1]
			next := rnd.Sty{S: st.do(last.S), A: last.A}
			st.want(&next.A)
			walk(calls+"."+st.name, append(chain[:len(chain):len(chain)], next), left-1)
		}
	}
	c.Parallel(len(bases), func(i int) {
		b := bases[i]
		k := depth
		if i > 1 {
			k = 2
		}
		walk(b.name, []rnd.Sty{{S: b.s, A: b.a}}, k)
	})
	c.Part("all chains of up to %d calls that derive a style", depth)
	c.Outcome("derived")
}

// chars renders every character of a list in every column, next to others.
func chars(c *vk.C) {
	list := []struct {
		s string
		w int
	}{{"~", 1}, {"é", 1}, {"e\u0301", 1}, {"e\u0300", 1}, {"e\u0301\u0323", 1}, {"👋\U0001f3fb", 2}, {"👋\U0001f3ff", 2}, {"ж", 1}, {"─", 1}, {"█", 1}, {"•", 1}, {"…", 1}, {"€", 1},
		{"世", 2}, {"ア", 2}, {"한", 2}, {"Ａ", 2}, {"😀", 2}, {"🚀", 2}, {"が", 2}, {"א", 1}, {"ﾊ", 1}}
	n := 0
	for _, before := range list {
		for _, k := range list {
			for w := 1; w <= 4; w++ {
				for x := 0; x+k.w <= w; x++ {
					row := []rnd.Ch{}
					for range x {
						row = append(row, ch("<", red))
					}
					row = append(row, rnd.Ch{S: k.s, W: k.w, St: bold})
					for range w - x - k.w {
						row = append(row, ch(">", plain))
					}
					f := &rnd.Frame{W: w, H: 1, Rows: [][]rnd.Ch{row}}
					same := &rnd.Frame{W: w, H: 1, Rows: [][]rnd.Ch{append([]rnd.Ch(nil), row...)}}
					same.Rows[0][x].St = plain
					old := []rnd.Ch{}
					for i := 0; i < w; {
						if i+before.w <= w {
							old = append(old, rnd.Ch{S: before.s, W: before.w, St: plain})
							i += before.w
						} else {
							old = append(old, ch("x", plain))
							i++
						}
					}
					g := &rnd.Frame{W: w, H: 1, Rows: [][]rnd.Ch{old}}
					s := start(w, 1, 0, w-1, 0)
					for _, fr := range []*rnd.Frame{g, same, g, f, g} {
						c.States.Add(1)
						c.Transitions.Add(1)
						c.Evals.Add(1)
						bad := ""
						if p := vk.Guard(func() { bad = s.render(fr) + s.again() }); p != "" {
							bad = p
						}
						if bad != "" {
							c.Fail("character", fmt.Sprintf("%v, %v, %v, %v: %s", g, same, g, f, bad), []string{g.String(), f.String()})
							break
						}
					}
					n++
				}
			}
		}
	}
	c.Traces.Add(int64(n))
	c.Part("%d histories with every character of a list of %d in every column", n, len(list))
	c.Outcome("characters")
}

// big walks a cell over a full-size screen, and redraws all of it.
func big(c *vk.C, w, h, buffer int) {
	bg := func(n int) *rnd.Frame {
		f := rnd.Blank(w, h)
		for y := range f.Rows {
			for x := range f.Rows[y] {
				if (x+y)%n == 0 {
					f.Rows[y][x] = ch(string(rune('A'+(x+2*y)%26)), []rnd.Sty{plain, red, blue, bold}[(x+y)/n%4])
				}
			}
		}
		return f
	}
	for _, base := range []*rnd.Frame{rnd.Blank(w, h), bg(1), bg(3)} {
		s := start(w, h, buffer, w-1, h-1)
		if bad := s.render(base); bad != "" {
			c.Fail("size", fmt.Sprintf("%dx%d: %s", w, h, bad), nil)
			return
		}
		// the terminal is compared completely now and then, and the changed
		// cells every time
		for p := range w * h {
			x, y := p%w, p/w
			f := &rnd.Frame{W: w, H: h, Rows: append([][]rnd.Ch(nil), base.Rows...)}
			f.Rows[y] = append([]rnd.Ch(nil), base.Rows[y]...)
			f.Rows[y][x] = ch("#", loud)
			c.States.Add(1)
			c.Transitions.Add(1)
			c.Evals.Add(1)
			if bad := s.render(f); bad != "" {
				c.Fail("size", fmt.Sprintf("%dx%d, one cell at %d,%d: %s", w, h, x, y, bad), []int{x, y})
				return
			}
			c.Beat()
		}
		if bad := s.render(base) + s.again(); bad != "" {
			c.Fail("size", fmt.Sprintf("%dx%d: %s", w, h, bad), nil)
			return
		}
	}
	c.Part("%dx%d screen: one cell walking over every position, on three backgrounds", w, h)
	c.Outcome("screen size")
}

// mixed is a frame full of runs of characters of both widths in runs of styles;
// k varies it, and density says how much of it is not blank.
func mixed(w, h, k, density int) *rnd.Frame {
	f := &rnd.Frame{W: w, H: h}
	pieces := []rnd.Ch{ch("a", plain), wide("世", plain), ch("Z", plain), ch("e\u0301", plain), ch("~", plain), wide("漢", plain), ch(" ", plain)}
	stys := []rnd.Sty{plain, red, blue, bold, loud, plain}
	for y := 0; y < h; y++ {
		var row []rnd.Ch
		for x := 0; x < w; {
			c := ch(" ", plain)
			if (x*3+y*5+k)%10 < density {
				c = pieces[(x/3+y*2+k)%len(pieces)]
				c.St = stys[(x/(5+k%4)+y+k)%len(stys)]
			}
			if x+c.W > w {
				c = ch("|", c.St)
			}
			row = append(row, c)
			x += c.W
		}
		f.Rows = append(f.Rows, row)
	}
	return f
}

// large: histories of frames on screens of every size, changing from one to
// another, and two changes at every distance.
func large(c *vk.C) {
	ws := []int{1, 2, 9, 10, 11, 40, 79, 80, 81, 99, 100, 101, 127, 128, 132, 200, 255, 256, 257}
	hs := []int{1, 2, 9, 10, 24, 25, 50, 64, 100, 101}
	step := func(s *sys, name string, bad func() string) bool {
		c.States.Add(1)
		c.Transitions.Add(1)
		c.Evals.Add(1)
		b := ""
		if p := vk.Guard(func() { b = bad() }); p != "" {
			b = p
		}
		if b != "" {
			c.Fail("size", fmt.Sprintf("%dx%d: %s: %s", s.t.W, s.t.H, name, b), name)
		}
		c.Beat()
		return b == ""
	}
	n := len(ws) * len(hs)
	c.Parallel(n, func(i int) {
		w, h := ws[i%len(ws)], hs[i/len(ws)]
		s := start(w, h, []int{0, 1, 1000, 4096}[i%4], w-1, 0)
		fs := []*rnd.Frame{mixed(w, h, 0, 10), mixed(w, h, 1, 3), mixed(w, h, 3, 10), rnd.Blank(w, h), mixed(w, h, 4, 1), mixed(w, h, 5, 7)}
		for k, f := range fs {
			if !step(s, fmt.Sprintf("frame %d of a history", k), func() string { return s.render(f) + s.again() }) {
				return
			}
		}
		if !step(s, "Clear", func() string { err := s.r.Clear(); s.want = rnd.Blank(w, h); return errText("Clear", err) + s.bad() }) ||
			!step(s, "a frame after Clear", func() string { return s.render(fs[2]) + s.again() }) {
			return
		}
		w2, h2 := ws[(i*7+3)%len(ws)], hs[(i*3+1)%len(hs)]
		for k, z := range [][2]int{{w2, h2}, {w2, h}, {w, h}} {
			if !step(s, fmt.Sprintf("a frame of %dx%d", z[0], z[1]), func() string { return s.render(mixed(z[0], z[1], k, 8)) + s.again() }) {
				return
			}
		}
		step(s, "Close", func() string { return errText("Close", s.r.Close()) })
	})
	c.Part("large screens: %d sizes up to %dx%d, eleven frames each, with changes of size", n, ws[len(ws)-1], hs[len(hs)-1])
	type pair struct{ w, h, d int }
	var ps []pair
	for _, z := range [][2]int{{257, 2}, {2, 257}, {100, 12}} {
		for d := 1; d < z[0]*z[1]; d++ {
			ps = append(ps, pair{z[0], z[1], d})
		}
	}
	c.Parallel(len(ps), func(i int) {
		p := ps[i]
		for v := 0; v < 4; v++ {
			s := start(p.w, p.h, 0, 0, 0)
			base := mixed(p.w, p.h, 2, v*4)
			for y := range base.Rows { // no wide ones, so that any cell can be replaced
				for x := 0; x < len(base.Rows[y]); x++ {
					if base.Rows[y][x].W == 2 {
						st := base.Rows[y][x].St
						base.Rows[y] = append(append(append([]rnd.Ch(nil), base.Rows[y][:x]...), ch("w", st), ch("v", st)), base.Rows[y][x+1:]...)
					}
				}
			}
			f := &rnd.Frame{W: p.w, H: p.h}
			for y := range base.Rows {
				f.Rows = append(f.Rows, append([]rnd.Ch(nil), base.Rows[y]...))
			}
			a := (v * 31) % (p.w*p.h - p.d)
			for k, q := range []int{a, a + p.d} {
				f.Rows[q/p.w][q%p.w] = ch("#", []rnd.Sty{plain, red, loud}[(k+v)%3])
			}
			for _, fr := range []*rnd.Frame{base, f, base} {
				if !step(s, fmt.Sprintf("two changes at a distance of %d, variant %d", p.d, v), func() string { return s.render(fr) }) {
					return
				}
			}
		}
	})
	c.Part("two changes at every distance on screens of 257x2, 2x257 and 100x12")
	c.Outcome("large screens")
}

// dirt clears or resizes a screen that shows something else.
func dirt(c *vk.C) {
	for y := range 3 {
		for x := range 4 {
			for mode := range 3 {
				s := start(4, 3, 0, x, y)
				for i := range s.t.Cells {
					for j := range s.t.Cells[i] {
						s.t.Cells[i][j] = vk.Cell{S: "?", W: 1, A: vk.Attr{BG: "1"}}
					}
				}
				var err error
				switch mode {
				case 0:
					err = s.r.Clear()
				case 1:
					err = s.r.Resize(4, 3)
				case 2:
					s.t.Resize(4, 2)
					s.want = rnd.Blank(4, 2)
					err = s.r.Resize(4, 2)
				}
				bad := errText("clearing", err) + s.bad()
				f := &rnd.Frame{W: 4, H: s.want.H, Rows: append([][]rnd.Ch{{ch("a", plain), ch("b", red), wide("世", plain)}}, rnd.Blank(4, 2).Rows[:s.want.H-1]...)}
				if bad == "" {
					bad = s.render(f)
				}
				c.States.Add(2)
				c.Transitions.Add(2)
				c.Evals.Add(2)
				if bad != "" {
					c.Fail("clear", fmt.Sprintf("screen with other contents and the cursor at %d,%d, mode %d: %s", x, y, mode, bad), nil)
					return
				}
			}
		}
	}
	var b bytes.Buffer
	r := render.NewDefault(&b)
	if r.Width() != 80 || r.Height() != 24 {
		c.Fail("default", fmt.Sprintf("the default size is %dx%d", r.Width(), r.Height()), nil)
	}
	c.Outcome("dirty screen")
}

func main() {
	vk.Main("C10", "model_checking", 0, func(c *vk.C) {
		dirt(c)
		styles(c)
		derived(c, vk.Pick(c, 4, 5))
		chars(c)
		big(c, 80, 24, 0)
		big(c, 13, 7, 1)
		if c.Thorough() {
			big(c, 132, 43, 0)
		}
		large(c)
		histories(c)
		c.Rule("all histories of frames over small alphabets of characters and styles, with clearing, resizing and cursor operations between them, explored breadth first over the joint state of renderer and terminal; after every step every cell of the terminal is compared, the same frame is rendered again and the renderer closed")
		c.Assume("the terminal starts with a blank screen and the default style; widths of characters are those of the emulator, on a list where Unicode leaves no choice")
	})
}
