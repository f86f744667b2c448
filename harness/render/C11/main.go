// C11: all histories of operations on small buffers next to a plain grid of
// cells, observed by rendering; copies, resized copies and pooled buffers.
package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/phoenix-tui/phoenix/render"
	"github.com/phoenix-tui/phoenix/render/internal/application"
	"github.com/phoenix-tui/phoenix/render/internal/domain/model"
	"github.com/phoenix-tui/phoenix/render/internal/domain/value"
	"github.com/phoenix-tui/phoenix/render/zzverif/rnd"
	"github.com/phoenix-tui/phoenix/render/zzverif/vk"
)

// sty is a style for both ways of drawing.
type sty struct {
	pub rnd.Sty
	in  value.Style
}

var (
	none = sty{rnd.None, value.NewStyle()}
	red  = sty{rnd.Mk([]uint8{255, 0, 0}, nil, true, false, false, false), value.NewStyleWithFg(value.NewColor(255, 0, 0)).WithBold(true)}
	blue = sty{rnd.Mk(nil, []uint8{0, 0, 255}, false, false, false, false), value.NewStyleWithBg(value.NewColor(0, 0, 255))}
)

// grid is the reference: what a terminal shows.
type grid [][]vk.Cell

func newGrid(w, h int) grid {
	g := make(grid, max(h, 0))
	for y := range g {
		g[y] = make([]vk.Cell, max(w, 0))
		for x := range g[y] {
			g[y][x] = vk.Cell{S: " ", W: 1}
		}
	}
	return g
}

func (g grid) put(x, y int, s string, w int, a vk.Attr) {
	if y < 0 || y >= len(g) || x < 0 || x >= len(g[y]) {
		return
	}
	r := g[y]
	if w < 1 || x+w > len(r) {
		s, w = " ", 1
	}
	// a wide character that loses a cell leaves blanks
	for _, p := range []int{x, x + w} {
		if p < len(r) && r[p].W == 0 {
			r[p-1] = vk.Cell{S: " ", W: 1, A: r[p-1].A}
			r[p] = vk.Cell{S: " ", W: 1, A: r[p].A}
		}
	}
	r[x] = vk.Cell{S: s, W: w, A: a}
	for i := 1; i < w; i++ {
		r[x+i] = vk.Cell{A: a}
	}
}

// chr is a piece of text that belongs together.
type chr struct {
	s string
	w int
}

func (g grid) str(x, y int, text []chr, a vk.Attr) int {
	n := 0
	if y < 0 || y >= len(g) || x < 0 {
		return 0
	}
	for _, c := range text {
		if c.w < 1 {
			continue
		}
		if x+c.w > len(g[y]) {
			break
		}
		g.put(x, y, c.s, c.w, a)
		x += c.w
		n += c.w
	}
	return n
}

func (g grid) resized(w, h int) grid {
	n := newGrid(w, h)
	for y := range n {
		for x := range n[y] {
			if y < len(g) && x < len(g[y]) && g[y][x].W > 0 {
				n.put(x, y, g[y][x].S, g[y][x].W, g[y][x].A)
			}
		}
	}
	return n
}

// both is a buffer seen through the public and the internal interface.
type both struct {
	w, h int
	pub  *render.Buffer
	in   *model.Buffer
	ref  grid
}

func newBoth(w, h int) *both {
	return &both{max(w, 0), max(h, 0), render.NewBuffer(w, h), model.NewBuffer(w, h), newGrid(w, h)}
}

type op struct {
	name string
	do   func(b *both) string
}

func text(t []chr) string {
	s := ""
	for _, c := range t {
		s += c.s
	}
	return s
}

func ops(w, h int, chars []struct {
	chr
	st sty
}, texts [][]chr, styles []sty) (out []op) {
	for y := -1; y <= h; y++ {
		for x := -1; x <= w; x++ {
			for _, c := range chars {
				out = append(out, op{fmt.Sprintf("Set(%d,%d,%q,%v)", x, y, c.s, c.st.pub.A), func(b *both) string {
					r := []rune(c.s)[0]
					b.pub.Set(x, y, r, c.st.pub.S)
					b.in.Set(value.NewPosition(x, y), model.NewCell(r, c.st.in))
					b.ref.put(x, y, c.s, c.w, c.st.pub.A)
					return ""
				}})
			}
			for i, t := range texts {
				st := styles[i%len(styles)]
				out = append(out, op{fmt.Sprintf("SetString(%d,%d,%q,%v)", x, y, text(t), st.pub.A), func(b *both) string {
					want := b.ref.str(x, y, t, st.pub.A)
					if got := b.pub.SetString(x, y, text(t), st.pub.S); got != want {
						return fmt.Sprintf("SetString returned %d instead of %d", got, want)
					}
					if got := b.in.SetString(value.NewPosition(x, y), text(t), st.in); got != want {
						return fmt.Sprintf("SetString returned %d instead of %d", got, want)
					}
					return ""
				}})
			}
		}
		for i, t := range texts {
			st := styles[(i+1)%len(styles)]
			out = append(out, op{fmt.Sprintf("SetLine(%d,%q,%v)", y, text(t), st.pub.A), func(b *both) string {
				b.pub.SetLine(y, text(t), st.pub.S)
				b.in.SetLine(y, text(t), st.in)
				if y >= 0 && y < h {
					for x := b.ref.str(0, y, t, st.pub.A); x < w; x++ {
						b.ref.put(x, y, " ", 1, vk.Attr{})
					}
				}
				return ""
			}})
		}
	}
	for _, c := range chars {
		out = append(out, op{fmt.Sprintf("Fill(%q,%v)", c.s, c.st.pub.A), func(b *both) string {
			r := []rune(c.s)[0]
			b.pub.Fill(r, c.st.pub.S)
			b.in.Fill(r, c.st.in)
			for y := range h {
				for x := 0; x < w; x += max(1, c.w) {
					b.ref.put(x, y, c.s, c.w, c.st.pub.A)
				}
			}
			return ""
		}})
	}
	out = append(out, op{"Clear", func(b *both) string {
		b.pub.Clear()
		b.in.Clear()
		copy(b.ref, newGrid(w, h))
		return ""
	}})
	return
}

type look struct {
	t *vk.Term
	r *render.Renderer
}

func newLook(w, h int) *look {
	t := vk.NewTerm(w, h)
	return &look{t, render.New(w, h, rnd.Sink{F: t.Write})}
}

func (l *look) differs(b *render.Buffer, g grid) string {
	if err := l.r.Render(b); err != nil {
		return err.Error()
	}
	return rnd.Differs(l.t, g)
}

// inner renders an internal buffer.
func inner(b *model.Buffer, g grid) string {
	t := vk.NewTerm(b.Width(), b.Height())
	if err := application.NewRenderer(b.Width(), b.Height(), rnd.Sink{F: t.Write}).Render(b); err != nil {
		return err.Error()
	}
	return rnd.Differs(t, g)
}

// copies checks what copies of the buffer contain and that they are copies.
func copies(b *both, maxW, maxH int) string {
	was := vk.Dump(b.in)
	cl := b.in.Clone()
	if cl.Width() != b.w || cl.Height() != b.h {
		return "Clone: other size"
	}
	if bad := inner(cl, b.ref); bad != "" {
		return "Clone: " + bad
	}
	cl.Fill('x', red.in)
	if vk.Dump(b.in) != was {
		return "drawing in a clone changes the original"
	}
	for h := 0; h <= maxH; h++ {
		for w := 0; w <= maxW; w++ {
			n := b.in.Resize(w, h)
			if n.Width() != w || n.Height() != h {
				return fmt.Sprintf("Resize(%d,%d) gives %dx%d", w, h, n.Width(), n.Height())
			}
			if w > 0 && h > 0 {
				if bad := inner(n, b.ref.resized(w, h)); bad != "" {
					return fmt.Sprintf("Resize(%d,%d): %s", w, h, bad)
				}
			}
			n.Fill('x', red.in)
			if vk.Dump(b.in) != was {
				return "drawing in a resized copy changes the original"
			}
		}
	}
	empty := true
	for y := -1; y <= b.h; y++ {
		line := b.in.GetLine(y)
		if (line != nil) != (y >= 0 && y < b.h) && b.w > 0 {
			return fmt.Sprintf("GetLine(%d) gives %d cells", y, len(line))
		}
		for x := -1; x <= b.w; x++ {
			c := b.in.Get(value.NewPosition(x, y))
			want := vk.Cell{S: " ", W: 1}
			if x >= 0 && x < b.w && y >= 0 && y < b.h {
				want = b.ref[y][x]
				if line[x] != c {
					return fmt.Sprintf("GetLine(%d)[%d] is not Get", y, x)
				}
			}
			if want != (vk.Cell{S: " ", W: 1}) {
				empty = false
			}
			if want.W > 0 && (c.String() != want.S || c.Width() != want.W) {
				return fmt.Sprintf("Get(%d,%d) is %q of width %d instead of %q", x, y, c.String(), c.Width(), want.S)
			}
		}
		for i := range line {
			line[i] = model.NewCell('x', red.in)
		}
	}
	if b.in.IsEmpty() != empty {
		return fmt.Sprintf("IsEmpty: %v", b.in.IsEmpty())
	}
	var rows []string
	for _, r := range b.ref {
		s := ""
		for _, c := range r {
			s += c.S
		}
		rows = append(rows, s)
	}
	if got, want := b.in.String(), strings.Join(rows, "\n"); got != want {
		return fmt.Sprintf("String: %q instead of %q", got, want)
	}
	if vk.Dump(b.in) != was {
		return "writing in a line got from the buffer changes it"
	}
	return ""
}

type node struct {
	hist []int16
	key  string
}

func histories(c *vk.C, w, h int, ops []op, depth int) {
	build := func(n node) *both {
		b := newBoth(w, h)
		for _, i := range n.hist {
			ops[i].do(b)
		}
		return b
	}
	sp := &vk.Space[node]{Label: fmt.Sprintf("%dx%d buffer", w, h), Depth: depth, Key: func(n node) string { return n.key },
		Init: []vk.Named[node]{{Name: "", N: node{key: vk.Dump(newBoth(w, h).in)}}}}
	for i, o := range ops {
		sp.Ops = append(sp.Ops, vk.Op[node]{Name: o.name, Do: func(n node) (node, bool, string, string) {
			b := build(n)
			l := newLook(w, h)
			before := ""
			if w > 0 && h > 0 {
				before = l.differs(b.pub, b.ref)
			}
			bad := before
			if bad == "" {
				bad = o.do(b)
			}
			if bad == "" && (b.pub.Width() != w || b.pub.Height() != h) {
				bad = "the size changed"
			}
			if bad == "" && w > 0 && h > 0 {
				// the frame on screen is diffed against the one drawn before
				// it was changed
				if bad = l.differs(b.pub, b.ref); bad == "" {
					bad = inner(b.in, b.ref)
				}
			}
			nx := node{hist: append(n.hist[:len(n.hist):len(n.hist)], int16(i)), key: vk.Dump(b.in) + fmt.Sprint(b.ref)}
			c.Nontrivial.Add(1)
			return nx, true, "buffer", bad
		}})
	}
	sp.Check = func(n node) (string, string) { return "copy", copies(build(n), w+1, h+1) }
	sp.Run(c)
	c.Outcome(sp.Label)
}

// pool explores buffers taken from and given back to a renderer.
func pool(c *vk.C, depth int) {
	type held struct {
		b   *render.Buffer
		ref grid
	}
	type st struct {
		l    *look
		held []*held
	}
	type pop struct {
		name string
		do   func(s *st) (bool, string)
	}
	var ops []pop
	ops = append(ops, pop{"Buffer", func(s *st) (bool, string) {
		if len(s.held) == 3 {
			return false, ""
		}
		b := s.l.r.Buffer()
		if b.Width() != s.l.t.W || b.Height() != s.l.t.H {
			return true, fmt.Sprintf("the renderer is %dx%d, its buffer %dx%d", s.l.t.W, s.l.t.H, b.Width(), b.Height())
		}
		s.held = append(s.held, &held{b, newGrid(b.Width(), b.Height())})
		return true, ""
	}})
	for i := range 2 {
		ops = append(ops, pop{fmt.Sprintf("draw in buffer %d", i), func(s *st) (bool, string) {
			if i >= len(s.held) {
				return false, ""
			}
			h := s.held[i]
			ch := rune('a' + i)
			for y := range h.b.Height() {
				for x := range h.b.Width() {
					// the first draws in two corners, the second everywhere
					if i == 1 || x == 0 && y == 0 || x == h.b.Width()-1 && y == h.b.Height()-1 {
						h.b.Set(x, y, ch, red.pub.S)
						h.ref.put(x, y, string(ch), 1, red.pub.A)
					}
				}
			}
			return true, ""
		}}, pop{fmt.Sprintf("Release of buffer %d", i), func(s *st) (bool, string) {
			if i >= len(s.held) {
				return false, ""
			}
			s.held[i].b.Release()
			s.held[i].b.Release() // once more: it is not ours any more
			s.held = append(append([]*held(nil), s.held[:i]...), s.held[i+1:]...)
			return true, ""
		}}, pop{fmt.Sprintf("Render of buffer %d", i), func(s *st) (bool, string) {
			if i >= len(s.held) {
				return false, ""
			}
			h := s.held[i]
			if h.b.Width() != s.l.t.W || h.b.Height() != s.l.t.H {
				s.l.t.Resize(h.b.Width(), h.b.Height())
			}
			return true, s.l.differs(h.b, h.ref)
		}})
	}
	for _, z := range [][2]int{{2, 2}, {3, 1}, {2, 3}} {
		ops = append(ops, pop{fmt.Sprintf("Resize(%d,%d)", z[0], z[1]), func(s *st) (bool, string) {
			s.l.t.Resize(z[0], z[1])
			if err := s.l.r.Resize(z[0], z[1]); err != nil {
				return true, err.Error()
			}
			return true, ""
		}})
	}
	n := len(ops)
	total := n * n * n
	done := c.Parallel(total, func(first int) {
		var rec func(prefix []int)
		rec = func(prefix []int) {
			s := &st{l: newLook(3, 2)}
			var names []string
			for k, i := range prefix {
				ok, bad := false, ""
				if p := vk.Guard(func() { ok, bad = ops[i].do(s) }); p != "" {
					ok, bad = true, p
				}
				if !ok {
					return
				}
				names = append(names, ops[i].name)
				if bad == "" {
					for j, h := range s.held { // every buffer still holds what was drawn in it
						l := newLook(h.b.Width(), h.b.Height())
						if d := l.differs(h.b, h.ref); d != "" && k == len(prefix)-1 {
							bad = fmt.Sprintf("buffer %d: %s", j, d)
						}
					}
				}
				if bad != "" {
					c.Fail("pool", bad+" after "+strings.Join(names, " ; "), names)
					return
				}
			}
			c.States.Add(1)
			c.Transitions.Add(1)
			c.Evals.Add(1)
			if len(prefix) == depth {
				c.Traces.Add(1)
				return
			}
			for i := range n {
				rec(append(prefix[:len(prefix):len(prefix)], i))
			}
		}
		rec([]int{first / n / n, first / n % n, first % n})
	})
	c.Part("all histories of %d operations on pooled buffers", depth)
	if done < total {
		c.Partial("pooled buffers")
	}
	c.Outcome("pool")
}

// large applies every operation at every position of large buffers.
func large(c *vk.C, sizes [][2]int) {
	type cs = struct {
		chr
		st sty
	}
	alt := []chr{{"a", 1}, {"世", 2}, {"b", 1}, {"界", 2}, {"e\u0301", 1}}
	for _, z := range sizes {
		w, h := z[0], z[1]
		var long []chr
		for i := 0; len(long) < w+3; i++ {
			long = append(long, alt[i*i%len(alt)])
		}
		list := ops(w, h, []cs{{chr{"a", 1}, red}, {chr{"世", 2}, blue}}, [][]chr{long, {{"x", 1}, {"世", 2}, {"y", 1}}}, []sty{red, none, blue})
		fills := []func(b *both){func(b *both) {}}
		for k := range 2 {
			fills = append(fills, func(b *both) {
				for y := range h {
					t := long[(y+k)%3:]
					b.pub.SetString(k, y, text(t), red.pub.S)
					b.in.SetString(value.NewPosition(k, y), text(t), red.in)
					b.ref.str(k, y, t, red.pub.A)
				}
			})
		}
		done := c.Parallel(len(list), func(i int) {
			for k, fill := range fills {
				b := newBoth(w, h)
				fill(b)
				l := newLook(w, h)
				bad := l.differs(b.pub, b.ref)
				if bad == "" {
					bad = list[i].do(b)
				}
				if bad == "" {
					if bad = l.differs(b.pub, b.ref); bad == "" {
						bad = inner(b.in, b.ref)
					}
				}
				if bad == "" && i%97 == 0 && k > 0 {
					for _, q := range [][2]int{{w + 1, h}, {w, h + 1}, {w - 1, h}, {w, h - 1}, {w / 2, h / 2}, {w * 2, h * 2}, {w + 7, 1}, {1, h + 9}} {
						if q[0] < 1 || q[1] < 1 {
							continue
						}
						if d := inner(b.in.Resize(q[0], q[1]), b.ref.resized(q[0], q[1])); d != "" && bad == "" {
							bad = fmt.Sprintf("Resize(%d,%d): %s", q[0], q[1], d)
						}
					}
				}
				c.States.Add(1)
				c.Transitions.Add(1)
				c.Evals.Add(1)
				if bad != "" {
					c.Fail("large", fmt.Sprintf("%dx%d buffer, contents %d, %s: %s", w, h, k, list[i].name, bad), nil)
					return
				}
			}
		})
		if done < len(list) {
			c.Partial("%dx%d buffer", w, h)
		}
	}
	c.Part("every operation at every position of buffers of the sizes %v with three contents", sizes)
	c.Outcome("large")
}

// long draws very long texts.
func long(c *vk.C) {
	pieces := []chr{{"a", 1}, {"世", 2}, {"e\u0301", 1}, {"b", 1}}
	lens := []int{255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 20000, 65535, 65536, 65537, 100000}
	c.Parallel(len(lens)*3, func(i int) {
		var t []chr
		n := lens[i/3]
		for size := 0; size < n; {
			k := chr{"x", 1} // texts of exactly n bytes, and mixed ones
			if i%3 > 0 {
				k = pieces[len(t)*len(t)%len(pieces)]
			}
			t = append(t, k)
			size += len(k.s)
		}
		for _, w := range []int{n / 3, n + 5} {
			b := newBoth(w, 2)
			bad := ""
			if got, want := b.in.SetString(value.NewPosition(i%2, 1), text(t), red.in), b.ref.str(i%2, 1, t, red.pub.A); got != want {
				bad = fmt.Sprintf("SetString returns %d instead of %d", got, want)
			}
			if bad == "" {
				bad = inner(b.in, b.ref)
			}
			c.States.Add(1)
			c.Transitions.Add(1)
			c.Evals.Add(1)
			if bad != "" {
				c.Fail("long", fmt.Sprintf("text of %d bytes in %d columns: %.200s", len(text(t)), w, bad), nil)
			}
		}
	})
	c.Part("texts of up to %d bytes in buffers of up to as many columns", lens[len(lens)-1])
	c.Outcome("long")
}

// characters draws every character of undisputed width.
func characters(c *vk.C) {
	// pictographs with text presentation and very long dashes are disputed too
	skip := [][2]rune{{0x302a, 0x302d}, {0x3099, 0x309a}, {0x3248, 0x324f}, {0x1171e, 0x1171e}, {0x16fe4, 0x16fe4}, {0xd7b0, 0xd7ff}, {0x303f, 0x303f}, {0x4dc0, 0x4dff}, {0x1f000, 0x1fbff}, {0xfe00, 0xfe6f}}
	var runes []rune
	for r := rune(0x20); r < 0x31000; r++ {
		if r == 0x7f || vk.InRanges(vk.NotGraphic, r) || vk.InRanges(vk.EAWAmbiguous, r) || vk.RuneWidth(r) == 0 || (r >= 0x1f3fb && r <= 0x1f3ff) {
			continue
		}
		out := strings.ContainsRune("\u3030\u303d\u3297\u3299\u2e3a\u2e3b\uff9e\uff9f", r) || r >= 0x1f000 && r < 0x1f300
		for _, s := range skip {
			out = out || (r >= s[0] && r <= s[1] && vk.RuneWidth(r) != 2)
		}
		if !out && !unicode.Is(unicode.M, r) {
			runes = append(runes, r)
		}
	}
	const blk = 500
	n := (len(runes) + blk - 1) / blk
	done := c.Parallel(n, func(ci int) {
		for _, r := range runes[ci*blk : min(len(runes), (ci+1)*blk)] {
			k := chr{string(r), vk.RuneWidth(r)}
			b := newBoth(5, 2)
			b.pub.Fill('z', red.pub.S)
			b.in.Fill('z', red.in)
			for y := range 2 {
				for x := range 5 {
					b.ref.put(x, y, "z", 1, red.pub.A)
				}
			}
			b.pub.Set(1, 0, r, blue.pub.S)
			b.in.Set(value.NewPosition(1, 0), model.NewCell(r, blue.in))
			b.ref.put(1, 0, k.s, k.w, blue.pub.A)
			t := []chr{{"a", 1}, k, {"b", 1}}
			want := b.ref.str(1, 1, t, none.pub.A)
			bad := ""
			if got := b.pub.SetString(1, 1, text(t), none.pub.S); got != want {
				bad = fmt.Sprintf("SetString returned %d instead of %d", got, want)
			}
			b.in.SetString(value.NewPosition(1, 1), text(t), none.in)
			if bad == "" {
				if bad = newLook(5, 2).differs(b.pub, b.ref); bad == "" {
					bad = inner(b.in, b.ref)
				}
			}
			if bad != "" {
				c.Fail("character", fmt.Sprintf("U+%04X: %s", r, bad), r)
			}
		}
		c.States.Add(blk)
		c.Evals.Add(blk)
	})
	c.Part("all %d graphic characters of undisputed width, set and written", len(runes))
	if done < n {
		c.Partial("characters")
	}
	c.Outcome("characters")
}

func main() {
	vk.Main("C11", "model_checking", 0, func(c *vk.C) {
		type cs = struct {
			chr
			st sty
		}
		a, b, acc, ctl := chr{"a", 1}, chr{"b", 1}, chr{"e\u0301", 1}, chr{"\x1b", 0}
		sp, se, nl := chr{" ", 1}, chr{"世", 2}, chr{"\n", 0}
		chars := []cs{{a, red}, {se, blue}}
		texts := [][]chr{{a, se}, {se, b}}
		histories(c, 3, 1, ops(3, 1, append(chars, cs{ctl, none}, cs{sp, none}), append(texts, []chr{acc, nl, b}, nil, []chr{se, se, a}, []chr{ctl, b, nl, nl, b, b, b, b}), []sty{red, none, blue}), 12)
		histories(c, 2, 2, ops(2, 2, chars, append(texts, []chr{acc, b}), []sty{red, none}), 12)
		if c.Thorough() {
			histories(c, 4, 1, ops(4, 1, append(chars, cs{ctl, none}, cs{b, none}), append(texts, []chr{acc, se, b}), []sty{red, none}), 12)
			histories(c, 3, 2, ops(3, 2, chars, texts, []sty{red}), 12)
		}
		for _, z := range [][2]int{{0, 0}, {0, 2}, {2, 0}, {1, 1}, {-1, 2}, {1, -3}} {
			bw := newBoth(z[0], z[1])
			if bw.pub.Width() != bw.w || bw.pub.Height() != bw.h {
				c.Fail("size", fmt.Sprintf("NewBuffer(%d,%d) is %dx%d", z[0], z[1], bw.pub.Width(), bw.pub.Height()), nil)
				continue
			}
			histories(c, bw.w, bw.h, ops(bw.w, bw.h, chars, texts, []sty{red, none}), 3)
		}
		characters(c)
		large(c, vk.Pick(c, [][2]int{{80, 3}, {5, 60}, {33, 12}, {201, 1}}, [][2]int{{80, 24}, {5, 200}, {33, 32}, {300, 2}, {65, 65}}))
		long(c)
		pool(c, vk.Pick(c, 6, 7))
		c.Rule("all histories of drawing operations, arguments outside the buffer included, explored breadth first over the contents of small buffers and compared with a plain grid by rendering them before and after each operation; all copies and resized copies of every state; all short histories of pooled buffers")
	})
}
