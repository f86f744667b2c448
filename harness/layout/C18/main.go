// C18: every combination of small values of a box's attributes, and every
// short history of building and rendering one box.
package main

import (
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/layout"
	"github.com/phoenix-tui/phoenix/layout/internal/domain/value"
	"github.com/phoenix-tui/phoenix/layout/zzverif/lay"
	"github.com/phoenix-tui/phoenix/layout/zzverif/vk"
)

var texts = []string{"a", "hello world", "a|bbb", "W", "aW|WW|", "C", "Eab|W", "F", "M|a", "G b", "HKR", "|", "ab|", " ", "||a", "R|RRR", "WKMFGH"}

func judge(c *vk.C, b lay.Box, r *layout.Box, hist string) bool {
	c.Evals.Add(1)
	var got string
	if p := vk.Guard(func() { got = r.Render() }); p != "" {
		c.Fail("panic", hist+": "+p, hist)
		return false
	}
	if bad := b.Compare(got); bad != "" {
		c.Fail("rendered", bad+hist, hist+b.String())
		return false
	}
	return true
}

// placed checks the position in a parent.
func placed(c *vk.C, b lay.Box, r *layout.Box, pw, ph int) bool {
	c.Evals.Add(1)
	w, h := b.Outer()
	off := func(kind, size, space int) int {
		if size >= space {
			return 0
		}
		return []int{0, (space - size) / 2, space - size}[kind]
	}
	x, y := off(b.Horizontal, w, pw), off(b.Vertical, h, ph)
	p := r.Layout(pw, ph)
	if p.X() != x || p.Y() != y {
		c.Fail("placed", fmt.Sprintf("%s aligned (%d, %d) in %dx%d is placed at (%d, %d), should be (%d, %d)", b, b.Horizontal, b.Vertical, pw, ph, p.X(), p.Y(), x, y), b.String())
		return false
	}
	return true
}

func spacings(lim int) [][4]int {
	var out [][4]int
	for i := 0; i < lim*lim*lim*lim; i++ {
		out = append(out, [4]int{i % lim, i / lim % lim, i / lim / lim % lim, i / lim / lim / lim})
	}
	return out
}

func combinations(c *vk.C, lim int) {
	sp := spacings(lim)
	done := c.Parallel(len(texts)*2*len(sp), func(i int) {
		b := lay.New(texts[i%len(texts)])
		b.Border = i/len(texts)%2 == 1
		b.Pad = sp[i/len(texts)/2]
		for _, m := range sp {
			b.Mar = m
			c.States.Add(1)
			r := b.Real()
			if !judge(c, b, r, "") || !judge(c, b, r, " (rendered again)") || !placed(c, b, r, 30, 12) {
				return
			}
		}
	})
	c.Part("%d boxes: text x border x padding x margin, sides from 0 to %d", len(texts)*2*len(sp)*len(sp), lim-1)
	if done < len(texts)*2*len(sp) {
		c.Partial("attribute combinations")
	}
	c.Outcome("combinations")
}

// placements: all alignments and parents, with size constraints.
func placements(c *vk.C) {
	cons := []int{-1, 0, 1, 3, 9}
	c.Parallel(len(texts)*9, func(i int) {
		for pick := 0; pick < 5*5*5*5*2; pick++ {
			b := lay.New(texts[i%len(texts)])
			b.Border = pick%2 == 1
			b.Horizontal, b.Vertical = i/len(texts)%3, i/len(texts)/3
			b.Width, b.Height, b.MinWidth, b.MaxHt = cons[pick/2%5], cons[pick/10%5], cons[pick/50%5], cons[pick/250]
			if b.MaxHt == 9 {
				b.MaxHt, b.MinHt, b.MaxWidth = -1, 5, max(b.MinWidth, 4)
			}
			r := b.Real().Align(value.HorizontalAlignment(b.Horizontal), value.VerticalAlignment(b.Vertical))
			for _, p := range [][2]int{{0, 0}, {1, 1}, {10, 5}, {11, 6}, {80, 24}, {-3, 7}, {5, -1}, {0, 24}, {80, 0}} {
				if !placed(c, b, r, p[0], p[1]) {
					return
				}
			}
			r.Render()
			if !placed(c, b, r, 80, 24) {
				return
			}
			c.States.Add(1)
		}
	})
	c.Part("%d boxes with alignment and size constraints placed in 9 parents", len(texts)*9*1250)
	c.Outcome("placements")
}

type op struct {
	name string
	do   func(r *layout.Box, b *lay.Box) *layout.Box
}

func n0(v int) int { return max(v, 0) }

var ops = []op{
	{"PaddingAll(1)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Pad = [4]int{1, 1, 1, 1}; return r.PaddingAll(1) }},
	{"PaddingAll(-1)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Pad = [4]int{}; return r.PaddingAll(-1) }},
	{"PaddingVH(1,2)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Pad = [4]int{1, 2, 1, 2}; return r.PaddingVH(1, 2) }},
	{"PaddingVH(-1,3)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Pad = [4]int{0, 3, 0, 3}; return r.PaddingVH(-1, 3) }},
	{"Padding(0,1,2,3)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Pad = [4]int{0, 1, 2, 3}; return r.Padding(0, 1, 2, 3) }},
	{"Padding(-1,2,-3,1)", func(r *layout.Box, b *lay.Box) *layout.Box {
		b.Pad = [4]int{0, 2, 0, 1}
		return r.Padding(-1, 2, -3, 1)
	}},
	{"MarginAll(1)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Mar = [4]int{1, 1, 1, 1}; return r.MarginAll(1) }},
	{"MarginVH(0,2)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Mar = [4]int{0, 2, 0, 2}; return r.MarginVH(0, 2) }},
	{"Margin(3,2,1,0)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Mar = [4]int{3, 2, 1, 0}; return r.Margin(3, 2, 1, 0) }},
	{"Margin(-5,-5,-5,1)", func(r *layout.Box, b *lay.Box) *layout.Box {
		b.Mar = [4]int{0, 0, 0, 1}
		return r.Margin(-5, -5, -5, 1)
	}},
	{"Border", func(r *layout.Box, b *lay.Box) *layout.Box { b.Border = true; return r.Border() }},
	{"NoBorder", func(r *layout.Box, b *lay.Box) *layout.Box { b.Border = false; return r.NoBorder() }},
	{"AlignLeft", func(r *layout.Box, b *lay.Box) *layout.Box { b.Horizontal, b.Vertical = 0, 0; return r.AlignLeft() }},
	{"AlignCenter", func(r *layout.Box, b *lay.Box) *layout.Box { b.Horizontal, b.Vertical = 1, 1; return r.AlignCenter() }},
	{"AlignRight", func(r *layout.Box, b *lay.Box) *layout.Box { b.Horizontal, b.Vertical = 2, 0; return r.AlignRight() }},
	{"AlignMiddle", func(r *layout.Box, b *lay.Box) *layout.Box { b.Horizontal, b.Vertical = 0, 1; return r.AlignMiddle() }},
	{"AlignBottom", func(r *layout.Box, b *lay.Box) *layout.Box { b.Horizontal, b.Vertical = 0, 2; return r.AlignBottom() }},
	{"AlignTop", func(r *layout.Box, b *lay.Box) *layout.Box { b.Horizontal, b.Vertical = 0, 0; return r.AlignTop() }},
	{"Align(right, middle)", func(r *layout.Box, b *lay.Box) *layout.Box {
		b.Horizontal, b.Vertical = 2, 1
		return r.Align(value.AlignRight, value.AlignMiddle)
	}},
	{"Width(20)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Width = 20; return r.Width(20) }},
	{"Width(-2)", func(r *layout.Box, b *lay.Box) *layout.Box { b.Width = -1; return r.Width(-2) }},
	{"MinHeight(7)", func(r *layout.Box, b *lay.Box) *layout.Box { b.MinHt = 7; return r.MinHeight(7) }},
	{"MaxWidth(25)", func(r *layout.Box, b *lay.Box) *layout.Box { b.MaxWidth = 25; return r.MaxWidth(25) }},
	{"Render", func(r *layout.Box, b *lay.Box) *layout.Box { r.Render(); return r }},
	{"String", func(r *layout.Box, b *lay.Box) *layout.Box { _ = r.String(); return r }},
	{"Layout", func(r *layout.Box, b *lay.Box) *layout.Box { r.Layout(9, 9); return r }},
	{"put into a row", func(r *layout.Box, b *lay.Box) *layout.Box {
		layout.Row().Add(r).Render(9, 9)
		return r
	}},
}

func histories(c *vk.C, depth int) {
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	first := len(ops) * len(ops)
	done := c.Parallel(first*3, func(k int) {
		text := []string{"ab", "aW|C", "|hello|"}[k/first]
		for code := k % first; code < total; code += first {
			b := lay.New(text)
			r := b.Real()
			hist := ""
			for i, x := 0, code; i < depth; i++ {
				o := ops[x%len(ops)]
				x /= len(ops)
				hist += " " + o.name
				r = o.do(r, &b)
			}
			c.States.Add(1)
			if !placed(c, b, r, 40, 20) || !judge(c, b, r, " after"+hist) || !placed(c, b, r, 41, 23) {
				return
			}
			if s := r.String(); s != r.Render() {
				c.Fail("string", fmt.Sprintf("String of %s is %q", b, s), hist)
				return
			}
		}
	})
	c.Part("%d histories of %d builder, rendering and layout calls on three texts", total*3, depth)
	if done < first*3 {
		c.Partial("builder histories")
	}
	c.Outcome("histories")
}

// constraints: the documented size constraints on a rendered box.
func constraints(c *vk.C) {
	size := func(s string) (w, h int) {
		for _, l := range strings.Split(s, "\n") {
			w = max(w, len([]rune(l)))
			h++
		}
		return
	}
	for _, k := range []struct {
		key  string
		box  *layout.Box
		w, h int
	}{
		{"render-width", layout.NewBox("hi").Width(6), 6, 1},
		{"render-height", layout.NewBox("hi").Height(3), 2, 3},
		{"render-min-width", layout.NewBox("hi").MinWidth(6), 6, 1},
		{"render-min-height", layout.NewBox("hi").MinHeight(3), 2, 3},
		{"render-max-width", layout.NewBox("hello world").MaxWidth(5), 5, 1},
		{"render-max-height", layout.NewBox("1\n2\n3").MaxHeight(2), 1, 2},
	} {
		c.Evals.Add(1)
		s := k.box.Render()
		if w, h := size(s); w != k.w || h != k.h {
			c.Fail(k.key, fmt.Sprintf("a box is rendered as %q (%dx%d) although its constraint demands %dx%d", s, w, h, k.w, k.h), k.key)
		}
	}
	// the height a bordered box takes and the height it is drawn with
	b := layout.NewBox("hi").Border().AlignBottom()
	_, h := size(b.Render())
	if p := b.Layout(10, 10); p.Y()+h != 10 {
		c.Fail("border-height", fmt.Sprintf("a bordered box of %d lines aligned to the bottom of 10 lines is placed at line %d", h, p.Y()), nil)
	}
	c.Part("size constraints of a rendered box")
}

// sweeps takes one dimension at a time far beyond the small values.
func sweeps(c *vk.C, lim int) {
	done := c.Parallel(lim+1, func(n int) {
		var bs []lay.Box
		add := func(t string, f func(b *lay.Box)) {
			for i := range 2 * 9 {
				b := lay.New(t)
				b.Border = i%2 == 1
				b.Horizontal, b.Vertical = i/2%3, i/6
				f(&b)
				bs = append(bs, b)
			}
		}
		for i := range 4 {
			for _, t := range []string{"q", "aW|C"} {
				add(t, func(b *lay.Box) { b.Pad[i] = n })
				add(t, func(b *lay.Box) { b.Mar[i] = n })
				add(t, func(b *lay.Box) { b.Pad[i], b.Mar[(i+1)%4], b.Pad[(i+2)%4] = n, n/2, 3 })
			}
		}
		if n > 0 {
			for _, e := range []string{"x", "W", "aW", "E", "b c", "MF", "R"} {
				t := strings.Repeat(e, n)
				add(t, func(b *lay.Box) {})
				add("a|"+t+"|b", func(b *lay.Box) { b.Pad[3] = 1 })
			}
			add(strings.Repeat("a|", n), func(b *lay.Box) {})
			add(strings.Repeat("|aW", n), func(b *lay.Box) { b.Mar[0] = 2 })
		}
		for i := range 6 {
			add("hello|W", func(b *lay.Box) {
				*[]*int{&b.Width, &b.Height, &b.MinWidth, &b.MinHt, &b.MaxWidth, &b.MaxHt}[i] = n
			})
		}
		for _, b := range bs {
			r := b.Real().Align(value.HorizontalAlignment(b.Horizontal), value.VerticalAlignment(b.Vertical))
			c.States.Add(1)
			if !judge(c, b, r, "") || !placed(c, b, r, 80, 24) || !placed(c, b, r, n, n) || !placed(c, b, r, n+9, 2*n+3) {
				return
			}
		}
	})
	c.Part("contents of up to %d characters and lines, padding and margin of up to %d on each side, constraints and parents likewise", lim, lim)
	if done < lim+1 {
		c.Partial("sweeps")
	}
	c.Outcome("sweeps")
}

func main() {
	vk.Main("C18", "model_checking", 0, func(c *vk.C) {
		combinations(c, vk.Pick(c, 3, 4))
		placements(c)
		sweeps(c, vk.Pick(c, 130, 400))
		histories(c, vk.Pick(c, 4, 5))
		constraints(c)
		c.Rule("all combinations of text, border and the four sides of padding and margin; all alignments, constraints and parents from small sets; all sequences of builder, rendering and placing calls; one case per box or history, compared with a reference drawing")
	})
}
