// C13: all combinations of small values of the attributes of a style, and all
// short sequences of builder calls, compared with a reference drawing.
package main

import (
	"fmt"

	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
	"github.com/phoenix-tui/phoenix/style/zzverif/sty"
	"github.com/phoenix-tui/phoenix/style/zzverif/vk"
)

func judge(c *vk.C, b sty.Spec, s style.Style, text, hist string) bool {
	c.Evals.Add(1)
	in := sty.Text(text)
	d, _ := b.Draw(text)
	want := sty.Join(d)
	got := style.Render(s, in)
	if got != want {
		c.Fail("rendered", fmt.Sprintf("%q with %s%s is\n%s\nshould be\n%s", in, b, hist, sty.Frame(got), sty.Frame(want)), b.String()+text+hist)
		return false
	}
	return true
}

var texts = []string{"a", "hello", "W", "aW|bcd", "x||yy", "FE|MK", "abWR|W", "z|", "R"}

// borders: none and the sides.
func borders(b sty.Spec, i int) sty.Spec {
	if i > 0 {
		b.HasBorder, b.Border = true, style.NormalBorder
		for k := range 4 {
			b.Sides[k] = (i-1)>>k&1 == 1
		}
	}
	return b
}

func combinations(c *vk.C, sizes, heights []int, sp [][4]int) {
	n := len(texts) * 17 * (len(sp) + 1)
	done := c.Parallel(n, func(i int) {
		text := texts[i%len(texts)]
		i /= len(texts)
		b := borders(sty.New(), i%17)
		i /= 17
		if i > 0 {
			b.HasPad, b.Pad = true, sp[i-1]
		}
		for m := 0; m <= len(sp); m++ {
			b := b
			if m > 0 {
				b.HasMar, b.Mar = true, sp[m-1]
			}
			for _, w := range sizes {
				for _, h := range heights {
					for al := 0; al < 10; al++ {
						b.Width, b.Height = w, h
						b.HasAlign = al > 0
						if al > 0 {
							b.H, b.V = (al-1)%3, (al-1)/3
						}
						if !judge(c, b, b.Style(), text, "") {
							return
						}
						b.H, b.V = 0, 0
					}
				}
			}
			c.States.Add(1)
		}
	})
	c.Part("%d texts x 17 border choices x %d paddings x as many margins x %d widths x %d heights x 10 alignments", len(texts), len(sp)+1, len(sizes), len(heights))
	if done < n {
		c.Partial("combinations")
	}
	c.Outcome("combinations")
}

// spacings: every thickness of every side.
func spacings(c *vk.C, lim int) {
	n := lim * lim * lim * lim
	four := func(i int) [4]int { return [4]int{i % lim, i / lim % lim, i / lim / lim % lim, i / lim / lim / lim} }
	styles := []style.Border{style.RoundedBorder, style.ThickBorder, style.DoubleBorder, style.ASCIIBorder, style.NormalBorder, style.NewBorder("1", "2", "3", "4", "5", "6", "7", "8")}
	done := c.Parallel(n, func(i int) {
		b := sty.New()
		b.HasPad, b.HasMar, b.Pad = true, true, four(i)
		for m := range n {
			b.Mar = four(m)
			b.HasBorder, b.Border, b.Sides = true, styles[(i+m)%len(styles)], [4]bool{true, true, true, true}
			for _, t := range []string{"q", "W|xyz"} {
				if !judge(c, b, b.Style(), t, "") {
					return
				}
			}
			c.States.Add(1)
		}
	})
	c.Part("padding and margin of 0..%d columns on every side independently", lim-1)
	if done < n {
		c.Partial("spacings")
	}
}

// limits: minimum and maximum sizes.
func limits(c *vk.C, lims []int) {
	k := len(lims)
	n := k * k * k * k
	done := c.Parallel(n, func(i int) {
		b := sty.New()
		b.MinW, b.MaxW, b.MinH, b.MaxH = lims[i%k], lims[i/k%k], lims[i/k/k%k], lims[i/k/k/k]
		for shape := 0; shape < 17*2*2*9; shape++ {
			b := borders(b, shape%17)
			if shape/17%2 == 1 {
				b.HasPad, b.Pad = true, [4]int{0, 1, 1, 0}
			}
			if shape/34%2 == 1 {
				b.HasMar, b.Mar = true, [4]int{1, 2, 0, 1}
			}
			b.Width, b.Height = []int{-1, 2, 5}[shape/68%3], []int{-1, 1, 3}[shape/204]
			for _, t := range []string{"ab", "W|xyz"} {
				if !judge(c, b, b.Style(), t, "") {
					return
				}
			}
			c.States.Add(1)
		}
	})
	c.Part("%d^4 minimum and maximum sizes x 17 borders x padding x margin x target sizes", k)
	if done < n {
		c.Partial("limits")
	}
}

// histories: sequences of builder calls; later calls win.
type op struct {
	name string
	do   func(b *sty.Spec, s style.Style) style.Style
}

func ops() []op {
	var out []op
	add := func(name string, f func(b *sty.Spec, s style.Style) style.Style) { out = append(out, op{name, f}) }
	for i, f := range []func(style.Style, int) style.Style{style.Style.PaddingTop, style.Style.PaddingRight, style.Style.PaddingBottom, style.Style.PaddingLeft} {
		add(fmt.Sprintf("Padding[%d](%d)", i, i+1), func(b *sty.Spec, s style.Style) style.Style {
			b.HasPad, b.Pad[i] = true, i+1
			return f(s, i+1)
		})
	}
	for i, f := range []func(style.Style, int) style.Style{style.Style.MarginTop, style.Style.MarginRight, style.Style.MarginBottom, style.Style.MarginLeft} {
		add(fmt.Sprintf("Margin[%d](%d)", i, 4-i), func(b *sty.Spec, s style.Style) style.Style {
			b.HasMar, b.Mar[i] = true, 4-i
			return f(s, 4-i)
		})
	}
	add("PaddingLeft(-1)", func(b *sty.Spec, s style.Style) style.Style { b.HasPad, b.Pad[3] = true, 0; return s.PaddingLeft(-1) })
	add("PaddingAll(2)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasPad, b.Pad = true, [4]int{2, 2, 2, 2}
		return s.PaddingAll(2)
	})
	add("PaddingHorizontal(3)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasPad, b.Pad[1], b.Pad[3] = true, 3, 3
		return s.PaddingHorizontal(3)
	})
	add("PaddingVertical(1)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasPad, b.Pad[0], b.Pad[2] = true, 1, 1
		return s.PaddingVertical(1)
	})
	add("Padding(0, 4, 1, 2)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasPad, b.Pad = true, [4]int{0, 4, 1, 2}
		return s.Padding(style.NewPadding(0, 4, 1, 2))
	})
	add("MarginTop(-2)", func(b *sty.Spec, s style.Style) style.Style { b.HasMar, b.Mar[0] = true, 0; return s.MarginTop(-2) })
	add("MarginAll(1)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasMar, b.Mar = true, [4]int{1, 1, 1, 1}
		return s.MarginAll(1)
	})
	add("MarginHorizontal(2)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasMar, b.Mar[1], b.Mar[3] = true, 2, 2
		return s.MarginHorizontal(2)
	})
	add("MarginVertical(3)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasMar, b.Mar[0], b.Mar[2] = true, 3, 3
		return s.MarginVertical(3)
	})
	add("Margin(1, 0, 3, 2)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasMar, b.Mar = true, [4]int{1, 0, 3, 2}
		return s.Margin(style.NewMargin(1, 0, 3, 2))
	})
	for _, bo := range []style.Border{style.RoundedBorder, style.ASCIIBorder} {
		add("Border("+bo.TopLeft+")", func(b *sty.Spec, s style.Style) style.Style {
			b.HasBorder, b.Border = true, bo
			if b.Sides == [4]bool{} {
				b.Sides = [4]bool{true, true, true, true}
			}
			return s.Border(bo)
		})
	}
	for i, f := range []func(style.Style, bool) style.Style{style.Style.BorderTop, style.Style.BorderRight, style.Style.BorderBottom, style.Style.BorderLeft} {
		for _, on := range []bool{false, true} {
			add(fmt.Sprintf("BorderSide[%d](%v)", i, on), func(b *sty.Spec, s style.Style) style.Style { b.Sides[i] = on; return f(s, on) })
		}
	}
	set := func(name string, field func(b *sty.Spec) *int, f func(style.Style, int) style.Style, vals ...int) {
		for _, v := range vals {
			add(fmt.Sprintf("%s(%d)", name, v), func(b *sty.Spec, s style.Style) style.Style { *field(b) = max(v, 0); return f(s, v) })
		}
	}
	set("Width", func(b *sty.Spec) *int { return &b.Width }, style.Style.Width, 4, 9, -3)
	set("Height", func(b *sty.Spec) *int { return &b.Height }, style.Style.Height, 2, 0)
	set("MinWidth", func(b *sty.Spec) *int { return &b.MinW }, style.Style.MinWidth, 6)
	set("MaxWidth", func(b *sty.Spec) *int { return &b.MaxW }, style.Style.MaxWidth, 7, -1)
	set("MinHeight", func(b *sty.Spec) *int { return &b.MinH }, style.Style.MinHeight, 3)
	set("MaxHeight", func(b *sty.Spec) *int { return &b.MaxH }, style.Style.MaxHeight, 4)
	add("Align(right, bottom)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasAlign, b.H, b.V = true, 2, 2
		return s.Align(style.NewAlignment(style.AlignRight, style.AlignBottom))
	})
	add("AlignHorizontal(center)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasAlign, b.H = true, 1
		return s.AlignHorizontal(value.AlignCenter)
	})
	add("AlignVertical(middle)", func(b *sty.Spec, s style.Style) style.Style {
		b.HasAlign, b.V = true, 1
		return s.AlignVertical(value.AlignMiddle)
	})
	return out
}

func histories(c *vk.C, depth int) {
	ops := ops()
	n := len(ops)
	var walk func(b sty.Spec, s style.Style, hist string, left int) bool
	walk = func(b sty.Spec, s style.Style, hist string, left int) bool {
		// sides without a border are not a valid style
		if b.HasBorder || b.Sides == [4]bool{} {
			c.States.Add(1)
			if !judge(c, b, s, "a|bWc", hist) {
				return false
			}
		}
		if left == 0 {
			return true
		}
		for _, o := range ops {
			b := b
			c.Transitions.Add(1)
			s := o.do(&b, s)
			if !walk(b, s, hist+"."+o.name, left-1) {
				return false
			}
		}
		return true
	}
	done := c.Parallel(n*n, func(i int) {
		b := sty.New()
		s := ops[i%n].do(&b, style.New())
		s = ops[i/n].do(&b, s)
		walk(b, s, " after New()."+ops[i%n].name+"."+ops[i/n].name, depth-2)
	})
	c.Part("all sequences of %d of %d builder calls", depth, n)
	if done < n*n {
		c.Partial("histories of %d calls", depth)
	}
}

// sweeps takes one dimension at a time far beyond the small values.
func sweeps(c *vk.C, lim int) {
	rep := func(p string, n int) string {
		t := ""
		for len(t) < n {
			t += p
		}
		return t[:n]
	}
	done := c.Parallel(lim+1, func(n int) {
		var bs []sty.Spec
		var ts []string
		add := func(t string, f func(b *sty.Spec)) {
			for _, border := range []int{0, 16, 6} {
				for al := 0; al < 10; al++ {
					b := borders(sty.New(), border)
					b.HasAlign = al > 0
					if al > 0 {
						b.H, b.V = (al-1)%3, (al-1)/3
					}
					f(&b)
					bs, ts = append(bs, b), append(ts, t)
				}
			}
		}
		if n > 0 {
			long := []string{rep("abcdefghijklmnopqrstuvwxy", n), rep("W", n), rep("aW", n), rep("aWbE", n) + "|" + rep("x", n/2+1) + "|W"}
			for _, w := range []int{-1, n - 1, n, n + 1, n + 2, n + 7, 2*n - 1, 2 * n, 2*n + 1, 80, 200} {
				for _, t := range long {
					add(t, func(b *sty.Spec) { b.Width = w })
				}
			}
			lines := rep("a|", 2*n-1)
			for _, h := range []int{-1, n - 1, n, n + 1, n + 2, n + 9, 24} {
				add(lines, func(b *sty.Spec) { b.Height = h })
				add("W", func(b *sty.Spec) { b.Height = h })
			}
			for _, d := range []int{-1, 0, 1} {
				add(long[2], func(b *sty.Spec) { b.MinW = max(0, n+d) })
				add(long[2], func(b *sty.Spec) { b.MaxW = max(0, n+d) })
				add(lines, func(b *sty.Spec) { b.MinH = max(0, n+d) })
				add(lines, func(b *sty.Spec) { b.MaxH = max(0, n+d) })
			}
		}
		for i := range 4 {
			for _, t := range []string{"q", "W|xyz"} {
				add(t, func(b *sty.Spec) { b.HasPad, b.Pad[i] = true, n })
				add(t, func(b *sty.Spec) { b.HasMar, b.Mar[i] = true, n })
				add(t, func(b *sty.Spec) {
					b.HasPad, b.Pad[i] = true, n
					b.HasMar, b.Mar[(i+1)%4] = true, n/2
					b.Width, b.Height = n, n/3
				})
			}
		}
		for i, b := range bs {
			c.States.Add(1)
			if !judge(c, b, b.Style(), ts[i], "") {
				return
			}
		}
	})
	c.Part("texts of up to %d characters and lines, padding and margin of up to %d on each side, sizes and limits around and beyond the text", lim, lim)
	if done < lim+1 {
		c.Partial("sweeps")
	}
	c.Outcome("sweeps")
}

func main() {
	vk.Main("C13", "model_checking", 0, func(c *vk.C) {
		sp := [][4]int{{0, 0, 0, 0}, {0, 1, 0, 2}, {1, 0, 2, 0}, {1, 2, 3, 1}}
		combinations(c, vk.Pick(c, []int{-1, 0, 1, 3, 6}, []int{-1, 0, 1, 2, 3, 4, 5, 7}), vk.Pick(c, []int{-1, 1, 4}, []int{-1, 0, 1, 2, 3, 5}), vk.Pick(c, sp[:4], append(sp, [4]int{2, 0, 0, 3}, [4]int{0, 0, 1, 0})))
		spacings(c, vk.Pick(c, 4, 5))
		limits(c, vk.Pick(c, []int{-1, 0, 2, 3, 4, 6}, []int{-1, 0, 1, 2, 3, 4, 5, 6, 8}))
		sweeps(c, vk.Pick(c, 130, 300))
		histories(c, vk.Pick(c, 3, 4))
		c.Rule("all combinations of text, border sides, padding, margin, size, limits and alignment from small sets; all sequences of builder calls; one case per style, compared with a reference drawing")
	})
}
