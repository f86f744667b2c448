// C17: every list of up to four items with every option of the container in
// every container size of a set, compared cell by cell with a reference.
package main

import (
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/layout"
	"github.com/phoenix-tui/phoenix/layout/zzverif/lay"
	"github.com/phoenix-tui/phoenix/layout/zzverif/vk"
)

func boxes() []lay.Box {
	mk := func(t string, f func(b *lay.Box)) lay.Box {
		b := lay.New(t)
		f(&b)
		return b
	}
	return []lay.Box{
		mk("a", func(b *lay.Box) {}),
		mk("hello", func(b *lay.Box) {}),
		mk("W|xy", func(b *lay.Box) {}),
		mk("CW", func(b *lay.Box) { b.Border = true }),
		mk("p|q|r", func(b *lay.Box) { b.Pad = [4]int{0, 1, 0, 2} }),
		mk("m", func(b *lay.Box) { b.Mar = [4]int{1, 0, 2, 3} }),
		mk("w", func(b *lay.Box) { b.Width, b.MinHt = 4, 2 }),
		mk("E", func(b *lay.Box) { b.Border, b.Pad, b.Mar = true, [4]int{1, 0, 0, 1}, [4]int{0, 1, 0, 1} }),
		mk("MF", func(b *lay.Box) { b.MaxWidth = 9 }),
		mk("|", func(b *lay.Box) {}),
	}
}

func compare(c *vk.C, f lay.Flex, r *layout.Flex, w, h int, hist string) bool {
	c.Evals.Add(1)
	var got string
	if p := vk.Guard(func() { got = r.Render(w, h) }); p != "" {
		c.Fail("panic", fmt.Sprintf("%s in %dx%d%s: %s", f, w, h, hist, p), f.String())
		return false
	}
	if want := f.Draw(w, h); got != want {
		c.Fail("rendered", fmt.Sprintf("%s in %dx%d%s is\n%s\nshould be\n%s", f, w, h, hist, frame(got), frame(want)), f.String())
		return false
	}
	return true
}

func frame(s string) string { return "|" + strings.ReplaceAll(s, "\n", "|\n|") + "|" }

// lists: all lists of up to n items, all options.
func lists(c *vk.C, n int, pool []lay.Box, gaps []int, sizes [][2]int) {
	total := 0
	for k, p := 0, 1; k <= n; k, p = k+1, p*len(pool) {
		total += p
	}
	done := c.Parallel(total, func(code int) {
		var items []lay.Box
		k, p := 0, 1
		for code >= p {
			code -= p
			p *= len(pool)
			k++
		}
		for i := 0; i < k; i++ {
			items = append(items, pool[code%len(pool)])
			code /= len(pool)
		}
		for opt := 0; opt < 2*4*4; opt++ {
			for _, g := range gaps {
				f := lay.Flex{Column: opt%2 == 1, Justify: opt / 2 % 4, Align: opt / 8, Gap: g, Items: items}
				r := f.Real()
				for _, s := range sizes {
					if !compare(c, f, r, s[0], s[1], "") {
						return
					}
				}
				c.States.Add(1)
			}
		}
	})
	c.Part("%d lists of up to %d of %d items x 32 options x %d gaps x %d container sizes", total, n, len(pool), len(gaps), len(sizes))
	if done < total {
		c.Partial("lists of %d items", n)
	}
	c.Outcome("lists")
}

// histories: a container and two boxes under all sequences of calls; what a
// box becomes after it was added does not matter.
type state struct {
	f    lay.Flex
	r    *layout.Flex
	b    [2]lay.Box
	rb   [2]*layout.Box
	hist string
}

type op struct {
	name string
	do   func(s *state)
}

func ops() []op {
	var out []op
	for i := range 2 {
		out = append(out,
			op{fmt.Sprintf("Add(%d)", i), func(s *state) { s.r = s.r.Add(s.rb[i]); s.f.Items = append(s.f.Items, s.b[i]) }},
			op{fmt.Sprintf("%d.Border", i), func(s *state) { s.rb[i] = s.rb[i].Border(); s.b[i].Border = true }},
			op{fmt.Sprintf("%d.PaddingAll(1)", i), func(s *state) { s.rb[i] = s.rb[i].PaddingAll(1); s.b[i].Pad = [4]int{1, 1, 1, 1} }},
			op{fmt.Sprintf("%d.Render", i), func(s *state) { s.rb[i].Render() }},
		)
	}
	set := func(name string, f func(s *state)) { out = append(out, op{name, f}) }
	set("AddRaw", func(s *state) { s.r = s.r.AddRaw("世x"); s.f.Items = append(s.f.Items, lay.New("Wx")) })
	set("Gap(2)", func(s *state) { s.r = s.r.Gap(2); s.f.Gap = 2 })
	set("Gap(0)", func(s *state) { s.r = s.r.Gap(0); s.f.Gap = 0 })
	set("JustifyEnd", func(s *state) { s.r = s.r.JustifyEnd(); s.f.Justify = 1 })
	set("JustifyCenter", func(s *state) { s.r = s.r.JustifyCenter(); s.f.Justify = 2 })
	set("JustifySpaceBetween", func(s *state) { s.r = s.r.JustifySpaceBetween(); s.f.Justify = 3 })
	set("AlignStart", func(s *state) { s.r = s.r.AlignStart(); s.f.Align = 1 })
	set("AlignEnd", func(s *state) { s.r = s.r.AlignEnd(); s.f.Align = 2 })
	set("AlignCenter", func(s *state) { s.r = s.r.AlignCenter(); s.f.Align = 3 })
	set("Render(7, 3)", func(s *state) { s.r.Render(7, 3) })
	set("String", func(s *state) { _ = s.r.String() })
	return out
}

func histories(c *vk.C, depth int) {
	ops := ops()
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	first := len(ops) * len(ops)
	done := c.Parallel(first*2, func(k int) {
		for code := k % first; code < total; code += first {
			s := state{f: lay.Flex{Column: k >= first}}
			s.r = layout.Row()
			if s.f.Column {
				s.r = layout.Column()
			}
			for i, t := range []string{"a", "bW|c"} {
				s.b[i] = lay.New(t)
				s.rb[i] = s.b[i].Real()
			}
			for i, x := 0, code; i < depth; i++ {
				o := ops[x%len(ops)]
				x /= len(ops)
				s.hist += " " + o.name
				o.do(&s)
			}
			c.States.Add(1)
			if !compare(c, s.f, s.r, 23, 17, " after"+s.hist) {
				return
			}
			if got := s.r.String(); got != s.f.Draw(80, 24) {
				c.Fail("string", fmt.Sprintf("String of %s after%s", s.f, s.hist), s.hist)
				return
			}
		}
	})
	c.Part("%d histories of %d calls on a container and its boxes", 2*total, depth)
	if done < first*2 {
		c.Partial("histories")
	}
	c.Outcome("histories")
}

// documented checks promises of the documentation that are listed as findings.
func documented(c *vk.C) {
	lines := func(s string) []string { return strings.Split(s, "\n") }
	c.Evals.Add(5)
	l := lines(layout.Row().AlignStretch().Add(layout.NewBox("1").Border()).Add(layout.NewBox("1\n2\n3").Border()).Render(12, 5))
	bottom := func(x int) int {
		for y, s := range l {
			if r := []rune(s); x < len(r) && r[x] == '└' {
				return y
			}
		}
		return -1
	}
	if bottom(0) != bottom(5) {
		c.Fail("stretch", fmt.Sprintf("stretched items of a row end at lines %d and %d", bottom(0), bottom(5)), nil)
	}
	if s := layout.Row().Add(layout.NewBox("abcdef").Width(2)).AddRaw("X").Render(8, 1); s != "abX     " {
		c.Fail("clip-width", fmt.Sprintf("an item of width 2 with six characters followed by X is %q", s), nil)
	}
	if s := layout.Column().Add(layout.NewBox("1\n2\n3").Height(1)).AddRaw("X").Render(1, 4); s != "1\nX\n \n " {
		c.Fail("clip-height", fmt.Sprintf("an item of height 1 with three lines followed by X is %q", s), nil)
	}
	if l := lines(layout.Row().Width(4).AddRaw("a").Render(8, 1)); len(l[0]) != 4 {
		c.Fail("container-width", fmt.Sprintf("a container of width 4 is rendered as %q", l[0]), nil)
	}
	if l := lines(layout.Column().Height(2).AddRaw("a").Render(1, 4)); len(l) != 2 {
		c.Fail("container-height", fmt.Sprintf("a container of height 2 is rendered with %d lines", len(l)), nil)
	}
	c.Part("stretching, clipping of constrained items, size of the container")
}

// sweeps: many items, wide gaps, large items and containers.
func sweeps(c *vk.C, lim int) {
	pool := boxes()
	long := lay.New(strings.Repeat("abcdefghijW", 9))
	tall := lay.New(strings.Repeat("a|bW|", 25) + "c")
	padded := lay.New("pW")
	padded.Pad, padded.Mar, padded.Border = [4]int{3, 17, 2, 30}, [4]int{5, 2, 11, 20}, true
	var fixed []lay.Box
	for i, v := range []int{1, 9, 10, 33, 100} {
		b := lay.New("f")
		if i%2 == 0 {
			b.Width, b.MinHt = v, v/2
		} else {
			b.MinWidth, b.Height = v, v/3
		}
		fixed = append(fixed, b)
	}
	done := c.Parallel(lim*2, func(i int) {
		n := i/2 + 1
		var many, wide []lay.Box
		for k := range n {
			many = append(many, pool[(k*k+k/3)%len(pool)])
			wide = append(wide, lay.New(strings.Repeat("x", 1+(n+k*5)%11)))
		}
		f := lay.Flex{Column: i%2 == 1}
		try := func(items []lay.Box, gap int, sizes ...[2]int) bool {
			f.Items, f.Gap = items, gap
			for opt := range 16 {
				f.Justify, f.Align = opt%4, opt/4
				r := f.Real()
				c.States.Add(1)
				for _, s := range sizes {
					if !compare(c, f, r, s[0], s[1], "") {
						return false
					}
				}
			}
			return true
		}
		ok := try(many, 0, [2]int{80, 24}, [2]int{n, n}) &&
			try(wide, 1, [2]int{8 * n, 7}, [2]int{9*n + 4, 2 * n}) &&
			try([]lay.Box{pool[0], long, pool[2]}, n, [2]int{130, 9}, [2]int{99 + n, 3}, [2]int{n, 60}) &&
			try([]lay.Box{tall, pool[1]}, n, [2]int{40, 60}, [2]int{9, 51 + n}, [2]int{3, n}) &&
			try([]lay.Box{padded, pool[3], pool[0]}, n/3, [2]int{2 * n, n}, [2]int{100, 40}) &&
			try([]lay.Box{fixed[n%5], pool[1], fixed[n/5%5]}, n/7, [2]int{3 * n, 2 * n}, [2]int{130, 70})
		_ = ok
	})
	c.Part("up to %d items, gaps of up to %d, containers of up to %d columns", lim, lim, 9*lim+4)
	if done < lim*2 {
		c.Partial("sweeps")
	}
	c.Outcome("sweeps")
}

func main() {
	vk.Main("C17", "model_checking", 0, func(c *vk.C) {
		all := boxes()
		var sizes [][2]int
		for w := 0; w <= 24; w++ {
			for h := 0; h <= 16; h++ {
				sizes = append(sizes, [2]int{w, h})
			}
		}
		sizes = append(sizes, [2]int{-1, 3}, [2]int{3, -1}, [2]int{-2, -2}, [2]int{80, 24})
		documented(c)
		lists(c, vk.Pick(c, 3, 4), all, []int{0, 2}, [][2]int{{0, 0}, {1, 1}, {6, 4}, {11, 7}, {20, 13}, {33, 24}})
		lists(c, vk.Pick(c, 4, 5), all[:5], []int{1}, [][2]int{{9, 6}, {21, 19}, {24, 20}})
		sweeps(c, vk.Pick(c, 60, 150))
		lists(c, 2, all, []int{0, 1, 3}, sizes)
		histories(c, vk.Pick(c, 4, 5))
		c.Rule("all lists of items (plain, wide, multi-line, padded, margined, bordered, constrained) up to the stated length with all options, gaps and container sizes; all sequences of calls on a container and its boxes; one case per container, compared cell by cell with a reference drawing")
	})
}
