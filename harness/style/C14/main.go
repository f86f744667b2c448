// C14: all combinations of colours, attributes and capabilities with boxes and
// nesting, rendered on an emulated terminal and compared cell by cell; colour
// conversions over the palette and a dense grid of the colour space.
package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
	"github.com/phoenix-tui/phoenix/style/zzverif/sty"
	"github.com/phoenix-tui/phoenix/style/zzverif/vk"
)

type rgb [3]int

var palette = func() (p [256]rgb) {
	for i := range 8 {
		p[i] = rgb{i & 1 * 128, i >> 1 & 1 * 128, i >> 2 & 1 * 128}
		p[i+8] = rgb{i & 1 * 255, i >> 1 & 1 * 255, i >> 2 & 1 * 255}
	}
	p[7], p[8] = rgb{192, 192, 192}, rgb{128, 128, 128}
	lev := []int{0, 95, 135, 175, 215, 255}
	for i := range 216 {
		p[16+i] = rgb{lev[i/36], lev[i/6%6], lev[i%6]}
	}
	for i := range 24 {
		p[232+i] = rgb{8 + 10*i, 8 + 10*i, 8 + 10*i}
	}
	return
}()

func dist(a, b rgb) int {
	x, y, z := a[0]-b[0], a[1]-b[1], a[2]-b[2]
	return x*x + y*y + z*z
}

func of(c style.Color) rgb { r, g, b := c.RGB(); return rgb{int(r), int(g), int(b)} }

// shown says what is wrong with a colour on the screen of a terminal that can
// do what tc says.
func shown(got string, want *style.Color, tc value.TerminalCapability) string {
	if want == nil || tc == value.NoColor {
		if got != "" {
			return "has colour " + got + " instead of none"
		}
		return ""
	}
	w := of(*want)
	if tc == value.TrueColor {
		if x := fmt.Sprintf("#%02x%02x%02x", w[0], w[1], w[2]); got != x {
			return fmt.Sprintf("has colour %q instead of %s", got, x)
		}
		return ""
	}
	n, err := strconv.Atoi(got)
	lo, hi := 0, 16
	if tc == value.ANSI256 {
		lo, hi = 16, 256
	}
	if err != nil || n < lo || n >= hi {
		return fmt.Sprintf("has colour %q instead of one of the %d", got, hi)
	}
	d := dist(palette[n], w)
	for i := lo; i < hi; i++ {
		if dist(palette[i], w) < d {
			// nearly black and nearly white greys are drawn black and white
			m, k := max(w[0], w[1], w[2]), min(w[0], w[1], w[2])
			if tc == value.ANSI256 && (n == 16 && m <= 18 || n == 231 && k >= 228) {
				return ""
			}
			return fmt.Sprintf("%v is shown as %d %v, but %d %v is nearer", w, n, palette[n], i, palette[i])
		}
	}
	return ""
}

// look is the part of a style that this check is about.
type look struct {
	fg, bg, bc *style.Color
	deco       int
	tc         value.TerminalCapability
}

func (l look) String() string {
	p := func(c *style.Color) string {
		if c == nil {
			return "-"
		}
		return c.Hex()
	}
	return fmt.Sprintf("{text %s on %s, border %s, attributes %04b, capability %v}", p(l.fg), p(l.bg), p(l.bc), l.deco, l.tc)
}

func (l look) apply(s style.Style) style.Style {
	if l.fg != nil {
		s = s.Foreground(*l.fg)
	}
	if l.bg != nil {
		s = s.Background(*l.bg)
	}
	if l.bc != nil {
		s = s.BorderColor(*l.bc)
	}
	return s.Bold(l.deco&1 > 0).Italic(l.deco&2 > 0).Underline(l.deco&4 > 0).Strikethrough(l.deco&8 > 0).TerminalCapability(l.tc)
}

// on is the look of a cell in this style, over that of the style around it.
func (l look) on(border bool, around look) look {
	fg := l.fg
	if border && l.bc != nil {
		fg = l.bc
	}
	if fg == nil || l.tc == value.NoColor {
		fg = around.fg
	}
	bg := l.bg
	if bg == nil || l.tc == value.NoColor {
		bg = around.bg
	}
	return look{fg: fg, bg: bg, deco: l.deco | around.deco, tc: l.tc}
}

func (l look) check(a vk.Attr) string {
	d := 0
	for i, on := range []bool{a.Bold, a.Italic, a.Underline, a.Strike} {
		if on {
			d |= 1 << i
		}
	}
	if d != l.deco || a.Dim || a.Blink || a.Reverse || a.Hidden {
		return fmt.Sprintf("has attributes %v instead of %04b", a, l.deco)
	}
	if s := shown(a.FG, l.fg, l.tc); s != "" {
		return "text " + s
	}
	if s := shown(a.BG, l.bg, l.tc); s != "" {
		return "background " + s
	}
	return ""
}

const w, h = 30, 16

// compare renders on a terminal; want gives the look of every cell.
func compare(c *vk.C, out, what string, d [][]sty.Cell, want func(y, i int, k sty.Cell) look) bool {
	c.Evals.Add(1)
	w, h := w, h
	for _, l := range d {
		w = max(w, sty.Width(l)+2)
	}
	h = max(h, len(d)+1)
	t := vk.NewTerm(w, h)
	t.WriteString(strings.ReplaceAll(out, "\n", "\r\n"))
	endX, endY := t.X, t.Y
	t.WriteString("!")
	fail := func(key, f string, a ...any) bool {
		c.Fail(key, fmt.Sprintf("%s: %s: %q", what, fmt.Sprintf(f, a...), out), what)
		return false
	}
	for y := range h {
		x := 0
		if y < len(d) {
			for i, k := range d[y] {
				cell := t.Cells[y][x]
				if cell.S != k.S {
					return fail("cell", "line %d column %d shows %q instead of %q", y, x, cell.S, k.S)
				}
				l := want(y, i, k)
				for j := range k.W {
					if s := l.check(t.Cells[y][x+j].A); s != "" {
						return fail("look", "line %d column %d (%q) %s", y, x, k.S, s)
					}
				}
				x += k.W
			}
		}
		for ; x < w; x++ {
			cell := t.Cells[y][x]
			if x == endX && y == endY {
				if cell.S != "!" || cell.A != (vk.Attr{}) {
					return fail("after", "text after it shows %q with %v", cell.S, cell.A)
				}
				continue
			}
			if strings.TrimSpace(cell.S) != "" || cell.A != (vk.Attr{}) {
				return fail("outside", "line %d column %d outside of it shows %q with %v", y, x, cell.S, cell.A)
			}
		}
	}
	if len(d) > 0 && (endY != len(d)-1 || endX != sty.Width(d[endY])) {
		return fail("end", "it ends at line %d column %d", endY, endX)
	}
	return true
}

func boxes() []sty.Spec {
	mk := func(f func(b *sty.Spec)) sty.Spec { b := sty.New(); f(&b); return b }
	all := [4]bool{true, true, true, true}
	return []sty.Spec{
		sty.New(),
		mk(func(b *sty.Spec) { b.HasBorder, b.Border, b.Sides = true, style.RoundedBorder, all }),
		mk(func(b *sty.Spec) {
			b.HasBorder, b.Border, b.Sides, b.HasPad, b.Pad = true, style.ASCIIBorder, all, true, [4]int{1, 0, 0, 2}
			b.HasMar, b.Mar = true, [4]int{0, 1, 1, 1}
		}),
		mk(func(b *sty.Spec) {
			b.HasBorder, b.Border, b.Sides = true, style.NormalBorder, [4]bool{false, true, false, false}
		}),
		mk(func(b *sty.Spec) {
			b.HasBorder, b.Border, b.Sides = true, style.DoubleBorder, [4]bool{true, false, false, true}
		}),
		mk(func(b *sty.Spec) { b.HasPad, b.Pad = true, [4]int{0, 1, 1, 1} }),
		mk(func(b *sty.Spec) { b.Width, b.Height, b.HasAlign, b.H, b.V = 5, 3, true, 1, 2 }),
		mk(func(b *sty.Spec) {
			b.HasBorder, b.Border, b.Sides = true, style.NormalBorder, [4]bool{false, true, false, true}
			b.Width, b.HasMar, b.Mar = 3, true, [4]int{1, 0, 0, 0}
		}),
	}
}

var (
	colours = []style.Color{style.RGB(200, 30, 90), style.RGB(250, 250, 120), style.RGB(15, 80, 200)}
	caps    = []value.TerminalCapability{value.TrueColor, value.ANSI256, value.ANSI16, value.NoColor}
)

func colour(i, k int) *style.Color {
	if i == 0 {
		return nil
	}
	return &colours[k]
}

func looks(decos []int, caps []value.TerminalCapability) []look {
	var out []look
	for i := range 8 {
		for _, d := range decos {
			for _, tc := range caps {
				out = append(out, look{colour(i&1, 0), colour(i&2, 1), colour(i&4, 2), d, tc})
			}
		}
	}
	return out
}

func single(c *vk.C) {
	var decos []int
	for i := range 16 {
		decos = append(decos, i)
	}
	ls := looks(decos, caps)
	texts := []string{"a", "ab|W", "x||yWz", "ab c|d", " ", "K|C R|", "|"}
	bs := boxes()
	n := len(ls) * len(bs)
	done := c.Parallel(n, func(i int) {
		l, b := ls[i%len(ls)], bs[i/len(ls)]
		for _, t := range texts {
			d, _ := b.Draw(t)
			out := style.Render(l.apply(b.Style()), sty.Text(t))
			compare(c, out, fmt.Sprintf("%q as %s %v", t, l, b), d, func(_, _ int, k sty.Cell) look {
				return l.on(k.Zone == sty.ZBorder, look{tc: l.tc})
			})
			c.States.Add(1)
		}
	})
	c.Part("%d combinations of colours, attributes and capability x %d boxes x %d texts", len(ls), len(bs), len(texts))
	if done < n {
		c.Partial("single texts")
	}
	c.Outcome("single")
}

// nested: styled text inside a styled box.
func nested(c *vk.C, decos []int, tcs []value.TerminalCapability, parts int) {
	ls := looks(decos, tcs)
	bs := boxes()
	n := len(ls) * len(ls)
	done := c.Parallel(n, func(i int) {
		in, out := ls[i%len(ls)], ls[i/len(ls)]
		if in.tc != out.tc {
			return
		}
		for bi := range bs {
			for bo := range bs {
				if (bi*len(bs)+bo)%parts != i%parts {
					continue
				}
				inner, _ := bs[bi].Draw("ab|W")
				text := style.Render(in.apply(bs[bi].Style()), sty.Text("ab|W"))
				// a word before and one after it, in the colours of the outer style
				inner[0] = append([]sty.Cell{{Tok: sty.Tok{S: "<", W: 1}, Zone: -1}}, inner[0]...)
				last := len(inner) - 1
				inner[last] = append(inner[last], sty.Cell{Tok: sty.Tok{S: ">", W: 1}, Zone: -1})
				d, _ := bs[bo].DrawCells(inner)
				got := style.Render(out.apply(bs[bo].Style()), "<"+text+">")
				compare(c, got, fmt.Sprintf("text as %s %v inside %s %v", in, bs[bi], out, bs[bo]), d, func(y, i int, k sty.Cell) look {
					outer := out.on(k.Zone == sty.ZBorder, look{tc: out.tc})
					if k.Zone != sty.ZText {
						return outer
					}
					ik := inner[k.Line][k.At]
					if ik.Zone < 0 {
						return outer
					}
					return in.on(ik.Zone == sty.ZBorder, outer)
				})
				c.States.Add(1)
			}
		}
	})
	c.Part("every one of %d styled texts inside every one of %d styles, boxes in boxes", len(ls), len(ls))
	if done < n {
		c.Partial("nested texts")
	}
	c.Outcome("nested")
}

// reads parses the colour of one rendered character.
func reads(out string) (fg, bg string, ok bool) {
	t := vk.NewTerm(3, 1)
	t.WriteString(out)
	a := t.Cells[0][0].A
	return a.FG, a.BG, t.Cells[0][0].S == "x"
}

func convert(c *vk.C, col style.Color) bool {
	ok := true
	for _, tc := range caps {
		c.Evals.Add(1)
		fg, bg, read := reads(style.Render(style.New().Foreground(col).Background(col).TerminalCapability(tc), "x"))
		if !read {
			fg = "unreadable"
		}
		for _, s := range []string{shown(fg, &col, tc), shown(bg, &col, tc)} {
			if s != "" {
				c.Fail("conversion", fmt.Sprintf("%v on a terminal with %v: %s", of(col), tc, s), col.Hex())
				ok = false
			}
		}
	}
	return ok
}

func conversions(c *vk.C, step int) {
	// what a terminal is said to support
	for i, tc := range []style.TerminalCapability{style.NoColor, style.ANSI16, style.ANSI256, style.TrueColor} {
		got := [4]bool{true, tc.Supports16Color(), tc.Supports256Color(), tc.SupportsTrueColor()}
		if got != [4]bool{true, i >= 1, i >= 2, i >= 3} || tc.SupportsColor() != (i >= 1) {
			c.Fail("capability", fmt.Sprintf("%v supports 16 colours %t, 256 colours %t, true colour %t, any colour %t", tc, got[1], got[2], got[3], tc.SupportsColor()), i)
		}
	}
	// the palette
	for i := range 256 {
		c.States.Add(1)
		for _, col := range []style.Color{style.Color256(uint8(i)), style.Color16(uint8(i))} {
			if of(col) != palette[i] {
				c.Fail("palette", fmt.Sprintf("colour %d is %v instead of %v", i, of(col), palette[i]), i)
			}
			convert(c, col)
			if i >= 16 && col == style.Color256(uint8(i)) {
				fg, _, _ := reads(style.Render(style.New().Foreground(col).TerminalCapability(value.ANSI256), "x"))
				if n, err := strconv.Atoi(fg); err != nil || palette[n] != palette[i] {
					c.Fail("round-trip", fmt.Sprintf("colour %d is shown as %s on a terminal with 256 colours", i, fg), i)
				}
			}
			if i < 16 {
				fg, _, _ := reads(style.Render(style.New().Foreground(col).TerminalCapability(value.ANSI16), "x"))
				if fg != strconv.Itoa(i) {
					c.Fail("round-trip", fmt.Sprintf("colour %d is shown as %s on a terminal with 16 colours", i, fg), i)
				}
			}
		}
	}
	c.Part("the whole palette of 256 colours on every terminal")
	// the colour space
	var lev []int
	for i := range 256 {
		// and all components near the middle between two levels of the palette
		edge := i < 10 || i > 235 || i == 64 || i == 192
		for _, m := range []int{47, 48, 63, 115, 128, 155, 195} {
			edge = edge || i >= m-1 && i <= m+1
		}
		if i%step == 0 || edge {
			lev = append(lev, i)
		}
	}
	k := len(lev)
	done := c.Parallel(k*k, func(i int) {
		for _, b := range lev {
			if !convert(c, style.RGB(uint8(lev[i%k]), uint8(lev[i/k]), uint8(b))) {
				return
			}
			c.States.Add(1)
		}
	})
	c.Part("every colour with components from %d levels on every terminal", k)
	if done < k*k {
		c.Partial("colours in steps of %d", step)
	}
	c.Outcome("conversions")
}

// hex: all short strings as hexadecimal colours.
func hex(c *vk.C, maxLen int) {
	const alphabet = "#0aF9g+ x"
	val := func(b byte) int {
		switch {
		case b >= '0' && b <= '9':
			return int(b - '0')
		case b >= 'a' && b <= 'f':
			return int(b-'a') + 10
		case b >= 'A' && b <= 'F':
			return int(b-'A') + 10
		}
		return -1
	}
	try := func(s string) {
		c.Evals.Add(1)
		d := strings.TrimPrefix(s, "#")
		valid := len(d) == 3 || len(d) == 6
		var v []int
		for i := range len(d) {
			v = append(v, val(d[i]))
			valid = valid && v[i] >= 0
		}
		got, err := style.Hex(s)
		if (err == nil) != valid {
			c.Fail("hex-valid", fmt.Sprintf("Hex(%q) gives %v, %v", s, got, err), s)
			return
		}
		if !valid {
			return
		}
		if len(v) == 3 {
			v = []int{v[0], v[0], v[1], v[1], v[2], v[2]}
		}
		if want := (rgb{v[0]*16 + v[1], v[2]*16 + v[3], v[4]*16 + v[5]}); of(got) != want {
			c.Fail("hex", fmt.Sprintf("Hex(%q) is %v instead of %v", s, of(got), want), s)
		}
		if again, err := style.Hex(got.Hex()); err != nil || again != got {
			c.Fail("hex-again", fmt.Sprintf("the colour %v is written as %q, which reads as %v", of(got), got.Hex(), again), s)
		}
	}
	total, p := 0, 1
	for k := 0; k <= maxLen; k++ {
		total += p
		p *= len(alphabet)
	}
	done := c.Parallel(total, func(code int) {
		k, p := 0, 1
		for code >= p {
			code -= p
			p *= len(alphabet)
			k++
		}
		s := make([]byte, k)
		for i := range s {
			s[i] = alphabet[code%len(alphabet)]
			code /= len(alphabet)
		}
		try(string(s))
	})
	for i := range 4096 {
		try(fmt.Sprintf("%03x", i))
		try(fmt.Sprintf("#%03X", i))
		try(fmt.Sprintf("#%06x", i*4097))
	}
	c.Part("all strings of up to %d of %d characters as hexadecimal colours", maxLen, len(alphabet))
	if done < total {
		c.Partial("hexadecimal colours")
	}
	c.Outcome("hex")
}

// sweeps: long texts, many lines and many styled words in one text.
func sweeps(c *vk.C, lim int) {
	ls := looks([]int{0, 5, 15}, caps[:3])
	bs := boxes()[:6]
	done := c.Parallel(lim, func(i int) {
		n := i + 1
		var wide, lines string
		for k := range n {
			wide += []string{"W", "a", "b", "C"}[k%4]
			lines += []string{"a|", "|", "bW|"}[k%3]
		}
		for li, l := range ls {
			b := bs[(li+n)%len(bs)]
			for _, t := range []string{strings.Repeat("x", n), wide, lines} {
				d, _ := b.Draw(t)
				out := style.Render(l.apply(b.Style()), sty.Text(t))
				compare(c, out, fmt.Sprintf("%q as %s %v", t, l, b), d, func(_, _ int, k sty.Cell) look {
					return l.on(k.Zone == sty.ZBorder, look{tc: l.tc})
				})
				c.States.Add(1)
			}
			// words of all styles, one after another
			var row []sty.Cell
			var text string
			of := func(k int) look { o := ls[(k*5+li+n)%len(ls)]; o.tc = l.tc; return o }
			for k := range n {
				word := []string{"a", "bW", "c d"}[k%3]
				if k%4 != 3 {
					text += style.Render(of(k).apply(style.New()), sty.Text(word))
				} else {
					text += sty.Text(word)
				}
				w, _ := sty.New().Draw(word)
				for _, q := range w[0] {
					q.Zone = 100 + k
					row = append(row, q)
				}
			}
			inner := [][]sty.Cell{row}
			d, _ := b.DrawCells(inner)
			compare(c, style.Render(l.apply(b.Style()), text), fmt.Sprintf("%d words as %s %v", n, l, b), d, func(_, _ int, k sty.Cell) look {
				outer := l.on(k.Zone == sty.ZBorder, look{tc: l.tc})
				if k.Zone != sty.ZText {
					return outer
				}
				w := inner[k.Line][k.At].Zone - 100
				if w%4 == 3 {
					return outer
				}
				return of(w).on(false, outer)
			})
			c.States.Add(1)
		}
	})
	c.Part("texts of up to %d characters, lines and styled words", lim)
	if done < lim {
		c.Partial("sweeps")
	}
	c.Outcome("sweeps")
}

func main() {
	vk.Main("C14", "model_checking", 0, func(c *vk.C) {
		single(c)
		nested(c, vk.Pick(c, []int{0, 1, 12}, []int{0, 1, 2, 4, 8, 15}), vk.Pick(c, caps[:2], caps), vk.Pick(c, 2, 1))
		sweeps(c, vk.Pick(c, 90, 200))
		conversions(c, vk.Pick(c, 4, 1))
		hex(c, vk.Pick(c, 6, 7))
		c.Rule("all combinations of colours, attributes, capabilities and boxes, alone and nested, every cell of an emulated terminal compared; the palette, a grid of the colour space and all short hexadecimal strings")
	})
}
