// Package rnd describes frames independently of the renderer and says what a
// terminal must show for them.
package rnd

import (
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/render"
	"github.com/phoenix-tui/phoenix/render/zzverif/vk"
)

// Sty is a style, described by the attributes a terminal shows for it.
type Sty struct {
	S render.Style
	A vk.Attr
}

// None is the default style.
var None = Sty{S: render.StyleDefault()}

// Mk makes a style from colours (nil: none) and attributes.
func Mk(fg, bg []uint8, bold, italic, underline, reverse bool) Sty {
	s, a := render.StyleDefault(), vk.Attr{}
	hex := func(c []uint8) string { return fmt.Sprintf("#%02x%02x%02x", c[0], c[1], c[2]) }
	switch {
	case fg != nil && bg != nil:
		s = render.StyleColors(fg[0], fg[1], fg[2], bg[0], bg[1], bg[2])
	case fg != nil:
		s = render.StyleFg(fg[0], fg[1], fg[2])
	case bg != nil:
		s = render.StyleBg(bg[0], bg[1], bg[2])
	}
	if fg != nil {
		a.FG = hex(fg)
	}
	if bg != nil {
		a.BG = hex(bg)
	}
	if bold {
		s = s.WithBold(true)
	}
	if italic {
		s = s.WithItalic(true)
	}
	if underline {
		s = s.WithUnderline(true)
	}
	if reverse {
		s = s.WithReverse(true)
	}
	a.Bold, a.Italic, a.Underline, a.Reverse = bold, italic, underline, reverse
	return Sty{s, a}
}

// All makes every combination of attributes with the given colours.
func All(colours [][]uint8) (out []Sty) {
	for _, fg := range colours {
		for _, bg := range colours {
			for m := range 16 {
				out = append(out, Mk(fg, bg, m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0))
			}
		}
	}
	return
}

// Ch is a character on the screen.
type Ch struct {
	S  string
	W  int
	St Sty
}

// Frame is a screen full of characters: every row adds up to the width.
type Frame struct {
	W, H int
	Rows [][]Ch
	want [][]vk.Cell
}

// Rows enumerates all rows of a width.
func Rows(w int, alphabet []Ch) (out [][]Ch) {
	if w == 0 {
		return [][]Ch{nil}
	}
	for _, c := range alphabet {
		if c.W > w {
			continue
		}
		for _, r := range Rows(w-c.W, alphabet) {
			out = append(out, append([]Ch{c}, r...))
		}
	}
	return
}

// Frames enumerates all frames of a size.
func Frames(w, h int, alphabet []Ch) (out []*Frame) {
	rows := Rows(w, alphabet)
	idx := make([]int, h)
	for {
		f := &Frame{W: w, H: h}
		for _, i := range idx {
			f.Rows = append(f.Rows, rows[i])
		}
		out = append(out, f)
		y := 0
		for ; y < h; y++ {
			if idx[y]++; idx[y] < len(rows) {
				break
			}
			idx[y] = 0
		}
		if y == h {
			return
		}
	}
}

// Blank is an empty frame.
func Blank(w, h int) *Frame {
	f := &Frame{W: w, H: h}
	for range h {
		var r []Ch
		for range w {
			r = append(r, Ch{" ", 1, None})
		}
		f.Rows = append(f.Rows, r)
	}
	return f
}

// Draw puts the frame in a buffer.
func (f *Frame) Draw(b *render.Buffer) {
	for y, row := range f.Rows {
		x := 0
		for _, c := range row {
			if r := []rune(c.S); len(r) == 1 && x%2 == 0 {
				b.Set(x, y, r[0], c.St.S)
			} else {
				b.SetString(x, y, c.S, c.St.S)
			}
			x += c.W
		}
	}
}

// Buffer makes a buffer with the frame.
func (f *Frame) Buffer() *render.Buffer {
	b := render.NewBuffer(f.W, f.H)
	f.Draw(b)
	return b
}

// Want is what a terminal shows.
func (f *Frame) Want() [][]vk.Cell {
	if f.want == nil {
		w := make([][]vk.Cell, f.H)
		for y, row := range f.Rows {
			for _, c := range row {
				w[y] = append(w[y], vk.Cell{S: c.S, W: c.W, A: c.St.A})
				for range c.W - 1 {
					w[y] = append(w[y], vk.Cell{A: c.St.A})
				}
			}
		}
		f.want = w
	}
	return f.want
}

func (f *Frame) String() string {
	var b strings.Builder
	for y, row := range f.Rows {
		if y > 0 {
			b.WriteString(" / ")
		}
		for _, c := range row {
			fmt.Fprintf(&b, "%q", c.S)
			if a := c.St.A.String(); a != "" {
				b.WriteString("(" + a + ")")
			}
		}
	}
	return b.String()
}

// Differs compares a terminal with what it should show.
func Differs(t *vk.Term, want [][]vk.Cell) string {
	if t.H != len(want) {
		return fmt.Sprintf("terminal has %d rows, the frame %d", t.H, len(want))
	}
	for y := range want {
		for x, c := range want[y] {
			if g := t.Cells[y][x]; g != c {
				return fmt.Sprintf("cell %d,%d shows %q (%v) instead of %q (%v)", x, y, g.S, g.A, c.S, c.A)
			}
		}
	}
	if len(t.Scrollback) > 0 {
		return "the screen scrolled"
	}
	return ""
}

// Shows compares a terminal with a frame.
func (f *Frame) Shows(t *vk.Term) string { return Differs(t, f.Want()) }

// Sink is an output that keeps its state out of dumps.
type Sink struct{ F func(p []byte) (int, error) }

func (s Sink) Write(p []byte) (int, error) { return s.F(p) }
