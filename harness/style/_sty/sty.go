// Package sty is a reference model of styled text, built from the
// documentation: the text is aligned in the target size, then surrounded by
// padding, border and margin in that order, then coloured.
package sty

import (
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
)

// Tok is one text element with its width in columns.
type Tok struct {
	S string
	W int
}

var elements = map[rune]Tok{
	'W': {"世", 2}, 'C': {"é", 1}, 'E': {"e\u0301", 1}, 'M': {"👋\U0001f3fb", 2}, 'F': {"👨\u200d👩\u200d👧", 2}, 'K': {"각", 2}, 'R': {"→", 1},
}

// Toks splits a line: capital letters stand for the elements above.
func Toks(s string) []Tok {
	var out []Tok
	for _, c := range s {
		if e, ok := elements[c]; ok {
			out = append(out, e)
		} else {
			out = append(out, Tok{string(c), 1})
		}
	}
	return out
}

// Text writes out a text in the notation of Toks, with | between lines.
func Text(s string) string {
	var b strings.Builder
	for _, k := range Toks(s) {
		if k.S == "|" {
			k.S = "\n"
		}
		b.WriteString(k.S)
	}
	return b.String()
}

// Zones of a drawing.
const (
	ZText = iota
	ZFill // alignment and padding
	ZBorder
	ZMargin
)

// Cell is one element of a drawing. Line and At say which element of the text it is.
type Cell struct {
	Tok
	Zone     int
	Line, At int
}

// Spec is the reference style; below zero means not set. Spacings are top,
// right, bottom, left; Sides are the border sides in the same order.
type Spec struct {
	HasBorder              bool
	Border                 style.Border
	Sides                  [4]bool
	HasPad, HasMar         bool
	Pad, Mar               [4]int
	Width, Height          int
	MinW, MaxW, MinH, MaxH int
	HasAlign               bool
	H, V                   int
}

// New is the style without any setting.
func New() Spec { return Spec{Width: -1, Height: -1, MinW: -1, MaxW: -1, MinH: -1, MaxH: -1} }

// Style builds the real style.
func (b Spec) Style() style.Style {
	s := style.New()
	if b.HasBorder {
		s = s.Border(b.Border).BorderTop(b.Sides[0]).BorderRight(b.Sides[1]).BorderBottom(b.Sides[2]).BorderLeft(b.Sides[3])
	}
	if b.HasPad {
		s = s.Padding(style.NewPadding(b.Pad[0], b.Pad[1], b.Pad[2], b.Pad[3]))
	}
	if b.HasMar {
		s = s.Margin(style.NewMargin(b.Mar[0], b.Mar[1], b.Mar[2], b.Mar[3]))
	}
	if b.Width >= 0 {
		s = s.Width(b.Width)
	}
	if b.Height >= 0 {
		s = s.Height(b.Height)
	}
	if b.MinW >= 0 {
		s = s.MinWidth(b.MinW)
	}
	if b.MaxW >= 0 {
		s = s.MaxWidth(b.MaxW)
	}
	if b.MinH >= 0 {
		s = s.MinHeight(b.MinH)
	}
	if b.MaxH >= 0 {
		s = s.MaxHeight(b.MaxH)
	}
	if b.HasAlign {
		s = s.Align(value.NewAlignment(value.HorizontalAlignment(b.H), value.VerticalAlignment(b.V)))
	}
	return s
}

func (b Spec) String() string {
	var p []string
	add := func(f string, a ...any) { p = append(p, fmt.Sprintf(f, a...)) }
	if b.HasBorder {
		add("border %s%s%s sides %v", b.Border.TopLeft, b.Border.Top, b.Border.TopRight, b.Sides)
	}
	if b.HasPad {
		add("padding %v", b.Pad)
	}
	if b.HasMar {
		add("margin %v", b.Mar)
	}
	for _, k := range []struct {
		n string
		v int
	}{{"width", b.Width}, {"height", b.Height}, {"min width", b.MinW}, {"max width", b.MaxW}, {"min height", b.MinH}, {"max height", b.MaxH}} {
		if k.v >= 0 {
			add("%s %d", k.n, k.v)
		}
	}
	if b.HasAlign {
		add("aligned %s %s", []string{"left", "center", "right"}[b.H], []string{"top", "middle", "bottom"}[b.V])
	}
	return "[" + strings.Join(p, ", ") + "]"
}

// Width of a list of cells.
func Width(l []Cell) int {
	n := 0
	for _, c := range l {
		n += c.W
	}
	return n
}

func fill(n, zone int) []Cell {
	var out []Cell
	for range n {
		out = append(out, Cell{Tok{" ", 1}, zone, 0, 0})
	}
	return out
}

func cat(parts ...[]Cell) []Cell {
	var out []Cell
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func widest(ls [][]Cell) int {
	n := 0
	for _, l := range ls {
		n = max(n, Width(l))
	}
	return n
}

func surround(ls [][]Cell, sp [4]int, zone int) [][]Cell {
	w := widest(ls)
	var out [][]Cell
	for range sp[0] {
		out = append(out, fill(sp[3]+w+sp[1], zone))
	}
	for _, l := range ls {
		out = append(out, cat(fill(sp[3], zone), l, fill(w-Width(l), ZFill), fill(sp[1], zone)))
	}
	for range sp[2] {
		out = append(out, fill(sp[3]+w+sp[1], zone))
	}
	return out
}

// Draw is the expected drawing of a non-empty text; ok is false if the style's
// limits forbid the box, so that the text is left as it is.
func (b Spec) Draw(text string) (drawing [][]Cell, ok bool) {
	var ls [][]Cell
	for _, l := range strings.Split(text, "|") {
		var cs []Cell
		for _, k := range Toks(l) {
			cs = append(cs, Cell{k, ZText, 0, 0})
		}
		ls = append(ls, cs)
	}
	return b.DrawCells(ls)
}

// DrawCells is Draw for a text that is itself a drawing.
func (b Spec) DrawCells(text [][]Cell) (drawing [][]Cell, ok bool) {
	var ls [][]Cell
	for y, l := range text {
		var cs []Cell
		for x, k := range l {
			cs = append(cs, Cell{k.Tok, ZText, y, x})
		}
		ls = append(ls, cs)
	}
	plain := ls
	// size and alignment of the text
	if b.HasAlign || b.Width > 0 || b.Height > 0 {
		w, h := widest(ls), len(ls)
		if b.Width > 0 {
			w = b.Width
		}
		if b.Height > 0 {
			h = b.Height
		}
		var al [][]Cell
		for _, l := range ls {
			n := 0
			for k := range l {
				if Width(l[:k+1]) > w {
					break
				}
				n = k + 1
			}
			l = l[:n]
			rest := w - Width(l)
			left := []int{0, (rest + 1) / 2, rest}[b.H]
			al = append(al, cat(fill(left, ZFill), l, fill(rest-left, ZFill)))
		}
		ls = al
		if len(ls) > h {
			ls = ls[:h]
		}
		rest := h - len(ls)
		top := []int{0, (rest + 1) / 2, rest}[b.V]
		var v [][]Cell
		for range top {
			v = append(v, fill(w, ZFill))
		}
		v = append(v, ls...)
		for len(v) < h {
			v = append(v, fill(w, ZFill))
		}
		ls = v
	}
	if b.HasPad {
		ls = surround(ls, b.Pad, ZFill)
	}
	if b.HasBorder && b.Sides != [4]bool{} {
		w := widest(ls)
		var out [][]Cell
		edge := func(l, m, r string) {
			var e []Cell
			one := func(on bool, s string) {
				if on {
					e = append(e, Cell{Tok{s, 1}, ZBorder, 0, 0})
				}
			}
			one(b.Sides[3], l)
			for range w {
				one(true, m)
			}
			one(b.Sides[1], r)
			out = append(out, e)
		}
		if b.Sides[0] {
			edge(b.Border.TopLeft, b.Border.Top, b.Border.TopRight)
		}
		for _, l := range ls {
			l = cat(l, fill(w-Width(l), ZFill))
			if b.Sides[3] {
				l = cat([]Cell{{Tok{b.Border.Left, 1}, ZBorder, 0, 0}}, l)
			}
			if b.Sides[1] {
				l = append(l, Cell{Tok{b.Border.Right, 1}, ZBorder, 0, 0})
			}
			out = append(out, l)
		}
		if b.Sides[2] {
			edge(b.Border.BottomLeft, b.Border.Bottom, b.Border.BottomRight)
		}
		ls = out
	}
	if b.HasMar {
		ls = surround(ls, b.Mar, ZMargin)
	}
	w, h := widest(ls), len(ls)
	if b.MinW > w || b.MinH > h || b.MaxW >= 0 && w > b.MaxW || b.MaxH >= 0 && h > b.MaxH {
		return plain, false
	}
	return ls, true
}

// Join writes a drawing as text.
func Join(d [][]Cell) string {
	var b strings.Builder
	for i, l := range d {
		if i > 0 {
			b.WriteByte('\n')
		}
		for _, c := range l {
			b.WriteString(c.S)
		}
	}
	return b.String()
}

// Strip removes the escape sequences from a text.
func Strip(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			i += 2
			for i < len(s) && (s[i] < 0x40 || s[i] > 0x7e) {
				i++
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// Frame shows where lines of a text end.
func Frame(s string) string { return "|" + strings.ReplaceAll(s, "\n", "|\n|") + "|" }
