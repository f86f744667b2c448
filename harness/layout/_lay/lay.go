// Package lay is a reference model of layout boxes and flex containers, built
// from the documentation: a box is margin, border, padding and content, in
// that order; a container places the outer boxes one after the other.
package lay

import (
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/layout"
)

// Tok is one text element with its width in columns.
type Tok struct {
	S string
	W int
}

// A text is a list of lines of elements.
type Text [][]Tok

var elements = map[string]Tok{
	"W": {"世", 2}, "C": {"é", 1}, "E": {"e\u0301", 1}, "M": {"👋\U0001f3fb", 2}, "F": {"👨\u200d👩\u200d👧", 2}, "G": {"🇩🇪", 2}, "H": {"❤\ufe0f", 2}, "K": {"각", 2}, "R": {"→", 1},
}

// T builds a text: lower-case letters, digits and spaces stand for themselves,
// capital letters for the elements above, | separates lines.
func T(s string) Text {
	var t Text
	for _, l := range strings.Split(s, "|") {
		var toks []Tok
		for _, c := range l {
			if e, ok := elements[string(c)]; ok {
				toks = append(toks, e)
			} else {
				toks = append(toks, Tok{string(c), 1})
			}
		}
		t = append(t, toks)
	}
	return t
}

func (t Text) String() string {
	var ls []string
	for _, l := range t {
		s := ""
		for _, k := range l {
			s += k.S
		}
		ls = append(ls, s)
	}
	return strings.Join(ls, "\n")
}

// Box is the reference box. The spacings are top, right, bottom, left;
// constraints below zero are not set.
type Box struct {
	Text                             Text
	Pad, Mar                         [4]int
	Border                           bool
	Width, Height                    int
	MinWidth, MaxWidth, MinHt, MaxHt int
	Horizontal, Vertical             int // 0 start, 1 middle, 2 end
}

func New(text string) Box {
	return Box{Text: T(text), Width: -1, Height: -1, MinWidth: -1, MaxWidth: -1, MinHt: -1, MaxHt: -1}
}

func (b Box) String() string {
	s := fmt.Sprintf("%q", b.Text.String())
	if b.Pad != [4]int{} {
		s += fmt.Sprint(" padding ", b.Pad)
	}
	if b.Border {
		s += " border"
	}
	if b.Mar != [4]int{} {
		s += fmt.Sprint(" margin ", b.Mar)
	}
	for _, k := range []struct {
		n string
		v int
	}{{"width", b.Width}, {"height", b.Height}, {"min width", b.MinWidth}, {"max width", b.MaxWidth}, {"min height", b.MinHt}, {"max height", b.MaxHt}} {
		if k.v >= 0 {
			s += fmt.Sprintf(" %s %d", k.n, k.v)
		}
	}
	return s
}

// Real builds the real box.
func (b Box) Real() *layout.Box {
	r := layout.NewBox(b.Text.String())
	if b.Pad != [4]int{} {
		r = r.Padding(b.Pad[0], b.Pad[1], b.Pad[2], b.Pad[3])
	}
	if b.Border {
		r = r.Border()
	}
	if b.Mar != [4]int{} {
		r = r.Margin(b.Mar[0], b.Mar[1], b.Mar[2], b.Mar[3])
	}
	if b.Width >= 0 {
		r = r.Width(b.Width)
	}
	if b.Height >= 0 {
		r = r.Height(b.Height)
	}
	if b.MinWidth >= 0 {
		r = r.MinWidth(b.MinWidth)
	}
	if b.MaxWidth >= 0 {
		r = r.MaxWidth(b.MaxWidth)
	}
	if b.MinHt >= 0 {
		r = r.MinHeight(b.MinHt)
	}
	if b.MaxHt >= 0 {
		r = r.MaxHeight(b.MaxHt)
	}
	return r
}

func (b Box) content() (w, h int) {
	for _, l := range b.Text {
		n := 0
		for _, k := range l {
			n += k.W
		}
		w = max(w, n)
	}
	return w, len(b.Text)
}

// Outer is the size the box takes in a layout: a border adds one cell of
// blank space on every side, in addition to its own line.
func (b Box) Outer() (w, h int) {
	w, h = b.content()
	w += b.Pad[1] + b.Pad[3] + b.Mar[1] + b.Mar[3]
	h += b.Pad[0] + b.Pad[2] + b.Mar[0] + b.Mar[2]
	if b.Border {
		w, h = w+4, h+4
	}
	con := func(v, exact, lo, hi int) int {
		if exact >= 0 {
			return exact
		}
		if lo >= 0 {
			v = max(v, lo)
		}
		if hi >= 0 {
			v = min(v, hi)
		}
		return v
	}
	return con(w, b.Width, b.MinWidth, b.MaxWidth), con(h, b.Height, b.MinHt, b.MaxHt)
}

// Cell is a cell of a drawing; the right half of a wide element is empty.
type Cell string

// Draw is the box as cells, without size constraints.
func (b Box) Draw() [][]Cell {
	cw, _ := b.content()
	pl, pr := b.Pad[3], b.Pad[1]
	if b.Border {
		pl, pr = pl+1, pr+1
	}
	inner := pl + cw + pr
	var rows [][]Cell
	blank := func(n int) []Cell {
		r := make([]Cell, n)
		for i := range r {
			r[i] = " "
		}
		return r
	}
	full := inner + b.Mar[1] + b.Mar[3]
	if b.Border {
		full += 2
	}
	line := func(l, fill, r string, mid []Cell) {
		row := blank(b.Mar[3])
		if b.Border {
			row = append(row, Cell(l))
		}
		if mid == nil {
			for i := 0; i < inner; i++ {
				row = append(row, Cell(fill))
			}
		} else {
			row = append(row, mid...)
		}
		if b.Border {
			row = append(row, Cell(r))
		}
		rows = append(rows, append(row, blank(b.Mar[1])...))
	}
	for i := 0; i < b.Mar[0]; i++ {
		rows = append(rows, blank(full))
	}
	if b.Border {
		line("┌", "─", "┐", nil)
	}
	for i := 0; i < b.Pad[0]; i++ {
		line("│", " ", "│", nil)
	}
	for _, l := range b.Text {
		mid := blank(pl)
		for _, k := range l {
			mid = append(mid, Cell(k.S))
			for i := 1; i < k.W; i++ {
				mid = append(mid, "")
			}
		}
		line("│", " ", "│", append(mid, blank(inner-len(mid))...))
	}
	for i := 0; i < b.Pad[2]; i++ {
		line("│", " ", "│", nil)
	}
	if b.Border {
		line("└", "─", "┘", nil)
	}
	for i := 0; i < b.Mar[2]; i++ {
		rows = append(rows, blank(full))
	}
	return rows
}

// Join is a row as text.
func Join(r []Cell) string {
	var sb strings.Builder
	for _, c := range r {
		sb.WriteString(string(c))
	}
	return sb.String()
}

// Compare judges the rendered text of the box: a bordered box is the exact
// rectangle; without a border trailing blanks may be missing.
func (b Box) Compare(got string) string {
	rows := b.Draw()
	lines := strings.Split(got, "\n")
	if len(lines) != len(rows) {
		return fmt.Sprintf("%s is rendered as %d lines, should be %d: %q", b, len(lines), len(rows), got)
	}
	for i, r := range rows {
		want, have := Join(r), lines[i]
		if !b.Border {
			if len(have) > len(want) {
				return fmt.Sprintf("line %d of %s is %q, longer than %q", i, b, have, want)
			}
			want, have = strings.TrimRight(want, " "), strings.TrimRight(have, " ")
		}
		if want != have {
			return fmt.Sprintf("line %d of %s is %q, should be %q", i, b, have, want)
		}
	}
	return ""
}

// Flex is the reference container.
type Flex struct {
	Column  bool
	Justify int // 0 start, 1 end, 2 center, 3 space between
	Align   int // 0 stretch, 1 start, 2 end, 3 center
	Gap     int
	Items   []Box
}

func (f Flex) String() string {
	s := "row"
	if f.Column {
		s = "column"
	}
	s += " justify " + []string{"start", "end", "center", "space-between"}[f.Justify] + " align " + []string{"stretch", "start", "end", "center"}[f.Align]
	if f.Gap > 0 {
		s += fmt.Sprint(" gap ", f.Gap)
	}
	for _, b := range f.Items {
		s += "; " + b.String()
	}
	return s
}

// Configure applies the options to a real container.
func (f Flex) Configure(r *layout.Flex) *layout.Flex {
	switch f.Justify {
	case 0:
		r = r.JustifyStart()
	case 1:
		r = r.JustifyEnd()
	case 2:
		r = r.JustifyCenter()
	case 3:
		r = r.JustifySpaceBetween()
	}
	switch f.Align {
	case 0:
		r = r.AlignStretch()
	case 1:
		r = r.AlignStart()
	case 2:
		r = r.AlignEnd()
	case 3:
		r = r.AlignCenter()
	}
	return r.Gap(f.Gap)
}

// Real builds the real container.
func (f Flex) Real() *layout.Flex {
	r := layout.Row()
	if f.Column {
		r = layout.Column()
	}
	r = f.Configure(r)
	for _, b := range f.Items {
		r = r.Add(b.Real())
	}
	return r
}

// Positions of the outer boxes.
func (f Flex) Positions(w, h int) [][2]int {
	total := f.Gap * max(len(f.Items)-1, 0)
	main, cross := w, h
	if f.Column {
		main, cross = h, w
	}
	size := func(b Box) (m, x int) {
		bw, bh := b.Outer()
		if f.Column {
			return bh, bw
		}
		return bw, bh
	}
	for _, b := range f.Items {
		m, _ := size(b)
		total += m
	}
	free := max(main-total, 0)
	at, extra := 0, 0
	switch f.Justify {
	case 1:
		at = free
	case 2:
		at = free / 2
	case 3:
		if len(f.Items) > 1 {
			extra = free / (len(f.Items) - 1)
		}
	}
	var out [][2]int
	for _, b := range f.Items {
		m, x := size(b)
		off := 0
		switch f.Align {
		case 2:
			off = max(cross-x, 0)
		case 3:
			off = max((cross-x)/2, 0)
		}
		if f.Column {
			out = append(out, [2]int{off, at})
		} else {
			out = append(out, [2]int{at, off})
		}
		at += m + f.Gap + extra
	}
	return out
}

// Draw is the text of the container.
func (f Flex) Draw(w, h int) string {
	w, h = max(w, 0), max(h, 0)
	grid := make([][]Cell, h)
	for y := range grid {
		grid[y] = make([]Cell, w)
		for x := range grid[y] {
			grid[y][x] = " "
		}
	}
	pos := f.Positions(w, h)
	for i, b := range f.Items {
		for dy, row := range b.Draw() {
			y := pos[i][1] + dy
			if y >= h {
				break
			}
			for dx := 0; dx < len(row); {
				n := 1
				for dx+n < len(row) && row[dx+n] == "" {
					n++
				}
				x := pos[i][0] + dx
				if x+n > w {
					break
				}
				copy(grid[y][x:], row[dx:dx+n])
				dx += n
			}
		}
	}
	ls := make([]string, h)
	for y := range grid {
		ls[y] = Join(grid[y])
	}
	return strings.Join(ls, "\n")
}
