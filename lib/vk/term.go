package vk

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Attr is the rendition of a cell.
type Attr struct {
	FG, BG                                                       string
	Bold, Dim, Italic, Underline, Blink, Reverse, Hidden, Strike bool
}

func (a Attr) String() string {
	var p []string
	if a.FG != "" {
		p = append(p, "fg="+a.FG)
	}
	if a.BG != "" {
		p = append(p, "bg="+a.BG)
	}
	for _, f := range []struct {
		on bool
		n  string
	}{{a.Bold, "bold"}, {a.Dim, "dim"}, {a.Italic, "italic"}, {a.Underline, "underline"}, {a.Blink, "blink"}, {a.Reverse, "reverse"}, {a.Hidden, "hidden"}, {a.Strike, "strike"}} {
		if f.on {
			p = append(p, f.n)
		}
	}
	return strings.Join(p, "+")
}

// Cell of the emulated screen. S=="" with W==0 is the right half of a wide character.
type Cell struct {
	S string
	W int
	A Attr
}

var blank = Cell{S: " ", W: 1}

// Term is a small terminal emulator (xterm semantics: deferred wrap, scrolling).
type Term struct {
	W, H       int
	Cells      [][]Cell
	X, Y       int
	Pending    bool // deferred wrap
	Cur        Attr
	Visible    bool
	Alt        bool
	Modes      map[string]bool
	Title      string
	Scrollback [][]Cell
	SavedX     int
	SavedY     int
	SavedOK    bool
	Unknown    []string // sequences not understood
	OSC        []string
	Clears     int // full-screen erasures
	Bells      int
	LFOnly     bool // "\n" does not return to column 0 (raw mode)
	AltErrors  int

	mainCells    [][]Cell
	mainX, mainY int
	esc          []byte
	state        int
	utf          []byte
	Top, Bot     int
}

const (
	stGround = iota
	stEsc
	stCSI
	stOSC
	stOSCEsc
	stStr
)

// NewTerm makes a blank terminal.
func NewTerm(w, h int) *Term {
	t := &Term{W: w, H: h, Visible: true, Modes: map[string]bool{}}
	t.Cells = newGrid(w, h)
	t.Top, t.Bot = 0, h-1
	return t
}

func newGrid(w, h int) [][]Cell {
	g := make([][]Cell, h)
	row := make([]Cell, w*h)
	for x := range min(w, len(row)) {
		row[x] = blank
	}
	for y := range g {
		g[y] = row[y*w : (y+1)*w : (y+1)*w]
		if y > 0 {
			copy(g[y], g[0])
		}
	}
	return g
}

// Clone copies the terminal.
func (t *Term) Clone() *Term {
	n := *t
	cp := func(g [][]Cell) [][]Cell {
		if g == nil {
			return nil
		}
		o := make([][]Cell, len(g))
		for i := range g {
			o[i] = append([]Cell(nil), g[i]...)
		}
		return o
	}
	n.Cells, n.mainCells, n.Scrollback = cp(t.Cells), cp(t.mainCells), cp(t.Scrollback)
	n.Modes = map[string]bool{}
	for k, v := range t.Modes {
		n.Modes[k] = v
	}
	n.Unknown = append([]string(nil), t.Unknown...)
	n.OSC = append([]string(nil), t.OSC...)
	n.esc = append([]byte(nil), t.esc...)
	n.utf = append([]byte(nil), t.utf...)
	return &n
}

// Resize changes the size, keeping the top-left content (no reflow).
func (t *Term) Resize(w, h int) {
	g := newGrid(w, h)
	for y := 0; y < h && y < t.H; y++ {
		copy(g[y], t.Cells[y])
	}
	t.Cells, t.W, t.H = g, w, h
	t.Top, t.Bot = 0, h-1
	if t.X >= w {
		t.X = w - 1
	}
	if t.Y >= h {
		t.Y = h - 1
	}
	t.Pending = false
}

// Write implements io.Writer.
func (t *Term) Write(p []byte) (int, error) {
	for _, b := range p {
		t.put(b)
	}
	return len(p), nil
}

// WriteString feeds s.
func (t *Term) WriteString(s string) { _, _ = t.Write([]byte(s)) }

func (t *Term) put(b byte) {
	switch t.state {
	case stGround:
		if len(t.utf) > 0 {
			if b&0xC0 == 0x80 {
				t.utf = append(t.utf, b)
				if utf8.FullRune(t.utf) {
					r, _ := utf8.DecodeRune(t.utf)
					t.utf = t.utf[:0]
					t.rune(r)
				}
				return
			}
			t.utf = t.utf[:0]
			t.rune(utf8.RuneError)
		}
		switch {
		case b == 0x1b:
			t.state, t.esc = stEsc, t.esc[:0]
		case b == '\n':
			t.lf()
			if !t.LFOnly {
				t.X = 0
			}
			t.Pending = false
		case b == '\r':
			t.X, t.Pending = 0, false
		case b == '\b':
			if t.X > 0 {
				t.X--
			}
			t.Pending = false
		case b == '\t':
			t.X = (t.X/8 + 1) * 8
			if t.X >= t.W {
				t.X = t.W - 1
			}
		case b == 7:
			t.Bells++
		case b < 0x20 || b == 0x7f:
			// other control characters do nothing
		case b < 0x80:
			t.rune(rune(b))
		default:
			t.utf = append(t.utf[:0], b)
			if utf8.FullRune(t.utf) {
				t.utf = t.utf[:0]
				t.rune(utf8.RuneError)
			}
		}
	case stEsc:
		switch b {
		case '[':
			t.state = stCSI
		case ']':
			t.state = stOSC
		case 'P', 'X', '^', '_':
			t.state = stStr
		case '7':
			t.SavedX, t.SavedY, t.SavedOK, t.state = t.X, t.Y, true, stGround
		case '8':
			t.restore()
			t.state = stGround
		case 'c':
			*t = *NewTerm(t.W, t.H)
		case '\\':
			t.state = stGround
		case '=', '>':
			t.state = stGround
		case 0x1b:
			t.Unknown = append(t.Unknown, "ESC ESC")
		default:
			t.Unknown = append(t.Unknown, "ESC "+string(rune(b)))
			t.state = stGround
		}
	case stCSI:
		if b >= 0x40 && b <= 0x7e {
			t.state = stGround
			t.csi(string(t.esc), b)
			return
		}
		if b < 0x20 || len(t.esc) > 200 {
			t.Unknown = append(t.Unknown, fmt.Sprintf("CSI %q broken by %#x", t.esc, b))
			t.state = stGround
			if b == 0x1b { // starts another sequence
				t.state, t.esc = stEsc, t.esc[:0]
			}
			return
		}
		t.esc = append(t.esc, b)
	case stOSC, stStr:
		if b == 7 && t.state == stOSC {
			t.OSC = append(t.OSC, string(t.esc))
			t.state = stGround
			return
		}
		if b == 0x1b {
			t.state = stOSCEsc
			return
		}
		t.esc = append(t.esc, b)
	case stOSCEsc:
		t.OSC = append(t.OSC, string(t.esc))
		t.state = stGround
		if b != '\\' {
			t.Unknown = append(t.Unknown, "unterminated OSC")
			t.state = stEsc
			t.put(b)
		}
	}
}

func (t *Term) restore() {
	if t.SavedOK {
		t.X, t.Y = t.SavedX, t.SavedY
	} else {
		t.X, t.Y = 0, 0
	}
	if t.X >= t.W {
		t.X = t.W - 1
	}
	if t.Y >= t.H {
		t.Y = t.H - 1
	}
	t.Pending = false
}

func (t *Term) lf() {
	if t.Y == t.Bot {
		t.scroll(1)
	} else if t.Y < t.H-1 {
		t.Y++
	}
}

func (t *Term) scroll(n int) {
	for ; n > 0; n-- {
		if !t.Alt {
			t.Scrollback = append(t.Scrollback, t.Cells[t.Top])
		}
		copy(t.Cells[t.Top:], t.Cells[t.Top+1:t.Bot+1])
		t.Cells[t.Bot] = t.blankRow()
	}
}

func (t *Term) blankRow() []Cell {
	r := make([]Cell, t.W)
	for i := range r {
		r[i] = t.eraseCell()
	}
	return r
}

func (t *Term) eraseCell() Cell {
	return Cell{S: " ", W: 1, A: Attr{BG: t.Cur.BG}}
}

// RuneWidth is the emulator's own idea of the width of a code point.
func RuneWidth(r rune) int {
	switch {
	case r < 0x300:
		return 1
	case r == 0x200d || r == 0x200b || r == 0xfe0f || r == 0xfe0e || r == 0x2060 || r == 0xfeff:
		return 0
	case r >= 0x300 && r <= 0x36f, r >= 0x1ab0 && r <= 0x1aff, r >= 0x20d0 && r <= 0x20ff, r >= 0x1f3fb && r <= 0x1f3ff:
		return 0
	case r >= 0x4e00 && r <= 0x9fff, r >= 0xac00 && r <= 0xd7a3:
		return 2
	case InRanges(EAWWide, r):
		return 2
	case InRanges(CombiningMarks, r):
		return 0
	}
	return 1
}

func (t *Term) rune(r rune) {
	w := RuneWidth(r)
	if w == 0 {
		x, y := t.X-1, t.Y
		if t.Pending {
			x = t.X
		}
		if x >= 0 {
			if t.Cells[y][x].W == 0 && x > 0 {
				x--
			}
			t.Cells[y][x].S += string(r)
		}
		return
	}
	if t.Pending {
		t.Pending = false
		t.X = 0
		t.lf()
	}
	if w == 2 && t.X == t.W-1 {
		if t.W < 2 {
			return
		}
		t.X = 0
		t.lf()
	}
	t.setCell(t.X, t.Y, Cell{S: string(r), W: w, A: t.Cur})
	t.X += w
	if t.X >= t.W {
		t.X = t.W - 1
		t.Pending = true
	}
}

func (t *Term) wipe(x, y int) {
	// overwriting half of a wide character blanks the other half
	c := t.Cells[y][x]
	if c.W == 0 && x > 0 {
		t.Cells[y][x-1] = Cell{S: " ", W: 1, A: t.Cells[y][x-1].A}
	}
	if c.W == 2 && x+1 < t.W {
		t.Cells[y][x+1] = Cell{S: " ", W: 1, A: c.A}
	}
}

func (t *Term) setCell(x, y int, c Cell) {
	t.wipe(x, y)
	if c.W == 2 {
		t.wipe(x+1, y)
	}
	t.Cells[y][x] = c
	if c.W == 2 {
		t.Cells[y][x+1] = Cell{S: "", W: 0, A: c.A}
	}
}

func (t *Term) erase(x0, y0, x1, y1 int) {
	for y := y0; y <= y1; y++ {
		a, b := 0, t.W-1
		if y == y0 {
			a = x0
		}
		if y == y1 {
			b = x1
		}
		for x := a; x <= b && x < t.W; x++ {
			t.wipe(x, y)
			t.Cells[y][x] = t.eraseCell()
		}
	}
}

func (t *Term) csi(p string, fin byte) {
	priv := byte(0)
	if p != "" && (p[0] == '?' || p[0] == '>' || p[0] == '<' || p[0] == '=') {
		priv = p[0]
		p = p[1:]
	}
	inter := ""
	for len(p) > 0 && p[len(p)-1] >= 0x20 && p[len(p)-1] <= 0x2f {
		inter = string(p[len(p)-1]) + inter
		p = p[:len(p)-1]
	}
	var ps []int
	bad := false
	if p != "" {
		for _, f := range strings.FieldsFunc(strings.ReplaceAll(p, ";", " ; "), func(r rune) bool { return r == ' ' }) {
			if f == ";" {
				continue
			}
			n, err := strconv.Atoi(f)
			if err != nil || n < 0 {
				bad = true
			}
			ps = append(ps, n)
		}
		// empty parameters count as 0
		if strings.Contains(p, ";") {
			ps = ps[:0]
			for _, f := range strings.Split(p, ";") {
				if f == "" {
					ps = append(ps, 0)
					continue
				}
				n, err := strconv.Atoi(f)
				if err != nil || n < 0 {
					bad = true
				}
				ps = append(ps, n)
			}
		}
	}
	unknown := func() {
		pr := ""
		if priv != 0 {
			pr = string(rune(priv))
		}
		t.Unknown = append(t.Unknown, "CSI "+pr+p+inter+string(rune(fin)))
	}
	if bad {
		unknown()
		return
	}
	arg := func(i, def int) int {
		if i < len(ps) && ps[i] != 0 {
			return ps[i]
		}
		return def
	}
	if inter != "" {
		if inter == " " && fin == 'q' {
			for m := range t.Modes { // a terminal has one cursor style
				if strings.HasPrefix(m, "cursorstyle=") {
					delete(t.Modes, m)
				}
			}
			t.Modes["cursorstyle="+p] = true
			return
		}
		unknown()
		return
	}
	if priv == '?' {
		if fin != 'h' && fin != 'l' {
			unknown()
			return
		}
		for _, n := range ps {
			on := fin == 'h'
			switch n {
			case 25:
				t.Visible = on
			case 1049, 1047, 47:
				t.altMode(on, n == 1049)
			default:
				if on {
					t.Modes[strconv.Itoa(n)] = true
				} else {
					delete(t.Modes, strconv.Itoa(n))
				}
			}
		}
		return
	}
	if priv != 0 {
		unknown()
		return
	}
	clampMove := func(x, y int) {
		if x < 0 {
			x = 0
		}
		if x >= t.W {
			x = t.W - 1
		}
		if y < 0 {
			y = 0
		}
		if y >= t.H {
			y = t.H - 1
		}
		t.X, t.Y, t.Pending = x, y, false
	}
	switch fin {
	case 'A':
		clampMove(t.X, t.Y-arg(0, 1))
	case 'B':
		clampMove(t.X, t.Y+arg(0, 1))
	case 'C':
		clampMove(t.X+arg(0, 1), t.Y)
	case 'D':
		clampMove(t.X-arg(0, 1), t.Y)
	case 'E':
		clampMove(0, t.Y+arg(0, 1))
	case 'F':
		clampMove(0, t.Y-arg(0, 1))
	case 'G', '`':
		clampMove(arg(0, 1)-1, t.Y)
	case 'd':
		clampMove(t.X, arg(0, 1)-1)
	case 'H', 'f':
		clampMove(arg(1, 1)-1, arg(0, 1)-1)
	case 'J':
		switch arg(0, 0) {
		case 0:
			t.erase(t.X, t.Y, t.W-1, t.H-1)
		case 1:
			t.erase(0, 0, t.X, t.Y)
		case 2:
			t.Clears++
			t.erase(0, 0, t.W-1, t.H-1)
		case 3:
			t.Scrollback = nil
		default:
			unknown()
		}
	case 'K':
		switch arg(0, 0) {
		case 0:
			t.erase(t.X, t.Y, t.W-1, t.Y)
		case 1:
			t.erase(0, t.Y, t.X, t.Y)
		case 2:
			t.erase(0, t.Y, t.W-1, t.Y)
		default:
			unknown()
		}
	case 'L', 'M':
		n := arg(0, 1)
		for i := 0; i < n && i < t.H; i++ {
			if fin == 'L' {
				copy(t.Cells[t.Y+1:t.Bot+1], t.Cells[t.Y:t.Bot])
				t.Cells[t.Y] = t.blankRow()
			} else {
				copy(t.Cells[t.Y:], t.Cells[t.Y+1:t.Bot+1])
				t.Cells[t.Bot] = t.blankRow()
			}
		}
		t.X, t.Pending = 0, false
	case 'P':
		n := arg(0, 1)
		row := t.Cells[t.Y]
		for x := t.X; x < t.W; x++ {
			if x+n < t.W {
				row[x] = row[x+n]
			} else {
				row[x] = t.eraseCell()
			}
		}
	case 'X':
		n := arg(0, 1)
		e := t.X + n - 1
		if e >= t.W {
			e = t.W - 1
		}
		t.erase(t.X, t.Y, e, t.Y)
	case 'S':
		t.scroll(arg(0, 1))
	case 'T':
		for i := 0; i < arg(0, 1) && i < t.H; i++ {
			copy(t.Cells[t.Top+1:t.Bot+1], t.Cells[t.Top:t.Bot])
			t.Cells[t.Top] = t.blankRow()
		}
	case 's':
		t.SavedX, t.SavedY, t.SavedOK = t.X, t.Y, true
	case 'u':
		t.restore()
	case 'm':
		if !t.sgr(ps) {
			unknown()
		}
	case 'h', 'l', 'r', 'n', 'c':
		unknown()
	default:
		unknown()
	}
}

// altMode switches screens; only mode 1049 saves and restores the cursor.
func (t *Term) altMode(on, cursor bool) {
	if on == t.Alt {
		t.AltErrors++
		return
	}
	if on {
		t.mainCells = t.Cells
		if t.mainX, t.mainY = 0, 0; cursor {
			t.mainX, t.mainY = t.X, t.Y
		}
		t.Cells = newGrid(t.W, t.H)
		t.Alt = true
	} else {
		t.Cells = t.mainCells
		if cursor {
			t.X, t.Y = t.mainX, t.mainY
		}
		t.mainCells = nil
		t.Alt = false
		t.Pending = false
	}
}

func (t *Term) sgr(ps []int) bool {
	if len(ps) == 0 {
		ps = []int{0}
	}
	a := &t.Cur
	for i := 0; i < len(ps); i++ {
		n := ps[i]
		switch {
		case n == 0:
			*a = Attr{}
		case n == 1:
			a.Bold = true
		case n == 2:
			a.Dim = true
		case n == 3:
			a.Italic = true
		case n == 4:
			a.Underline = true
		case n == 5:
			a.Blink = true
		case n == 7:
			a.Reverse = true
		case n == 8:
			a.Hidden = true
		case n == 9:
			a.Strike = true
		case n == 22:
			a.Bold, a.Dim = false, false
		case n == 23:
			a.Italic = false
		case n == 24:
			a.Underline = false
		case n == 25:
			a.Blink = false
		case n == 27:
			a.Reverse = false
		case n == 28:
			a.Hidden = false
		case n == 29:
			a.Strike = false
		case n >= 30 && n <= 37:
			a.FG = strconv.Itoa(n - 30)
		case n >= 90 && n <= 97:
			a.FG = strconv.Itoa(n - 90 + 8)
		case n == 39:
			a.FG = ""
		case n >= 40 && n <= 47:
			a.BG = strconv.Itoa(n - 40)
		case n >= 100 && n <= 107:
			a.BG = strconv.Itoa(n - 100 + 8)
		case n == 49:
			a.BG = ""
		case n == 38 || n == 48:
			var col string
			if i+2 < len(ps) && ps[i+1] == 5 {
				if ps[i+2] > 255 {
					return false
				}
				col = strconv.Itoa(ps[i+2])
				i += 2
			} else if i+4 < len(ps) && ps[i+1] == 2 {
				if ps[i+2] > 255 || ps[i+3] > 255 || ps[i+4] > 255 {
					return false
				}
				col = fmt.Sprintf("#%02x%02x%02x", ps[i+2], ps[i+3], ps[i+4])
				i += 4
			} else {
				return false
			}
			if n == 38 {
				a.FG = col
			} else {
				a.BG = col
			}
		default:
			return false
		}
	}
	return true
}

// Row returns the text of a row without trailing blanks.
func (t *Term) Row(y int) string { return strings.TrimRight(t.FullRow(y), " ") }

// FullRow returns the text of a row.
func (t *Term) FullRow(y int) string { return cellsText(t.Cells[y]) }

func cellsText(r []Cell) string {
	var b strings.Builder
	for _, c := range r {
		if c.W == 0 {
			continue
		}
		b.WriteString(c.S)
	}
	return b.String()
}

// History returns the scrollback and screen text, trailing blanks of rows removed.
func (t *Term) History() []string {
	var out []string
	for _, r := range t.Scrollback {
		out = append(out, strings.TrimRight(cellsText(r), " "))
	}
	for y := range t.Cells {
		out = append(out, t.Row(y))
	}
	return out
}

// Screen returns all rows joined by "|".
func (t *Term) Screen() string {
	var rows []string
	for y := 0; y < t.H; y++ {
		rows = append(rows, t.FullRow(y))
	}
	return strings.Join(rows, "|")
}

// Styled returns the screen with the rendition of every cell.
func (t *Term) Styled() string {
	var b strings.Builder
	for y := 0; y < t.H; y++ {
		for x := 0; x < t.W; x++ {
			c := t.Cells[y][x]
			if c.W == 0 {
				continue
			}
			b.WriteString(c.S)
			if s := c.A.String(); s != "" {
				b.WriteString("{" + s + "}")
			}
		}
		b.WriteByte('|')
	}
	return b.String()
}

// InEscape reports whether the input ended inside an escape sequence or character.
func (t *Term) InEscape() bool { return t.state != stGround || len(t.utf) > 0 }
