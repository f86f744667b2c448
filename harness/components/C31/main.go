// C31: multi-line text area against a reference editor with a kill ring.
package main

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea"
)

type ref struct {
	lines    []string
	row, col int // col in runes
	ring     string
	h        int
	maxL     int
	maxC     int
	ro       bool
	nums     bool
	show     bool
	ph       string
	guard    bool // positions refused: see refused
	vi       bool // a key binding mode without any keys
	events   string
}

func (r ref) copy() ref {
	r.lines = append([]string(nil), r.lines...)
	return r
}

func rl(s string) int { return len([]rune(s)) }

func (r *ref) text() string { return strings.Join(r.lines, "\n") }

// at is the position of the cursor in the text, in runes.
func (r *ref) at() int {
	n := r.col
	for i := 0; i < r.row; i++ {
		n += rl(r.lines[i]) + 1
	}
	return n
}

// splice replaces runes [a,b) of the whole text and puts the cursor behind the insertion.
func (r *ref) splice(a, b int, ins string) {
	t := []rune(r.text())
	before := string(t[:a]) + ins
	r.lines = strings.Split(before+string(t[b:]), "\n")
	bl := strings.Split(before, "\n")
	r.row, r.col = len(bl)-1, rl(bl[len(bl)-1])
}

func (r *ref) posOf(n int) (int, int) {
	bl := strings.Split(string([]rune(r.text())[:n]), "\n")
	return len(bl) - 1, rl(bl[len(bl)-1])
}

// refused are the positions the movement validator refuses: a prompt of two
// columns, one position inside the text, and everything from the fourth row on.
func refused(row, col int) bool {
	return row < 0 || row > 2 || row == 0 && col < 2 || row == 1 && col == 1
}

func (r *ref) allowed(row, col int) bool { return !r.guard || !refused(row, col) }

func (r *ref) note(f string, a ...any) {
	if r.guard {
		r.events += fmt.Sprintf(f, a...) + ";"
	}
}

func (r *ref) move(row, col int) {
	if row == r.row && col == r.col {
		return
	}
	if !r.allowed(row, col) {
		r.note("blocked %d,%d", row, col)
		return
	}
	r.note("moved %d,%d>%d,%d", r.row, r.col, row, col)
	r.row, r.col = row, col
}

func boundary(c rune) bool { return strings.ContainsRune(" \t.,;:!?()[]{}/\\|-_=+*&%$#@~`'\"<>", c) }

func (r *ref) room() int {
	if r.maxC <= 0 {
		return 1 << 30
	}
	return max(0, r.maxC-rl(r.text()))
}

func (r *ref) insert(s string) {
	if r.ro {
		return
	}
	for _, c := range s {
		if r.room() == 0 || c == '\n' && r.maxL > 0 && len(r.lines) >= r.maxL {
			return
		}
		p := r.at()
		r.splice(p, p, string(c))
	}
}

// retreat is a deletion that moves the cursor back to rune a.
func (r *ref) retreat(a int) bool {
	row, col := r.posOf(a)
	if !r.allowed(row, col) {
		r.note("blocked %d,%d", row, col)
		return false
	}
	r.splice(a, r.at(), "")
	return true
}

var keys = []struct {
	name string
	k    tea.KeyMsg
	f    func(r *ref)
}{
	{"", tea.KeyMsg{Type: tea.KeyLeft}, (*ref).left}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'b', Ctrl: true}, (*ref).left},
	{"", tea.KeyMsg{Type: tea.KeyRight}, (*ref).right}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'f', Ctrl: true}, (*ref).right},
	{"", tea.KeyMsg{Type: tea.KeyUp}, (*ref).up}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'p', Ctrl: true}, (*ref).up},
	{"", tea.KeyMsg{Type: tea.KeyDown}, (*ref).down}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'n', Ctrl: true}, (*ref).down},
	{"", tea.KeyMsg{Type: tea.KeyHome}, (*ref).home}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'a', Ctrl: true}, (*ref).home},
	{"", tea.KeyMsg{Type: tea.KeyEnd}, (*ref).end}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'E', Ctrl: true}, (*ref).end},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: '<', Alt: true}, func(r *ref) { r.move(0, 0) }},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: '>', Alt: true}, func(r *ref) { r.move(len(r.lines)-1, rl(r.lines[len(r.lines)-1])) }},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'f', Alt: true}, func(r *ref) {
		l, c := []rune(r.lines[r.row]), r.col
		for c < len(l) && !boundary(l[c]) {
			c++
		}
		for c < len(l) && boundary(l[c]) {
			c++
		}
		r.move(r.row, c)
	}},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'b', Alt: true}, func(r *ref) { r.move(r.row, r.wordStart()) }},
	{"", tea.KeyMsg{Type: tea.KeyBackspace}, (*ref).backspace}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'h', Ctrl: true}, (*ref).backspace},
	{"", tea.KeyMsg{Type: tea.KeyDelete}, (*ref).delete}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'd', Ctrl: true}, (*ref).delete},
	{"", tea.KeyMsg{Type: tea.KeyEnter}, func(r *ref) { r.insert("\n") }}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'm', Ctrl: true}, func(r *ref) { r.insert("\n") }},
	{"", tea.KeyMsg{Type: tea.KeySpace, Rune: ' '}, func(r *ref) { r.insert(" ") }},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'x'}, func(r *ref) { r.insert("x") }},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: '漢'}, func(r *ref) { r.insert("漢") }},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'k', Ctrl: true}, func(r *ref) {
		if r.ro {
			return
		}
		p, l := r.at(), rl(r.lines[r.row])
		n := l - r.col
		if n == 0 {
			if r.row == len(r.lines)-1 {
				return
			}
			n = 1
		}
		r.ring = string([]rune(r.text())[p : p+n])
		r.splice(p, p+n, "")
	}},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'u', Ctrl: true}, func(r *ref) {
		old, p := r.col, r.at()
		r.home()
		if r.ro || old <= r.col {
			return
		}
		r.ring = string([]rune(r.text())[r.at():p])
		r.splice(r.at(), p, "")
	}},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'w', Ctrl: true}, (*ref).killWordBack}, {"", tea.KeyMsg{Type: tea.KeyBackspace, Alt: true}, (*ref).killWordBack},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'd', Alt: true}, func(r *ref) {
		l, c := []rune(r.lines[r.row]), r.col
		for c < len(l) && !boundary(l[c]) {
			c++
		}
		if r.ro || c == r.col {
			return
		}
		p := r.at()
		r.ring = string(l[r.col:c])
		r.splice(p, p+c-r.col, "")
	}},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'y', Ctrl: true}, func(r *ref) { r.insert(r.ring) }},
	{"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'q', Ctrl: true}, func(r *ref) {}}, {"", tea.KeyMsg{Type: tea.KeyRune, Rune: 'q', Alt: true}, func(r *ref) {}},
	{"", tea.KeyMsg{Type: tea.KeyEsc}, func(r *ref) {}}, {"", tea.KeyMsg{Type: tea.KeyTab}, func(r *ref) {}},
}

func (r *ref) left() {
	if r.col > 0 {
		r.move(r.row, r.col-1)
	} else if r.row > 0 {
		r.move(r.row-1, rl(r.lines[r.row-1]))
	}
}
func (r *ref) right() {
	if r.col < rl(r.lines[r.row]) {
		r.move(r.row, r.col+1)
	} else if r.row < len(r.lines)-1 {
		r.move(r.row+1, 0)
	}
}
func (r *ref) up() {
	if r.row > 0 {
		r.move(r.row-1, min(r.col, rl(r.lines[r.row-1])))
	} else if !r.allowed(-1, r.col) {
		r.note("blocked -1,%d", r.col)
	}
}
func (r *ref) down() {
	if r.row < len(r.lines)-1 {
		r.move(r.row+1, min(r.col, rl(r.lines[r.row+1])))
	} else if !r.allowed(r.row+1, r.col) {
		r.note("blocked %d,%d", r.row+1, r.col)
	}
}
func (r *ref) home() {
	for c := 0; c <= rl(r.lines[r.row]); c++ {
		if r.allowed(r.row, c) {
			r.move(r.row, c)
			return
		}
	}
	r.note("blocked %d,0", r.row)
}
func (r *ref) end() { r.move(r.row, rl(r.lines[r.row])) }
func (r *ref) wordStart() int {
	l, c := []rune(r.lines[r.row]), r.col
	for c > 0 && boundary(l[c-1]) {
		c--
	}
	for c > 0 && !boundary(l[c-1]) {
		c--
	}
	return c
}
func (r *ref) backspace() {
	if !r.ro && r.at() > 0 {
		r.retreat(r.at() - 1)
	}
}
func (r *ref) delete() {
	if p := r.at(); !r.ro && p < rl(r.text()) {
		row, col := r.row, r.col
		r.splice(p, p+1, "")
		r.row, r.col = row, col
	}
}
func (r *ref) killWordBack() {
	c := r.wordStart()
	if r.ro || c == r.col {
		return
	}
	k := string([]rune(r.lines[r.row])[c:r.col])
	if r.retreat(r.at() - (r.col - c)) {
		r.ring = k
	}
}

type node struct {
	ta  input.TextArea
	r   ref
	log *string
}

// view checks that the text is a window of the lines around the cursor.
func (r ref) view(v string) string {
	if len(r.lines) == 1 && r.lines[0] == "" {
		plain := strip(v)
		if plain != r.ph && !(r.ph == "" && strings.TrimSpace(plain) == "") {
			return fmt.Sprintf("empty text area shows %q", v)
		}
		return ""
	}
	if r.h == 0 {
		return ""
	}
	for s := 0; s < len(r.lines); s++ {
		e := min(len(r.lines), s+r.h)
		if r.row < s || r.row >= e {
			continue
		}
		var want []string
		for i := s; i < e; i++ {
			l := r.lines[i]
			if i == r.row && r.show {
				rs := []rune(l)
				if r.col == len(rs) {
					l += "\x1b[7m \x1b[27m"
				} else {
					l = string(rs[:r.col]) + "\x1b[7m" + string(rs[r.col]) + "\x1b[27m" + string(rs[r.col+1:])
				}
			}
			if r.nums {
				l = fmt.Sprintf("%4d ", i+1) + l
			}
			want = append(want, l)
		}
		if v == strings.Join(want, "\n") {
			return ""
		}
	}
	return fmt.Sprintf("view %q is not a window of height %d around row %d col %d of %q", v, r.h, r.row, r.col, r.lines)
}

func strip(v string) string {
	var b strings.Builder
	for v != "" {
		if strings.HasPrefix(v, "\x1b[") {
			if e := strings.IndexByte(v, 'm'); e > 0 {
				v = v[e+1:]
				continue
			}
		}
		b.WriteByte(v[0])
		v = v[1:]
	}
	return b.String()
}

func check(n node) (string, string) {
	r := n.r
	if n.ta.Value() != r.text() {
		return "value", fmt.Sprintf("text %q, want %q", n.ta.Value(), r.text())
	}
	row, col := n.ta.CursorPosition()
	if row != r.row || col != r.col {
		return "cursor", fmt.Sprintf("cursor %d,%d, want %d,%d in %q", row, col, r.row, r.col, r.lines)
	}
	if row < 0 || row >= len(r.lines) || col < 0 || col > rl(r.lines[row]) {
		return "cursor", fmt.Sprintf("cursor %d,%d outside the text", row, col)
	}
	if fmt.Sprintf("%q", n.ta.Lines()) != fmt.Sprintf("%q", r.lines) || n.ta.LineCount() != len(r.lines) || n.ta.CurrentLine() != r.lines[r.row] || n.ta.IsEmpty() != (r.text() == "") {
		return "lines", fmt.Sprintf("lines %q current %q, want %q", n.ta.Lines(), n.ta.CurrentLine(), r.lines)
	}
	b, a, f := n.ta.ContentParts()
	rs := []rune(r.lines[r.row])
	wb, wa, wf := string(rs[:r.col]), " ", ""
	if r.col < len(rs) {
		wa, wf = string(rs[r.col]), string(rs[r.col+1:])
	}
	if b != wb || a != wa || f != wf {
		return "parts", fmt.Sprintf("parts %q %q %q, want %q %q %q", b, a, f, wb, wa, wf)
	}
	if n.ta.HasSelection() || n.ta.SelectedText() != "" {
		return "selection", "there is a selection"
	}
	if bad := r.view(n.ta.View()); bad != "" {
		return "view", bad
	}
	return "", ""
}

func main() {
	vk.Main("C31", "model_checking", 0, func(c *vk.C) {
		c.Rule("breadth-first over editor states: every sequence of keys and calls up to the depth from several texts, in lockstep with a reference editor; the value operated on must not change; movement handlers must see exactly the reference's events")
		var ops []vk.Op[node]
		op := func(name string, f func(t input.TextArea) input.TextArea, g func(r *ref)) {
			ops = append(ops, vk.Op[node]{Name: name, Do: func(n node) (node, bool, string, string) {
				before, bv := n.ta.Value(), n.ta.View()
				br, bc := n.ta.CursorPosition()
				ev := ""
				t := n.ta
				if n.r.guard {
					t = guard(t, &ev)
				}
				nx := node{ta: f(t), r: n.r.copy()}
				g(&nx.r)
				ar, ac := n.ta.CursorPosition()
				if n.ta.Value() != before || n.ta.View() != bv || ar != br || ac != bc {
					return nx, true, "mutated", "the text area the operation was called on changed"
				}
				if nx.r.guard {
					if ev != nx.r.events {
						return nx, true, "events", fmt.Sprintf("handlers saw %q, want %q", ev, nx.r.events)
					}
					nx.ta = guard(nx.ta, new(string))
				}
				nx.r.events = ""
				return nx, true, "", ""
			}})
		}
		key1 := func(k tea.KeyMsg, f func(r *ref)) {
			op("key "+k.String(), func(t input.TextArea) input.TextArea { n, _ := t.Update(k); return n }, func(r *ref) {
				if !r.vi {
					f(r)
				}
			})
		}
		for _, k := range keys {
			key1(k.k, k.f)
		}
		nkeys := len(ops)
		for _, k := range keys { // the same letter in the other case
			if k.k.Type == tea.KeyRune && (k.k.Ctrl || k.k.Alt) && unicode.IsLetter(k.k.Rune) {
				o := k.k
				if o.Rune = unicode.ToUpper(o.Rune); o == k.k {
					o.Rune = unicode.ToLower(o.Rune)
				}
				key1(o, k.f)
			}
		}
		for _, m := range []input.KeybindingMode{input.KeybindingsDefault, input.KeybindingsEmacs, input.KeybindingsVi} {
			op(fmt.Sprint("key bindings ", m), func(t input.TextArea) input.TextArea { return t.Keybindings(m) }, func(r *ref) { r.vi = m == input.KeybindingsVi })
		}
		for _, s := range []string{"", "one two\nthree\n\nfour, five", "漢字\nxy"} {
			op(fmt.Sprintf("set %q", s), func(t input.TextArea) input.TextArea { return t.SetValue(s) }, func(r *ref) { r.lines = strings.Split(s, "\n"); r.row, r.col = 0, 0 })
		}
		for _, p := range [][2]int{{0, 0}, {1, 99}, {99, 1}, {-1, 2}, {3, -5}} {
			op(fmt.Sprint("cursor to ", p), func(t input.TextArea) input.TextArea { return t.SetCursorPosition(p[0], p[1]) }, func(r *ref) {
				r.row = max(0, min(p[0], len(r.lines)-1))
				r.col = max(0, min(p[1], rl(r.lines[r.row])))
			})
		}
		op("cursor to end", func(t input.TextArea) input.TextArea { return t.MoveCursorToEnd() }, func(r *ref) { r.row = len(r.lines) - 1; r.col = rl(r.lines[r.row]) })
		for _, h := range []int{0, 1, 2, 3} {
			op(fmt.Sprint("height ", h), func(t input.TextArea) input.TextArea { return t.Height(h) }, func(r *ref) { r.h = h })
		}
		op("size 5x-2", func(t input.TextArea) input.TextArea { return t.Size(5, -2) }, func(r *ref) { r.h = 0 })
		op("width 3", func(t input.TextArea) input.TextArea { return t.Width(3) }, func(r *ref) {})
		for _, m := range []int{0, 2, 4} {
			op(fmt.Sprint("max lines ", m), func(t input.TextArea) input.TextArea { return t.MaxLines(m) }, func(r *ref) { r.maxL = m })
			op(fmt.Sprint("max chars ", m), func(t input.TextArea) input.TextArea { return t.MaxChars(m * 4) }, func(r *ref) { r.maxC = m * 4 })
		}
		for _, b := range []bool{true, false} {
			op(fmt.Sprint("read only ", b), func(t input.TextArea) input.TextArea { return t.ReadOnly(b) }, func(r *ref) { r.ro = b })
			op(fmt.Sprint("line numbers ", b), func(t input.TextArea) input.TextArea { return t.ShowLineNumbers(b) }, func(r *ref) { r.nums = b })
			op(fmt.Sprint("show cursor ", b), func(t input.TextArea) input.TextArea { return t.ShowCursor(b) }, func(r *ref) { r.show = b })
			op(fmt.Sprint("wrap ", b), func(t input.TextArea) input.TextArea { return t.Wrap(b) }, func(r *ref) {})
		}
		op("placeholder", func(t input.TextArea) input.TextArea { return t.Placeholder("hint") }, func(r *ref) { r.ph = "hint" })
		op("window size", func(t input.TextArea) input.TextArea {
			n, _ := t.Update(tea.WindowSizeMsg{Width: 1, Height: 1})
			return n
		}, func(r *ref) {})
		mk := func(text string, row, col, h int, grd bool) vk.Named[node] {
			t := input.NewTextArea().Height(h).SetValue(text).SetCursorPosition(row, col)
			r := ref{lines: strings.Split(text, "\n"), row: row, col: col, h: h, show: true, guard: grd}
			if grd {
				t = guard(t, new(string))
			}
			return vk.Named[node]{Name: fmt.Sprintf("%q at %d,%d height %d guarded %v", text, row, col, h, grd), N: node{ta: t, r: r}}
		}
		key := func(n node) string { return vk.Dump(n.ta) + fmt.Sprintf("%+v", n.r) }
		all := vk.Space[node]{Label: "all operations", Ops: ops, Check: check, Depth: vk.Pick(c, 5, 6), Max: vk.Pick(c, 1000000, 2000000), Sample: 9000, Key: key, Full: true,
			Init: []vk.Named[node]{{Name: "new", N: node{ta: input.NewTextArea(), r: ref{lines: []string{""}, h: 24, show: true}}}, mk("a b\nc", 0, 1, 2, false)}}
		all.Run(c)
		kinit := []vk.Named[node]{mk("", 0, 0, 2, false), mk("foo bar\n\n(x) 漢y.", 0, 3, 2, false), mk("foo bar\n\n(x) 漢y.", 2, 4, 1, false), mk("  a--b  \nc", 0, 5, 3, false),
			mk("> cmd arg", 0, 6, 2, true), mk("> cmd\nab\n", 1, 1, 2, true), mk("> ", 0, 2, 1, true)}
		ks := vk.Space[node]{Label: "keys", Ops: ops[:nkeys], Check: check, Depth: vk.Pick(c, 5, 6), Max: vk.Pick(c, 1500000, 2000000), Sample: 9000, Key: key, Full: true, Init: kinit}
		ks.Run(c)
		// Every word separator, one by one: only the word keys, to the end of the line and back.
		var words []vk.Op[node]
		for i, k := range keys {
			if k.k.Alt && (k.k.Rune == 'f' || k.k.Rune == 'b' || k.k.Rune == 'd') || k.k.Alt && k.k.Type == tea.KeyBackspace {
				words = append(words, ops[i])
			}
		}
		var wi []vk.Named[node]
		for _, p := range " \t.,;:!?()[]{}/\\|-_=+*&%$#@~`'\"<>é1\u00a0漢^\u2014" {
			wi = append(wi, mk("ab"+string(p)+"c"+string(p)+string(p)+"d", 0, 0, 1, false))
		}
		ws := vk.Space[node]{Label: "word separators", Ops: words, Check: check, Depth: vk.Pick(c, 5, 7), Max: vk.Pick(c, 60000, 400000), Sample: 9000, Key: key, Full: true, Init: wi}
		ws.Run(c)
		// long texts, in long runs of keys
		var long, wide []string
		for i := 0; i < 130; i++ {
			long = append(long, strings.Repeat(fmt.Sprintf("w%d 漢, ", i), i%7))
		}
		for i := 0; i < 6; i++ {
			wide = append(wide, strings.Repeat("some words 漢字 (x) ", 3+5*i))
		}
		var li []vk.Named[node]
		for _, h := range []int{1, 10, 24, 60} {
			for _, p := range [][2]int{{0, 0}, {65, 9}, {129, 14}} {
				li = append(li, mk(strings.Join(long, "\n"), p[0], p[1], h, false))
			}
		}
		for _, p := range [][2]int{{0, 3}, {3, 150}, {5, 504}} {
			li = append(li, mk(strings.Join(wide, "\n"), p[0], p[1], 24, false))
		}
		li = append(li, mk("", 0, 0, 24, false))
		nums := mk(strings.Join(long, "\n"), 99, 3, 24, false)
		nums.N.ta, nums.N.r.nums = nums.N.ta.ShowLineNumbers(true), true
		limits := mk(strings.Join(long, "\n"), 99, 3, 24, false)
		limits.N.ta, limits.N.r.maxL = limits.N.ta.MaxLines(140), 140
		limits.N.ta, limits.N.r.maxC = limits.N.ta.MaxChars(rl(strings.Join(long, "\n"))+70), rl(strings.Join(long, "\n"))+70
		nums.Name, limits.Name = "130 lines with numbers", "130 lines and limits"
		li = append(li, nums, limits)
		for i := range li {
			if len(li[i].Name) > 60 {
				li[i].Name = fmt.Sprintf("%d lines at %d,%d height %d", len(li[i].N.r.lines), li[i].N.r.row, li[i].N.r.col, li[i].N.r.h)
			}
		}
		all2 := append([]vk.Op[node](nil), ops[:nkeys]...)
		lr := vk.Runs[node]{Label: "long texts", Init: li, Check: check, Key: key, Phases: []vk.Phase[node]{
			{Ops: all2, Reps: []int{1, 24, vk.Pick(c, 70, 140)}},
			{Ops: all2, Reps: []int{1, 2, vk.Pick(c, 3, 30)}},
			{Ops: vk.ByName(ops, "key ctrl+y", "height 3"), Reps: []int{1}},
		}}
		lr.Run(c)
	})
}

// guard installs a validator that protects a prompt of two columns and records the handlers' calls.
func guard(t input.TextArea, log *string) input.TextArea {
	row, col := t.CursorPosition()
	return t.OnMovement(func(from, to input.CursorPos) bool {
		if from.Row != row || from.Col != col {
			*log += fmt.Sprintf("validator asked about a move from %d,%d;", from.Row, from.Col)
		}
		return !refused(to.Row, to.Col)
	}).
		OnCursorMoved(func(from, to input.CursorPos) {
			*log += fmt.Sprintf("moved %d,%d>%d,%d;", from.Row, from.Col, to.Row, to.Col)
		}).
		OnBoundaryHit(func(to input.CursorPos, reason string) { *log += fmt.Sprintf("blocked %d,%d;", to.Row, to.Col) })
}
