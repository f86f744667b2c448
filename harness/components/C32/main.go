// C32: list navigation, filtering and selection against a reference list.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/phoenix-tui/phoenix/components/list"
	"github.com/phoenix-tui/phoenix/components/list/zzv"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/style"
	tea "github.com/phoenix-tui/phoenix/tea"
)

// ref is the reference list: a plain description of what the list should hold.
type ref struct {
	labels     []string
	multi      bool
	h          int
	query      string
	fn         int // 0 default, 1 prefix, 2 never
	showFilter bool
	focus      int
	sel        map[int]bool
	custom     bool
	vim        bool
	theme      bool
}

func (r ref) copy() ref {
	s := map[int]bool{}
	for k := range r.sel {
		s[k] = true
	}
	r.sel = s
	return r
}

func (r ref) match(l string) bool {
	if r.query == "" {
		return true
	}
	switch r.fn {
	case 1:
		return strings.HasPrefix(l, r.query)
	case 2:
		return false
	}
	return strings.Contains(strings.ToLower(l), strings.ToLower(r.query))
}

func (r ref) visible() []int {
	var out []int
	for i, l := range r.labels {
		if r.match(l) {
			out = append(out, i)
		}
	}
	return out
}

func (r *ref) refilter() {
	r.sel = map[int]bool{}
	if r.focus >= len(r.visible()) {
		r.focus = 0
	}
}

type node struct {
	l *list.List
	r ref
	d string // the dump of l
}

func mkNode(l *list.List, r ref) node { return node{l, r, vk.Dump(l)} }

func key(n node) string {
	return n.d + fmt.Sprintf("|%d%q%d%v%d%v%v%v%v%v", n.r.h, n.r.query, n.r.fn, n.r.showFilter, n.r.focus, keys(n.r.sel), n.r.custom, n.r.vim, len(n.r.labels), n.r.theme)
}

func keys(m map[int]bool) []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func val(i int, l string) string { return fmt.Sprintf("v%d:%s", i, l) }

func (r ref) line(pos, idx int) string {
	sel, foc := r.sel[pos], pos == r.focus
	if r.custom {
		return fmt.Sprintf("<%s#%d %v %v>", val(idx, r.labels[idx]), pos, sel, foc)
	}
	p := "  "
	if sel {
		p = "✓ "
	}
	if foc {
		p = "> "
	}
	return p + r.labels[idx]
}

func check(n node) (string, string) {
	r := n.r
	vis := r.visible()
	// focus
	if len(vis) == 0 {
		if it := n.l.FocusedItem(); it != nil {
			return "focus", fmt.Sprintf("nothing is listed but %v has the focus", it)
		}
	} else {
		if n.l.FocusedIndex() != r.focus {
			return "focus", fmt.Sprintf("focused index is %d, should be %d of %d", n.l.FocusedIndex(), r.focus, len(vis))
		}
		want := val(vis[r.focus], r.labels[vis[r.focus]])
		if got := n.l.FocusedItem(); got != want {
			return "focus", fmt.Sprintf("focused item is %v, should be %v", got, want)
		}
	}
	// selection
	wantSel := keys(r.sel)
	gotSel := n.l.SelectedIndices()
	if fmt.Sprint(gotSel) != fmt.Sprint(wantSel) {
		return "selection", fmt.Sprintf("selected indices are %v, should be %v", gotSel, wantSel)
	}
	var wantItems []string
	for _, p := range wantSel {
		wantItems = append(wantItems, val(vis[p], r.labels[vis[p]]))
	}
	var gotItems []string
	for _, it := range n.l.SelectedItems() {
		gotItems = append(gotItems, fmt.Sprint(it))
	}
	if strings.Join(gotItems, ",") != strings.Join(wantItems, ",") {
		return "selection", fmt.Sprintf("selected items are %v, should be %v", gotItems, wantItems)
	}
	// view
	v := n.l.View()
	if v2 := n.l.View(); v2 != v {
		return "view", "two calls of View differ"
	}
	term := vk.NewTerm(40, max(12, r.h+3))
	term.WriteString(v)
	lines := strings.Split(v, "\n")
	var got []string
	for y := range lines {
		got = append(got, term.Row(y))
	}
	h := r.h
	if h < 0 {
		h = 0
	}
	rows := len(vis)
	if rows > h {
		rows = h
	}
	var body []string
	if rows == 0 {
		want := "(empty list)"
		if r.query != "" {
			want = "(no matches)"
		}
		body = []string{want}
		if got[0] != want {
			return "view", fmt.Sprintf("view shows %q, should say %q", got[0], want)
		}
		theme := style.DefaultTheme()
		if r.theme {
			theme = style.HighContrastTheme()
		}
		if w := style.Render(style.New().Foreground(theme.Colors().TextMuted), want); strings.Split(v, "\n")[0] != w {
			return "theme", fmt.Sprintf("message is drawn as %q, with the theme's muted colour it is %q", v, w)
		}
	} else {
		// a window of exactly `rows` consecutive items that contains the focused one
		ok := false
		var wins []string
		for off := 0; off+rows <= len(vis); off++ {
			if r.focus < off || r.focus >= off+rows {
				continue
			}
			body = nil
			for p := off; p < off+rows; p++ {
				body = append(body, strings.TrimRight(r.line(p, vis[p]), " "))
			}
			wins = append(wins, strings.Join(body, "/"))
			if len(got) >= rows && strings.Join(got[:rows], "/") == strings.Join(body, "/") {
				ok = true
				break
			}
		}
		if !ok {
			return "view", fmt.Sprintf("view shows %q, should be a window of %d items with the focused one: one of %q", got, rows, wins)
		}
	}
	rest := got[len(body):]
	if r.showFilter && r.query != "" {
		if len(rest) != 1 || !strings.Contains(rest[0], "Filter") {
			return "view", fmt.Sprintf("filter line missing: %q", got)
		}
	} else if len(rest) != 0 {
		return "view", fmt.Sprintf("extra lines in view: %q", rest)
	}
	return "", ""
}

func main() {
	vk.Main("C32", "model_checking", 0, func(c *vk.C) {
		c.Rule("breadth-first over all operation sequences up to the depth from lists of every size; every transition runs the real list and the reference list and compares focus, selection and the rendered window")
		sets := [][]string{
			{},
			{"a"},
			{"a", "ab"},
			{"ab", "Ba", "c"},
			{"a", "b", "Ab", "日本", "b2"},
			{"a", "", "a", "ab", "ab", ""}, // equal and empty labels
			{"a", "b", "c", "d", "e", "f", "a2"},
		}
		if c.Thorough() {
			sets = append(sets, []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "a2", "b2", "c2"})
		}
		var ops []vk.Op[node]
		add := func(name string, f func(l *list.List) *list.List, m func(r *ref)) {
			ops = append(ops, vk.Op[node]{Name: name, Do: func(n node) (node, bool, string, string) {
				nl := f(n.l)
				r := n.r.copy()
				m(&r)
				if vk.Dump(n.l) != n.d {
					return n, true, "mutated", "the operation changed the list it was called on"
				}
				return mkNode(nl, r), true, "", ""
			}})
		}
		press := func(k tea.KeyMsg) func(l *list.List) *list.List {
			return func(l *list.List) *list.List { nl, _ := l.Update(k); return nl }
		}
		key1 := func(name string, k tea.KeyMsg, m func(r *ref)) {
			add(name, press(k), m)
		}
		// if custom bindings are active, the default keys mean nothing (runes go to the filter)
		def := func(m func(r *ref, n int)) func(r *ref) {
			return func(r *ref) {
				if r.vim {
					return
				}
				m(r, len(r.visible()))
			}
		}
		up := func(r *ref, n int) {
			if n > 0 {
				r.focus = (r.focus + n - 1) % n
			}
		}
		down := func(r *ref, n int) {
			if n > 0 {
				r.focus = (r.focus + 1) % n
			}
		}
		pgup := func(r *ref, n int) {
			if n > 0 {
				r.focus = max(0, r.focus-r.h)
			}
		}
		pgdn := func(r *ref, n int) {
			if n > 0 {
				r.focus = min(n-1, r.focus+r.h)
			}
		}
		start := func(r *ref, n int) {
			if n > 0 {
				r.focus = 0
			}
		}
		end := func(r *ref, n int) {
			if n > 0 {
				r.focus = n - 1
			}
		}
		toggle := func(r *ref, n int) {
			if n == 0 {
				return
			}
			if !r.multi {
				r.sel = map[int]bool{r.focus: true}
			} else if r.sel[r.focus] {
				delete(r.sel, r.focus)
			} else {
				r.sel[r.focus] = true
			}
		}
		all := func(r *ref, n int) {
			if !r.multi || n == 0 {
				return
			}
			for i := 0; i < n; i++ {
				r.sel[i] = true
			}
		}
		clear := func(r *ref, n int) { r.sel = map[int]bool{} }
		rn := func(ch rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: ch} }
		ctrl := func(ch rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: ch, Ctrl: true} }
		runeKey := func(ch rune, m func(r *ref, n int)) func(r *ref) {
			return func(r *ref) {
				if m != nil && !r.vim {
					m(r, len(r.visible()))
					return
				}
				if r.vim && (ch == 'k' || ch == 'x') {
					if ch == 'k' {
						up(r, len(r.visible()))
					} else {
						toggle(r, len(r.visible()))
					}
					return
				}
				if r.showFilter {
					r.query = string(ch)
					r.refilter()
				}
			}
		}
		key1("up", tea.KeyMsg{Type: tea.KeyUp}, def(up))
		key1("down", tea.KeyMsg{Type: tea.KeyDown}, def(down))
		key1("k", rn('k'), runeKey('k', up))
		key1("j", rn('j'), runeKey('j', down))
		key1("pgup", tea.KeyMsg{Type: tea.KeyPgUp}, def(pgup))
		add("pgdown", press(tea.KeyMsg{Type: tea.KeyPgDown}), def(pgdn))
		key1("home", tea.KeyMsg{Type: tea.KeyHome}, def(start))
		key1("end", tea.KeyMsg{Type: tea.KeyEnd}, def(end))
		key1("g", rn('g'), runeKey('g', start))
		key1("G", rn('G'), runeKey('G', end))
		key1("space", tea.KeyMsg{Type: tea.KeySpace}, def(toggle))
		key1("esc", tea.KeyMsg{Type: tea.KeyEsc}, def(clear))
		key1("f2", tea.KeyMsg{Type: tea.KeyF2}, func(r *ref) {
			if r.vim {
				all(r, len(r.visible()))
			}
		})
		key1("f3", tea.KeyMsg{Type: tea.KeyF3}, func(r *ref) {
			if r.vim {
				r.query = ""
				r.refilter()
			}
		})
		add("other key bindings", func(l *list.List) *list.List {
			return l.KeyBindings(zzv.Bindings([2]string{"x", "move_down"}, [2]string{"k", "move_up"}, [2]string{"x", "toggle_selection"}, [2]string{"F2", "select_all"}, [2]string{"F3", "clear_filter"}, [2]string{"j", "no such action"}))
		}, func(r *ref) { r.vim = true })
		key1("x", rn('x'), runeKey('x', nil))
		key1("enter", tea.KeyMsg{Type: tea.KeyEnter}, func(r *ref) {})
		key1("ctrl+a", ctrl('a'), func(r *ref) {
			if r.vim {
				return
			}
			all(r, len(r.visible()))
		})
		key1("ctrl+d", ctrl('d'), func(r *ref) {
			if r.vim {
				return
			}
			pgdn(r, len(r.visible()))
		})
		key1("ctrl+u", ctrl('u'), func(r *ref) {
			if r.vim {
				return
			}
			pgup(r, len(r.visible()))
		})
		for _, m := range []tea.KeyMsg{ctrl('b'), {Type: tea.KeyRune, Rune: 'a', Alt: true}, {Type: tea.KeyRune, Rune: 'z', Alt: true}, {Type: tea.KeyRune, Rune: '日', Alt: true}} {
			key1(m.String(), m, func(r *ref) {})
		}
		key1("type a", rn('a'), runeKey('a', nil))
		key1("type c", rn('c'), runeKey('c', nil))
		key1("type B", rn('B'), runeKey('B', nil))
		key1("type 日", rn('日'), runeKey('日', nil))
		key1("backspace", tea.KeyMsg{Type: tea.KeyBackspace}, func(r *ref) {
			if r.showFilter {
				r.query = ""
				r.refilter()
			}
		})
		for _, h := range []int{-1, 0, 1, 2, 3, 10} {
			add(fmt.Sprintf("height %d", h), func(l *list.List) *list.List { return l.Height(h) }, func(r *ref) { r.h = max(h, 0) })
		}
		add("filter prefix", func(l *list.List) *list.List {
			return l.Filter(func(it interface{}, q string) bool {
				s := it.(string)
				return strings.HasPrefix(s[strings.Index(s, ":")+1:], q)
			})
		}, func(r *ref) { r.fn = 1; r.refilter() })
		add("filter none", func(l *list.List) *list.List {
			return l.Filter(func(interface{}, string) bool { return false })
		}, func(r *ref) { r.fn = 2; r.refilter() })
		add("show filter", func(l *list.List) *list.List { return l.ShowFilter(true) }, func(r *ref) { r.showFilter = true })
		add("hide filter", func(l *list.List) *list.List { return l.ShowFilter(false) }, func(r *ref) { r.showFilter = false })
		add("custom renderer", func(l *list.List) *list.List {
			return l.ItemRenderer(func(it interface{}, i int, s, f bool) string { return fmt.Sprintf("<%s#%d %v %v>", it, i, s, f) })
		}, func(r *ref) { r.custom = true })
		add("theme", func(l *list.List) *list.List { return l.Theme(style.HighContrastTheme()) }, func(r *ref) { r.theme = true })
		add("other message", func(l *list.List) *list.List {
			nl, _ := l.Update(tea.WindowSizeMsg{Width: 10, Height: 3})
			return nl
		}, func(r *ref) {})

		for si, labels := range sets {
			for _, multi := range []bool{false, true} {
				values := make([]interface{}, len(labels))
				for i, l := range labels {
					values[i] = val(i, l)
				}
				l := list.NewSingleSelect(values, labels)
				if multi {
					l = list.NewMultiSelect(values, labels)
				}
				var init []vk.Named[node]
				for _, h := range []int{1, 2, 3, 10} {
					init = append(init, vk.Named[node]{Name: fmt.Sprintf("%d items multi=%v height=%d", len(labels), multi, h),
						N: mkNode(l.Height(h), ref{labels: labels, multi: multi, h: h, sel: map[int]bool{}})})
					init = append(init, vk.Named[node]{Name: fmt.Sprintf("%d items multi=%v height=%d filter shown", len(labels), multi, h),
						N: mkNode(l.Height(h).ShowFilter(true), ref{labels: labels, multi: multi, h: h, sel: map[int]bool{}, showFilter: true})})
				}
				depth := vk.Pick(c, 4, 6)
				if si < 4 {
					depth = vk.Pick(c, 5, 7)
				}
				s := vk.Space[node]{Label: fmt.Sprintf("list of %d multi=%v", len(labels), multi), Init: init, Ops: ops, Key: key, Check: check, Depth: depth,
					Max: vk.Pick(c, 60000, 1000000), Sample: 2000, Full: true}
				s.Run(c)
			}
		}
		large(c, ops)
		quit(c)
	})
}

// large: lists of up to 300 items in windows of up to 60 lines, in long runs.
func large(c *vk.C, ops []vk.Op[node]) {
	label := func(i int) string {
		switch i % 7 {
		case 3:
			return fmt.Sprintf("項目 %d", i)
		case 5:
			return fmt.Sprintf("Bee %d", i)
		}
		return fmt.Sprintf("item %d", i)
	}
	var init []vk.Named[node]
	for _, sz := range [][2]int{{40, 10}, {100, 24}, {101, 50}, {130, 1}, {200, 60}, {257, 10}, {300, 24}} {
		n, h := sz[0], sz[1]
		labels := make([]string, n)
		values := make([]interface{}, n)
		for i := range labels {
			labels[i] = label(i)
			values[i] = val(i, labels[i])
		}
		for _, multi := range []bool{false, true} {
			l := list.NewSingleSelect(values, labels)
			if multi {
				l = list.NewMultiSelect(values, labels)
			}
			r := ref{labels: labels, multi: multi, h: h, sel: map[int]bool{}}
			init = append(init, vk.Named[node]{Name: fmt.Sprintf("%d items multi=%v height=%d", n, multi, h), N: mkNode(l.Height(h), r)})
			if n < 200 || c.Thorough() {
				r.showFilter = true
				init = append(init, vk.Named[node]{Name: fmt.Sprintf("%d items multi=%v height=%d filter shown", n, multi, h), N: mkNode(l.Height(h).ShowFilter(true), r)})
			}
		}
	}
	moves := vk.ByName(ops, "up", "down", "pgup", "pgdown", "ctrl+d", "ctrl+u", "end", "home", "type B")
	s := vk.Runs[node]{Label: "long lists", Init: init, Key: key, Check: check, Phases: []vk.Phase[node]{
		{Ops: moves, Reps: []int{1, 11, 24, 100, 310}},
		{Ops: append(vk.ByName(ops, "space", "ctrl+a", "height 3", "height 10", "backspace", "filter none", "custom renderer"), moves...), Reps: []int{1, 2, 12, vk.Pick(c, 13, 60)}},
		{Ops: append(vk.ByName(ops, "space", "esc", "height 1"), moves...), Reps: vk.Pick(c, []int{1}, []int{1, 2})},
	}}
	s.Run(c)
}

// quit: the quit keys produce the quit command and nothing else does.
func quit(c *vk.C) {
	l := list.NewMultiSelect([]interface{}{"x", "y"}, []string{"x", "y"})
	for _, k := range []tea.KeyMsg{{Type: tea.KeyRune, Rune: 'q'}, {Type: tea.KeyCtrlC}, {Type: tea.KeyEnter}, {Type: tea.KeySpace}, {Type: tea.KeyUp}, {Type: tea.KeyRune, Rune: 'z'}} {
		_, cmd := l.Update(k)
		isQuit := false
		if cmd != nil {
			_, isQuit = cmd().(tea.QuitMsg)
		}
		want := k.String() == "q" || k.String() == "ctrl+c"
		c.Transitions.Add(1)
		if isQuit != want {
			c.Fail("quit", fmt.Sprintf("key %s: quit=%v, should be %v", k, isQuit, want), k.String())
		}
	}
}
