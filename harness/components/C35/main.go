// C35: select and multi-select against reference widgets.
package main

import (
	"fmt"
	"sort"
	"strings"

	multi "github.com/phoenix-tui/phoenix/components/multiselect"
	sel "github.com/phoenix-tui/phoenix/components/select"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea"
)

type opt struct {
	label, desc string
	disabled    bool
}

type labelled interface{ Label() string }

func prefix[O labelled](o O, q string) bool { return strings.HasPrefix(o.Label(), q) }
func anything[O labelled](O, string) bool   { return true }
func render[O labelled](o O, i int, f bool) string {
	return fmt.Sprintf("<%s %d %v>", o.Label(), i, f)
}
func renderM[O labelled](o O, i int, f, s bool) string {
	return fmt.Sprintf("<%s %d %v %v>", o.Label(), i, f, s)
}

// ref describes both widgets.
type ref struct {
	multi      bool
	opts       []opt
	query      string
	filter     int // which filter function: the default one, by prefix, anything
	custom     bool
	filterable bool
	cursor     int
	h          int
	chosen     int // select: -1 or index
	set        map[int]bool
	min, max   int
}

func (r ref) copy() ref {
	s := map[int]bool{}
	for k := range r.set {
		s[k] = true
	}
	r.set = s
	return r
}

func (r *ref) match(o opt) bool {
	if r.query == "" || r.filter == 2 {
		return true
	}
	if r.filter == 1 {
		return strings.HasPrefix(o.label, r.query)
	}
	return strings.Contains(strings.ToLower(o.label), strings.ToLower(r.query))
}

func (r *ref) vis() []int {
	var out []int
	for i, o := range r.opts {
		if r.match(o) {
			out = append(out, i)
		}
	}
	return out
}

func (r *ref) refilter() { r.cursor = max(0, min(r.cursor, len(r.vis())-1)) }

func (r *ref) effMin() int {
	if r.max > 0 {
		return min(r.min, r.max)
	}
	return r.min
}

func (r *ref) limits() {
	// constraints keep the lowest indices
	if r.max == 0 {
		return
	}
	ks := keys(r.set)
	for i, k := range ks {
		if i >= r.max {
			delete(r.set, k)
		}
	}
}

func keys(m map[int]bool) []int {
	out := []int{}
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func (r *ref) toggle() {
	v := r.vis()
	if r.cursor >= len(v) || r.opts[v[r.cursor]].disabled {
		return
	}
	i := v[r.cursor]
	if r.set[i] {
		delete(r.set, i)
	} else if r.max == 0 || len(r.set) < r.max {
		r.set[i] = true
	}
}

func (r *ref) all() {
	for _, i := range r.vis() {
		if !r.opts[i].disabled && (r.max == 0 || len(r.set) < r.max) {
			r.set[i] = true
		}
	}
}

func (r *ref) line(pos, i int) string {
	o := r.opts[i]
	f := pos == r.cursor
	if r.custom {
		if r.multi {
			return fmt.Sprintf("<%s %d %v %v>", o.label, pos, f, r.set[i])
		}
		return fmt.Sprintf("<%s %d %v>", o.label, pos, f)
	}
	s := "  "
	if f {
		s = "> "
	}
	if r.multi {
		if r.set[i] {
			s += "[x] "
		} else {
			s += "[ ] "
		}
		s += o.label
		if o.desc != "" {
			s += " - " + o.desc
		}
		if o.disabled {
			s += " (disabled)"
		}
		return s
	}
	s += o.label
	if o.disabled {
		s += " (disabled)"
	}
	if o.desc != "" {
		s += " - " + o.desc
	}
	return s
}

// views lists the acceptable views: any window of the right size with the cursor in it.
func (r *ref) views() []string {
	head, tail := "", ""
	head = "T\n\n"
	if r.multi && len(r.opts) > 0 {
		head = fmt.Sprintf("T (%d of %d selected)\n\n", len(r.set), len(r.opts))
	}
	if r.filterable {
		if r.query != "" {
			tail = "\n\nFilter: " + r.query
		} else {
			tail = "\n\nType to filter..."
		}
	}
	if r.multi {
		tail += "\n\n  a: all  n: none  Space: toggle  Enter: confirm"
	}
	v := r.vis()
	if len(v) == 0 {
		if r.query != "" {
			return []string{head + "(no matches)" + tail}
		}
		return []string{head + "(no options)" + tail}
	}
	n := min(len(v), r.h)
	var out []string
	for off := 0; off+n <= len(v); off++ {
		if r.cursor < off || r.cursor >= off+n {
			continue
		}
		var ls []string
		for p := off; p < off+n; p++ {
			ls = append(ls, r.line(p, v[p]))
		}
		out = append(out, head+strings.Join(ls, "\n")+tail)
	}
	return out
}

type node struct {
	s *sel.Select[int]
	m *multi.MultiSelect[int]
	r ref
}

func (n node) key() string {
	if n.s != nil {
		return vk.Dump(n.s) + fmt.Sprintf("%q %d %d %v %v %v %d", n.r.query, n.r.cursor, n.r.chosen, n.r.filter, n.r.h, n.r.custom, len(n.r.opts))
	}
	return vk.Dump(n.m) + fmt.Sprintf("%q %d %v %v %v %d %d %v %d", n.r.query, n.r.cursor, keys(n.r.set), n.r.filter, n.r.h, n.r.min, n.r.max, n.r.custom, len(n.r.opts))
}

func check(n node) (string, string) {
	r := &n.r
	v := r.vis()
	var got string
	if n.s != nil {
		got = n.s.View()
		val, ok := n.s.FocusedValue()
		if ok != (len(v) > 0) || ok && val != 100+v[r.cursor] {
			return "focus", fmt.Sprintf("focused value is %d %v, should be option %v of %v", val, ok, r.cursor, v)
		}
		val, ok = n.s.SelectedValue()
		if ok != (r.chosen >= 0) || ok && val != 100+r.chosen {
			return "choice", fmt.Sprintf("chosen value is %d %v, should be option %d", val, ok, r.chosen)
		}
	} else {
		got = n.m.View()
		want := keys(r.set)
		if fmt.Sprint(n.m.SelectedIndices()) != fmt.Sprint(want) {
			return "choice", fmt.Sprintf("selected indices are %v, should be %v", n.m.SelectedIndices(), want)
		}
		var wv []int
		for _, i := range want {
			wv = append(wv, 100+i)
		}
		if fmt.Sprint(n.m.SelectedItems()) != fmt.Sprint(wv) {
			return "choice", fmt.Sprintf("selected values are %v, should be %v", n.m.SelectedItems(), wv)
		}
		if n.m.SelectionCount() != len(want) {
			return "choice", fmt.Sprintf("selection count is %d, should be %d", n.m.SelectionCount(), len(want))
		}
		if r.max > 0 && n.m.SelectionCount() > r.max {
			return "limit", fmt.Sprintf("%d selected, the maximum is %d", n.m.SelectionCount(), r.max)
		}
	}
	for _, w := range r.views() {
		if w == got {
			return "", ""
		}
	}
	return "view", fmt.Sprintf("view is %q, should be one of %q", got, r.views())
}

func main() {
	vk.Main("C35", "model_checking", 0, func(c *vk.C) {
		c.Rule("breadth-first over all key and configuration sequences up to the depth; every transition runs the real widget and a reference and compares focus, choice and view")
		sets := [][]opt{
			{},
			{{"a", "", false}},
			{{"ab", "first", false}, {"B", "", true}},
			{{"x", "", false}, {"xa", "d", false}, {"ax", "", false}},
			{{"xa", "", false}, {"xa", "d", true}, {"xa", "d", false}, {"", "", false}, {"xa", "", false}, {"", "", false}},
			{{"xx", "", false}, {"日本", "", false}, {"Xé", "", true}, {"é", "", false}, {"xé", "d", false}},
			{{"a", "", true}, {"b", "", false}, {"xb", "", false}, {"d", "", false}, {"e", "", false}, {"f", "", false}, {"xa", "", false}, {"h", "", false}},
		}
		for _, isMulti := range []bool{false, true} {
			for _, opts := range sets {
				run(c, isMulti, opts)
			}
		}
		var many []opt
		for i := 0; i < 150; i++ {
			many = append(many, opt{[]string{"xb", "b", "日本", "é", "a x"}[i%5] + fmt.Sprint(" ", i), []string{"", "", "about it"}[i%3], i%11 == 4})
		}
		for i := 140; i < 150; i++ {
			many[i] = many[i-10] // equal options, told apart only by their values
		}
		for _, isMulti := range []bool{false, true} {
			run(c, isMulti, many)
		}
		shorthand(c)
	})
}

func run(c *vk.C, isMulti bool, opts []opt) {
	var ops []vk.Op[node]
	msgOf := func(cmd tea.Cmd) string {
		if cmd == nil {
			return ""
		}
		switch m := cmd().(type) {
		case sel.ConfirmSelectionMsg[int]:
			return fmt.Sprintf("confirm %d %v", m.Value, m.OK)
		case multi.ConfirmSelectionMsg[int]:
			return fmt.Sprintf("confirm %v", m.Values)
		case tea.QuitMsg:
			return "quit"
		default:
			return fmt.Sprintf("%T", m)
		}
	}
	add := func(name string, fs func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd), fm func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd), ref func(r *ref) string) {
		if isMulti && fm == nil || !isMulti && fs == nil {
			return
		}
		ops = append(ops, vk.Op[node]{Name: name, Do: func(n node) (node, bool, string, string) {
			r := n.r.copy()
			want := ref(&r)
			out := node{r: r}
			var cmd tea.Cmd
			var before, after string
			if n.s != nil {
				before = vk.Dump(n.s)
				out.s, cmd = fs(n.s)
				after = vk.Dump(n.s)
			} else {
				before = vk.Dump(n.m)
				out.m, cmd = fm(n.m)
				after = vk.Dump(n.m)
			}
			if before != after {
				return n, true, "mutated", "the operation changed the widget it was called on"
			}
			if got := msgOf(cmd); got != want {
				return n, true, "message", fmt.Sprintf("produced message %q, should be %q", got, want)
			}
			return out, true, "", ""
		}})
	}
	key := func(name string, k tea.KeyMsg, ref func(r *ref) string) {
		add(name, func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd) { return s.Update(k) },
			func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) { return m.Update(k) }, ref)
	}
	none := func(f func(r *ref)) func(r *ref) string { return func(r *ref) string { f(r); return "" } }
	rn := func(ch rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: ch} }
	up := func(r *ref) { r.cursor = max(0, r.cursor-1) }
	down := func(r *ref) { r.cursor = max(r.cursor, min(len(r.vis())-1, r.cursor+1)) }
	home := func(r *ref) { r.cursor = 0 }
	end := func(r *ref) { r.cursor = max(0, len(r.vis())-1) }
	key("up", tea.KeyMsg{Type: tea.KeyUp}, none(up))
	key("k", rn('k'), none(up))
	key("down", tea.KeyMsg{Type: tea.KeyDown}, none(down))
	key("j", rn('j'), none(down))
	key("home", tea.KeyMsg{Type: tea.KeyHome}, none(home))
	key("g", rn('g'), none(home))
	key("end", tea.KeyMsg{Type: tea.KeyEnd}, none(end))
	key("G", rn('G'), none(end))
	key("ctrl+c", tea.KeyMsg{Type: tea.KeyCtrlC}, func(r *ref) string { return "quit" })
	key("tab", tea.KeyMsg{Type: tea.KeyTab}, none(func(r *ref) {}))
	// Ctrl+C as a terminal reports it; other Ctrl and Alt keys are neither letters nor text.
	key("ctrl+c rune", tea.KeyMsg{Type: tea.KeyRune, Rune: 'c', Ctrl: true}, func(r *ref) string { return "quit" })
	for _, ch := range "kjgGanx" {
		key("ctrl+"+string(ch), tea.KeyMsg{Type: tea.KeyRune, Rune: ch, Ctrl: true}, none(func(r *ref) {}))
		key("alt+"+string(ch), tea.KeyMsg{Type: tea.KeyRune, Rune: ch, Alt: true}, none(func(r *ref) {}))
	}
	typed := func(ch rune) func(r *ref) {
		return func(r *ref) {
			if r.filterable {
				r.query += string(ch)
				r.refilter()
			}
		}
	}
	for _, ch := range []rune{'c', 'x', 'é', 'B', '日'} {
		key("type "+string(ch), rn(ch), none(typed(ch)))
	}
	clear := func(r *ref) { r.query = ""; r.refilter() }
	key("esc", tea.KeyMsg{Type: tea.KeyEsc}, none(clear))
	key("backspace", tea.KeyMsg{Type: tea.KeyBackspace}, none(func(r *ref) {
		if r.filterable && r.query != "" {
			q := []rune(r.query)
			r.query = string(q[:len(q)-1])
			r.refilter()
		}
	}))
	if isMulti {
		key("space", tea.KeyMsg{Type: tea.KeySpace}, none((*ref).toggle))
		key("a", rn('a'), none((*ref).all))
		key("n", rn('n'), none(func(r *ref) { r.set = map[int]bool{} }))
		key("enter", tea.KeyMsg{Type: tea.KeyEnter}, func(r *ref) string {
			if len(r.set) < r.effMin() {
				return ""
			}
			var wv []int
			for _, i := range keys(r.set) {
				wv = append(wv, 100+i)
			}
			return fmt.Sprintf("confirm %v", wv)
		})
		for _, n := range []int{-1, 0, 1, 2} {
			add(fmt.Sprintf("min %d", n), nil, func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) { return m.Min(n), nil }, none(func(r *ref) { r.min = max(0, n); r.limits() }))
			add(fmt.Sprintf("max %d", n), nil, func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) { return m.Max(n), nil }, none(func(r *ref) { r.max = max(0, n); r.limits() }))
		}
		add("preselect", nil, func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) {
			return m.Selected(2, 0, -1, 99), nil
		}, none(func(r *ref) {
			for _, i := range []int{2, 0} {
				if i < len(r.opts) && (r.max == 0 || len(r.set) < r.max) {
					r.set[i] = true
				}
			}
		}))
	} else {
		key("space", tea.KeyMsg{Type: tea.KeySpace}, none(func(r *ref) {}))
		key("type a", rn('a'), none(typed('a')))
		key("enter", tea.KeyMsg{Type: tea.KeyEnter}, func(r *ref) string {
			v := r.vis()
			if r.cursor < len(v) && !r.opts[v[r.cursor]].disabled {
				r.chosen = v[r.cursor]
			}
			if r.chosen < 0 {
				return "confirm 0 false"
			}
			return fmt.Sprintf("confirm %d true", 100+r.chosen)
		})
	}
	for _, h := range []int{0, 1, 2, 3} {
		add(fmt.Sprintf("height %d", h), func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd) { return s.WithHeight(h), nil },
			func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) { return m.WithHeight(h), nil }, none(func(r *ref) { r.h = max(1, h) }))
	}
	add("filterable", func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd) { return s.WithFilterable(true), nil },
		func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) { return m.WithFilterable(true), nil }, none(func(r *ref) { r.filterable = true }))
	add("not filterable", func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd) { return s.WithFilterable(false), nil },
		func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) {
			return m.WithFilterable(false), nil
		}, none(func(r *ref) { r.filterable = false }))
	add("prefix filter", func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd) { return s.WithFilterFunc(prefix), nil },
		func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) {
			return m.WithFilterFunc(prefix), nil
		}, none(func(r *ref) { r.filter = 1; r.refilter() }))
	add("filter that takes anything", func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd) { return s.WithFilterFunc(anything), nil },
		func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) {
			return m.WithFilterFunc(anything), nil
		}, none(func(r *ref) { r.filter = 2; r.refilter() }))
	// other options: nothing is selected or filtered any more, the settings stay
	for _, n := range []int{len(opts), (len(opts) + 1) / 2} {
		if len(opts) == 0 || len(opts) > 20 || n == len(opts) && len(opts) == 1 {
			continue
		}
		add(fmt.Sprintf("options: the last %d", n), func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd) { return withSel(s, opts[len(opts)-n:]), nil },
			func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) {
				return withMulti(m, opts[len(opts)-n:]), nil
			},
			none(func(r *ref) {
				r.opts, r.cursor, r.query, r.chosen, r.set = opts[len(opts)-n:], 0, "", -1, map[int]bool{}
			}))
	}
	for _, v := range []int{0, len(opts) - 1, len(opts) / 2, -50} {
		add(fmt.Sprintf("default %d", 100+v), func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd) { return s.WithDefault(100 + v), nil }, nil, none(func(r *ref) {
			if v < 0 || v >= len(r.opts) || r.opts[v].disabled {
				return
			}
			r.chosen = v
			for pos, i := range r.vis() {
				if i == v {
					r.cursor = pos
				}
			}
		}))
	}
	add("custom renderer", func(s *sel.Select[int]) (*sel.Select[int], tea.Cmd) { return s.WithRenderFunc(render), nil },
		func(m *multi.MultiSelect[int]) (*multi.MultiSelect[int], tea.Cmd) {
			return m.WithRenderFunc(renderM), nil
		}, none(func(r *ref) { r.custom = true }))
	var init []vk.Named[node]
	for _, h := range []int{1, 2, 10} {
		for _, f := range []bool{true, false} {
			r := ref{multi: isMulti, opts: opts, h: h, filterable: f, chosen: -1, set: map[int]bool{}}
			if !isMulti {
				s := withSel(sel.New[int]("T"), opts)
				init = append(init, vk.Named[node]{Name: fmt.Sprintf("select %d options height %d filterable %v", len(opts), h, f), N: node{s: s.WithHeight(h).WithFilterable(f), r: r}})
			} else {
				m := withMulti(multi.New[int]("T"), opts)
				init = append(init, vk.Named[node]{Name: fmt.Sprintf("multiselect %d options height %d filterable %v", len(opts), h, f), N: node{m: m.WithHeight(h).WithFilterable(f), r: r}})
				r.min, r.max = 1, 2
				init = append(init, vk.Named[node]{Name: fmt.Sprintf("multiselect %d options height %d filterable %v 1..2", len(opts), h, f), N: node{m: m.WithHeight(h).WithFilterable(f).Min(1).Max(2), r: r}})
			}
		}
	}
	if len(opts) > 20 {
		var li []vk.Named[node]
		for _, h := range []int{1, 10, 25, 60, 200} {
			for _, n := range []int{21, 99, 100, 101, 128, len(opts)} {
				r := ref{multi: isMulti, opts: opts[:n], h: h, filterable: true, chosen: -1, set: map[int]bool{}}
				if !isMulti {
					li = append(li, vk.Named[node]{Name: fmt.Sprintf("select %d options height %d", n, h), N: node{s: withSel(sel.New[int]("T"), opts[:n]).WithHeight(h).WithFilterable(true), r: r}})
					continue
				}
				for _, lim := range []int{0, 15, 100} {
					r.min, r.max = min(lim, 12), lim
					li = append(li, vk.Named[node]{Name: fmt.Sprintf("multiselect %d options height %d %d..%d", n, h, r.min, r.max), N: node{m: withMulti(multi.New[int]("T"), opts[:n]).WithHeight(h).WithFilterable(true).Min(r.min).Max(r.max), r: r}})
				}
			}
		}
		moves := vk.ByName(ops, "up", "down", "home", "end", "type x")
		then := append(vk.ByName(ops, "enter", "type é", "height 3", "esc", "backspace"), moves...)
		if isMulti {
			// down the list, choosing every one on the way
			moves = append(moves, vk.Op[node]{Name: "space down", Do: func(n node) (node, bool, string, string) {
				for _, o := range vk.ByName(ops, "space", "down") {
					var k, bad string
					if n, _, k, bad = o.Do(n); bad != "" {
						return n, true, k, bad
					}
				}
				return n, true, "", ""
			}})
			then = append(then, vk.ByName(ops, "space", "a", "n")...)
		}
		lr := vk.Runs[node]{Label: fmt.Sprintf("multi=%v, up to %d options", isMulti, len(opts)), Init: li, Check: check, Key: node.key, Phases: []vk.Phase[node]{
			{Ops: moves, Reps: []int{1, 16, 99, 100, len(opts)}},
			{Ops: then, Reps: []int{1, vk.Pick(c, 2, 30)}},
			{Ops: then, Reps: []int{1}},
		}}
		lr.Run(c)
		return
	}
	s := vk.Space[node]{Label: fmt.Sprintf("multi=%v options=%d", isMulti, len(opts)), Init: init, Ops: ops, Check: check,
		Depth: vk.Pick(c, 4, 6), Max: vk.Pick(c, 60000, 800000), Sample: 4000, Key: node.key}
	s.Run(c)

	// Every printable character without a meaning of its own is text for the filter.
	main := ops
	ops = nil
	for ch := rune('!'); ch <= '~'; ch++ {
		if !strings.ContainsRune("kjgGan", ch) || !isMulti && ch != 'k' && ch != 'j' && ch != 'g' && ch != 'G' {
			key(fmt.Sprintf("character %q", ch), rn(ch), none(typed(ch)))
		}
	}
	t := vk.Space[node]{Label: fmt.Sprintf("characters multi=%v options=%d", isMulti, len(opts)), Init: init, Ops: append(ops, vk.ByName(main, "down", "esc")...), Check: check,
		Depth: 2, Max: 100000, Sample: 4000, Key: node.key}
	t.Run(c)
}

// The option types are internal to the components; slices of them are made by inference.
func sliceOf[T any](T) []T { return nil }

func withSel(s *sel.Select[int], opts []opt) *sel.Select[int] {
	list := sliceOf(sel.Opt("", 0))
	for i, o := range opts {
		list = append(list, sel.Opt(o.label, 100+i, o.desc).WithDisabled(o.disabled))
	}
	return s.Options(list...)
}

func withMulti(m *multi.MultiSelect[int], opts []opt) *multi.MultiSelect[int] {
	list := sliceOf(multi.Opt("", 0))
	for i, o := range opts {
		list = append(list, multi.Opt(o.label, 100+i, o.desc).WithDisabled(o.disabled))
	}
	return m.Options(list...)
}

// shorthand: the constructors for plain strings make the same widgets as the
// general ones, for every list of up to three labels and every key sequence up to the depth.
func shorthand(c *vk.C) {
	labels := []string{"b", "a", "b"}
	ks := []tea.KeyMsg{{Type: tea.KeyDown}, {Type: tea.KeyUp}, {Type: tea.KeyEnter}, {Type: tea.KeySpace}, {Type: tea.KeyRune, Rune: 'b'}, {Type: tea.KeyEsc}}
	say := func(cmd tea.Cmd) string {
		if cmd == nil {
			return "nothing"
		}
		return fmt.Sprintf("%T %v", cmd(), cmd())
	}
	depth := vk.Pick(c, 4, 6)
	for n := 0; n <= len(labels); n++ {
		in := append([]string(nil), labels[:n]...)
		gs, gm := sliceOf(sel.Opt("", "")), sliceOf(multi.Opt("", ""))
		for _, l := range in {
			gs, gm = append(gs, sel.Opt(l, l)), append(gm, multi.Opt(l, l))
		}
		type quad struct {
			a, b *sel.Select[string]
			x, y *multi.MultiSelect[string]
		}
		q := quad{sel.NewString("T", in).WithFilterable(true), sel.New[string]("T").Options(gs...).WithFilterable(true), multi.NewStrings("T", in).WithFilterable(true), multi.New[string]("T").Options(gm...).WithFilterable(true)}
		for i := range in {
			in[i] = "clobbered"
		}
		var walk func(q quad, path string, d int)
		walk = func(q quad, path string, d int) {
			c.States.Add(1)
			av, aok := q.a.SelectedValue()
			bv, bok := q.b.SelectedValue()
			if q.a.View() != q.b.View() || av != bv || aok != bok {
				c.Fail("shorthand", fmt.Sprintf("NewString %q after %s shows %q (%q %v), the general one %q (%q %v)", labels[:n], path, q.a.View(), av, aok, q.b.View(), bv, bok), path)
			}
			if q.x.View() != q.y.View() || fmt.Sprint(q.x.SelectedItems()) != fmt.Sprint(q.y.SelectedItems()) {
				c.Fail("shorthand", fmt.Sprintf("NewStrings %q after %s shows %q, the general one %q", labels[:n], path, q.x.View(), q.y.View()), path)
			}
			if d == 0 {
				return
			}
			for _, k := range ks {
				var nq quad
				var ca, cb, cx, cy tea.Cmd
				nq.a, ca = q.a.Update(k)
				nq.b, cb = q.b.Update(k)
				nq.x, cx = q.x.Update(k)
				nq.y, cy = q.y.Update(k)
				c.Transitions.Add(1)
				if say(ca) != say(cb) || say(cx) != say(cy) {
					c.Fail("shorthand", fmt.Sprintf("%q after %s %s: produced %s / %s, the general ones %s / %s", labels[:n], path, k, say(ca), say(cx), say(cb), say(cy)), path)
				}
				walk(nq, path+" "+k.String(), d-1)
			}
		}
		walk(q, "", depth)
	}
}
