// C34: table sorting, selection and scrolling against a reference table.
package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/phoenix-tui/phoenix/components/table"
	"github.com/phoenix-tui/phoenix/components/table/zzv"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/style"
	tea "github.com/phoenix-tui/phoenix/tea"
)

type col struct {
	key, title string
	w, align   int
	sortable   bool
	render     bool
}

type ref struct {
	cols   []col
	rows   []table.Row
	order  []int // displayed order: indices into rows
	sorted string
	desc   bool
	sel    int
	h      int
	header bool
	custom bool // other key bindings
}

func less(a, b interface{}) int {
	if a == nil || b == nil {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return -1
		}
		return 1
	}
	switch x := a.(type) {
	case int:
		if y, ok := b.(int); ok {
			return sgn(x < y, x > y)
		}
	case int64:
		if y, ok := b.(int64); ok {
			return sgn(x < y, x > y)
		}
	case string:
		if y, ok := b.(string); ok {
			return sgn(x < y, x > y)
		}
	case float64:
		if y, ok := b.(float64); ok {
			return sgn(x < y, x > y)
		}
	case bool:
		if y, ok := b.(bool); ok {
			return sgn(!x && y, x && !y)
		}
	}
	x, y := fmt.Sprint(a), fmt.Sprint(b) // anything else compares as text
	return sgn(x < y, x > y)
}

func sgn(l, g bool) int {
	if l {
		return -1
	}
	if g {
		return 1
	}
	return 0
}

func ident(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func (r *ref) sortBy(key string) {
	var c *col
	for i := range r.cols {
		if r.cols[i].key == key {
			c = &r.cols[i]
			break
		}
	}
	if c == nil || !c.sortable {
		return
	}
	if r.sorted == key {
		r.desc = !r.desc
	} else {
		r.desc = false
	}
	r.sorted = key
	o := ident(len(r.rows))
	sort.SliceStable(o, func(i, j int) bool {
		cmp := less(r.rows[o[i]][key], r.rows[o[j]][key])
		if r.desc {
			return cmp > 0
		}
		return cmp < 0
	})
	r.order = o
	r.sel = 0
}

func (r *ref) clear() {
	r.order = ident(len(r.rows))
	r.sorted, r.desc = "", false
}

func (r *ref) visible() int {
	v := r.h
	if r.header {
		v--
	}
	return max(0, v)
}

func width(s string) int {
	n := 0
	for _, c := range s {
		n += vk.RuneWidth(c)
	}
	return n
}

// trunc keeps whole characters (a base with its combining marks).
func trunc(s string, w int) string {
	out, n := "", 0
	for _, c := range s {
		cw := vk.RuneWidth(c)
		if n+cw > w {
			break
		}
		n += cw
		out += string(c)
	}
	return out
}

func cell(text string, w, align int) string {
	if width(text) > w {
		if w > 3 {
			text = trunc(text, w-3) + "..."
		} else {
			text = trunc(text, w)
		}
	}
	pad := w - width(text)
	switch align {
	case 1:
		return strings.Repeat(" ", pad/2) + text + strings.Repeat(" ", pad-pad/2)
	case 2:
		return strings.Repeat(" ", pad) + text
	}
	return text + strings.Repeat(" ", pad)
}

// mark replaces the first character by the selection marker.
func mark(s string) string {
	if s == "" {
		return s
	}
	rs := []rune(s)
	i := 1
	for i < len(rs) && vk.RuneWidth(rs[i]) == 0 {
		i++
	}
	return ">" + strings.Repeat(" ", max(0, vk.RuneWidth(rs[0])-1)) + string(rs[i:])
}

func (r *ref) head() []string {
	if !r.header {
		return nil
	}
	var t, s []string
	for _, c := range r.cols {
		title := c.title
		if r.sorted == c.key {
			if r.desc {
				title += " ▼"
			} else {
				title += " ▲"
			}
		}
		t = append(t, cell(title, c.w, c.align))
		s = append(s, strings.Repeat("─", c.w))
	}
	return []string{strings.Join(t, "│"), strings.Join(s, "┼")}
}

func (r *ref) row(pos int) string {
	var p []string
	for i, c := range r.cols {
		v := r.rows[r.order[pos]][c.key]
		text := fmt.Sprint(v)
		if c.render {
			text = fmt.Sprintf("[%v]", v)
		}
		s := cell(text, c.w, c.align)
		if i == 0 && pos == r.sel {
			s = mark(s)
		}
		p = append(p, s)
	}
	return strings.Join(p, "│")
}

type node struct {
	t *table.Table
	r ref
	d string // the dump of t
}

func mkNode(t *table.Table, r ref) node { return node{t, r, vk.Dump(t)} }

func check(n node) (string, string) {
	r := &n.r
	t := n.t
	if len(r.rows) > 0 {
		if t.SelectedIndex() != r.sel {
			return "selection", fmt.Sprintf("selected index is %d, should be %d", t.SelectedIndex(), r.sel)
		}
		if got, want := t.SelectedRow()["id"], r.rows[r.order[r.sel]]["id"]; got != want {
			return "selection", fmt.Sprintf("selected row is %v, should be %v", got, want)
		}
	} else if t.SelectedIndex() != 0 {
		return "selection", fmt.Sprintf("selected index is %d without any rows", t.SelectedIndex())
	} else if t.SelectedRow() != nil {
		return "selection", "an empty table has a selected row"
	}
	if len(t.Rows()) != len(r.rows) {
		return "rows", fmt.Sprintf("%d rows, should be %d", len(t.Rows()), len(r.rows))
	}
	for i, row := range t.Rows() {
		if row["id"] != r.rows[i]["id"] {
			return "rows", fmt.Sprintf("original row %d is %v, should be %v", i, row["id"], r.rows[i]["id"])
		}
	}
	v := t.View()
	if v != "" && !strings.HasSuffix(v, "\n") {
		return "view", fmt.Sprintf("view does not end a line: %q", v)
	}
	got := strings.Split(strings.TrimSuffix(v, "\n"), "\n")
	if v == "" {
		got = nil
	}
	head := r.head()
	if len(got) < len(head) || strings.Join(got[:len(head)], "\n") != strings.Join(head, "\n") {
		return "view", fmt.Sprintf("header is %q, should be %q", got, head)
	}
	got = got[len(head):]
	vis := r.visible()
	if len(got) > vis {
		return "view", fmt.Sprintf("%d rows shown, at most %d fit", len(got), vis)
	}
	if vis == 0 || len(r.rows) == 0 {
		if len(got) > 0 {
			return "view", fmt.Sprintf("rows shown: %q", got)
		}
		return "", ""
	}
	for off := 0; off <= r.sel; off++ {
		end := min(len(r.order), off+vis)
		if r.sel >= end {
			continue
		}
		var want []string
		for p := off; p < end; p++ {
			want = append(want, r.row(p))
		}
		if strings.Join(got, "\n") == strings.Join(want, "\n") {
			return "", ""
		}
	}
	return "view", fmt.Sprintf("rows shown are %q: not a window with the selected row %q", got, r.row(r.sel))
}

func main() {
	vk.Main("C34", "model_checking", 0, func(c *vk.C) {
		c.Rule("breadth-first over all operation sequences up to the depth; every transition runs the real table and a reference table and compares selection, row order and the rendered window")
		cols := []col{
			{"name", "Name", 6, 0, true, false},
			{"n", "N", 4, 2, true, false},
			{"f", "Float", 5, 1, true, true},
			{"b", "B", 3, 0, true, false},
			{"big", "Big", 2, 2, true, false},
			{"id", "Ident", 0, 0, false, false},
		}
		mk := func(i int, name interface{}, n interface{}, f interface{}, b interface{}, big interface{}) table.Row {
			r := table.Row{"id": i}
			for k, v := range map[string]interface{}{"name": name, "n": n, "f": f, "b": b, "big": big} {
				if v != nil {
					r[k] = v
				}
			}
			return r
		}
		all := []table.Row{
			mk(0, "bob", 10, 1.5, true, int64(1<<40)),
			mk(1, "alice", 9, -2.0, false, int64(5)),
			mk(2, "日本語テスト", 10, nil, true, nil),
			mk(3, nil, 2, 1.5, false, int64(5)),
			mk(4, "Alice", -3, 0.0, true, int64(-7)),
			mk(5, "alice", nil, 100.25, nil, int64(5)),
			mk(6, "e\u0301e\u0301e\u0301e\u0301e\u0301e\u0301e\u0301", 100000, -2.0, false, int64(0)),
		}
		var ops []vk.Op[node]
		add := func(name string, f func(t *table.Table) *table.Table, m func(r *ref)) {
			ops = append(ops, vk.Op[node]{Name: name, Do: func(n node) (node, bool, string, string) {
				nt := f(n.t)
				r := n.r
				m(&r)
				if vk.Dump(n.t) != n.d {
					return n, true, "mutated", "the operation changed the table it was called on"
				}
				return mkNode(nt, r), true, "", ""
			}})
		}
		rn := func(ch rune) tea.KeyMsg { return tea.KeyMsg{Type: tea.KeyRune, Rune: ch} }
		last := func(r *ref) int { return max(0, len(r.rows)-1) }
		none := func(r *ref) {}
		up := func(r *ref) { r.sel = max(0, r.sel-1) }
		down := func(r *ref) { r.sel = min(last(r), r.sel+1) }
		page := func(r *ref) int {
			p := r.h
			if r.header {
				p--
			}
			return max(0, p)
		}
		pgup := func(r *ref) { r.sel = max(0, r.sel-page(r)) }
		pgdown := func(r *ref) { r.sel = min(last(r), r.sel+page(r)) }
		first := func(r *ref) { r.sel = 0 }
		end := func(r *ref) { r.sel = last(r) }
		key := func(k tea.KeyMsg, std, custom func(r *ref)) {
			add(k.String(), func(t *table.Table) *table.Table { nt, _ := t.Update(k); return nt }, func(r *ref) {
				if r.custom {
					custom(r)
				} else {
					std(r)
				}
			})
		}
		key(tea.KeyMsg{Type: tea.KeyUp}, up, down)
		key(rn('k'), up, none)
		key(tea.KeyMsg{Type: tea.KeyDown}, down, none)
		key(rn('j'), down, none)
		key(tea.KeyMsg{Type: tea.KeyPgUp}, pgup, none)
		key(tea.KeyMsg{Type: tea.KeyPgDown}, pgdown, pgup)
		key(tea.KeyMsg{Type: tea.KeyHome}, first, pgdown)
		key(rn('g'), first, none)
		key(tea.KeyMsg{Type: tea.KeyEnd}, end, none)
		key(rn('G'), end, first)
		key(rn('c'), (*ref).clear, end)
		key(rn('z'), none, (*ref).clear)
		key(rn('w'), none, up)
		key(rn('s'), none, none)
		key(tea.KeyMsg{Type: tea.KeyEnter}, none, none)
		add("other key bindings", func(t *table.Table) *table.Table {
			return t.KeyBindings(zzv.Keys([]string{"w"}, []string{"", "↑"}, []string{"pgdown"}, []string{"home"}, []string{"G"}, []string{"c"}, []string{"z", "c"}))
		}, func(r *ref) { r.custom = true })
		add("window size", func(t *table.Table) *table.Table {
			nt, _ := t.Update(tea.WindowSizeMsg{Width: 20, Height: 2})
			return nt
		}, none)
		for _, k := range []string{"name", "n", "f", "b", "big", "id", "nope"} {
			add("sort "+k, func(t *table.Table) *table.Table { return t.SortByColumn(k) }, func(r *ref) { r.sortBy(k) })
		}
		add("clear sort", (*table.Table).ClearSort, (*ref).clear)
		for _, h := range []int{0, 1, 2, 3, 4, 20} {
			add(fmt.Sprintf("height %d", h), func(t *table.Table) *table.Table { return t.Height(h) }, func(r *ref) { r.h = h })
		}
		add("header", func(t *table.Table) *table.Table { return t.ShowHeader(true) }, func(r *ref) { r.header = true })
		add("no header", func(t *table.Table) *table.Table { return t.ShowHeader(false) }, func(r *ref) { r.header = false })
		for _, n := range []int{0, 1, 3, 7} {
			add(fmt.Sprintf("rows %d", n), func(t *table.Table) *table.Table { return t.SetRows(all[:n]) }, func(r *ref) {
				r.rows = all[:n]
				r.clear()
				r.sel = 0
			})
		}
		add("theme", func(t *table.Table) *table.Table { return t.Theme(style.DarkTheme()) }, func(r *ref) {})

		mkTable := func(rows []table.Row) *table.Table { return build(cols, rows) }
		keyf := func(n node) string {
			return n.d + fmt.Sprintf("|%d %v %s %v %d %d %v %v", len(n.r.rows), n.r.order, n.r.sorted, n.r.desc, n.r.sel, n.r.h, n.r.header, n.r.custom)
		}
		var init []vk.Named[node]
		for n := 0; n <= 7; n++ {
			for _, h := range []int{2, 3, 5} {
				init = append(init, vk.Named[node]{Name: fmt.Sprintf("rows=%d height=%d", n, h), N: mkNode(mkTable(all[:n]).Height(h), ref{cols: cols, rows: all[:n], order: ident(n), h: h, header: true})})
			}
			init = append(init, vk.Named[node]{Name: fmt.Sprintf("rows=%d no header", n), N: mkNode(mkTable(all[:n]).Height(2).ShowHeader(false), ref{cols: cols, rows: all[:n], order: ident(n), h: 2})})
		}
		// a longer table, so that several pages exist
		var many []table.Row
		for i := 0; i < 40; i++ {
			many = append(many, mk(i, fmt.Sprintf("r%02d", (i*17)%40), i%5, float64(i%7), i%2 == 0, int64(i%3)))
		}
		init = append(init, vk.Named[node]{Name: "rows=40 height=10", N: mkNode(mkTable(many), ref{cols: cols, rows: many, order: ident(40), h: 10, header: true})})
		init = append(init, vk.Named[node]{Name: "never had rows", N: mkNode(table.New(tcols(cols)), ref{cols: cols, h: 10, header: true})})
		s := vk.Space[node]{Label: "table", Init: init, Ops: ops, Check: check, Depth: vk.Pick(c, 4, 6), Max: vk.Pick(c, 150000, 1500000), Sample: 4000, Key: keyf, Full: true}
		s.Run(c)
		large(c, ops, keyf, mk)
		// all permutations of small columns with duplicates sort correctly in both directions
		perms := [][]interface{}{{1, 1, 2, 3}, {"b", "a", "a", "c"}, {true, false, true, nil}, {1.5, nil, -1.0, 1.5}, {int64(3), int64(3), int64(1), nil}, {1, "b", "a", 12}, {uint(3), uint(1), nil, uint(2)}, {true, "false", int64(2), 2},
			{int64(-3), "a", int64(10), int64(9)}, {2.5, 10.0, "x", nil}, {[]int{2}, []int{1}, "", "["}}
		small := len(perms)
		// every triple of values at the ends of each type's range
		for _, vals := range [][]interface{}{
			{math.MinInt, math.MinInt + 1, -1 << 32, -2, 0, 1, 1 << 31, 1 << 53, 1<<53 + 1, math.MaxInt - 1, math.MaxInt},
			{int64(math.MinInt64), int64(math.MinInt64 + 1), int64(-1), int64(0), int64(1 << 32), int64(1 << 53), int64(1<<53 + 1), int64(math.MaxInt64)},
			{math.Inf(-1), -math.MaxFloat64, -0.2, -0.1, 0.0, math.SmallestNonzeroFloat64, 0.1, 0.5, 1.5, 1e300, math.MaxFloat64, math.Inf(1)},
			{"", " ", "10", "9", "A", "Z", "a", "aa", "ab", "b", "\xff", "é", "e\u0301", "日", "日本", "😀"},
			{true, false, nil},
		} {
			for _, x := range vals {
				for _, y := range vals {
					for _, z := range vals {
						perms = append(perms, []interface{}{x, y, z})
					}
				}
			}
		}
		for i, vals := range perms {
			sorts := func(vals []interface{}, f func([]interface{})) { f(vals) } // triples come in every order already
			if i < small {
				sorts = permute
			}
			sorts(vals, func(p []interface{}) {
				var rows []table.Row
				for i, v := range p {
					r := table.Row{"id": i}
					if v != nil {
						r["name"] = v
					}
					rows = append(rows, r)
				}
				n := mkNode(mkTable(rows), ref{cols: cols, rows: rows, order: ident(len(rows)), h: 10, header: true})
				for k := 0; k < 3; k++ {
					n.t = n.t.SortByColumn("name")
					n.r.sortBy("name")
					c.Transitions.Add(1)
					c.Traces.Add(1)
					if k, bad := check(n); bad != "" {
						c.Fail(k, fmt.Sprintf("sorting %v: %s", p, bad), fmt.Sprint(p))
					}
				}
			})
		}
	})
}

func build(cols []col, rows []table.Row) *table.Table {
	return table.NewWithRows(tcols(cols), rows)
}

func tcols(cols []col) []table.Column {
	var cs []table.Column
	for _, x := range cols {
		tc := table.Column{Key: x.key, Title: x.title, Width: x.w, Sortable: x.sortable}
		switch x.align {
		case 1:
			tc.Alignment = 1
		case 2:
			tc.Alignment = 2
		}
		if x.render {
			tc.Renderer = func(v interface{}) string { return fmt.Sprintf("[%v]", v) }
		}
		cs = append(cs, tc)
	}
	return cs
}

// large: tables of up to 300 rows, 14 columns and 120 cells per column, in
// windows of up to 60 lines, in long runs.
func large(c *vk.C, ops []vk.Op[node], key func(node) string, mk func(i int, name, n, f, b, big interface{}) table.Row) {
	var rows []table.Row
	for i := 0; i < 300; i++ {
		var name interface{} = fmt.Sprintf("r%03d", (i*137)%300)
		var num interface{} = (i * 37) % 11
		switch i % 10 {
		case 3:
			name = strings.Repeat("日本", i%40)
		case 7:
			name = nil
		case 9:
			num = nil
		}
		rows = append(rows, mk(i, name, num, float64(i*7%13)/4, i%3 == 0, int64(i*i%17)))
	}
	widths := [][]int{{6, 4, 5, 3, 2, 0}, {120, 1, 60, 3, 44, 4}, {3, 4, 10, 12, 100, 101}}
	var init []vk.Named[node]
	for wi, ws := range widths {
		cols := []col{
			{"name", "Name", ws[0], 0, true, false},
			{"n", "N", ws[1], 2, true, false},
			{"f", "Float", ws[2], 1, true, true},
			{"b", "B", ws[3], 1, true, false},
			{"big", strings.Repeat("Big ", 30), ws[4], 2, true, false},
			{"id", "Ident", ws[5], 0, false, false},
		}
		if wi == 2 {
			for i := 0; i < 8; i++ {
				cols = append(cols, col{[]string{"name", "n", "f"}[i%3], fmt.Sprintf("Col %d", i), 5 + i, i % 3, i != 0, i == 4})
			}
		}
		for _, sz := range [][2]int{{40, 10}, {100, 25}, {101, 51}, {130, 2}, {257, 11}, {300, 61}} {
			n, h := sz[0], sz[1]
			init = append(init, vk.Named[node]{Name: fmt.Sprintf("rows=%d height=%d widths=%v", n, h, ws),
				N: mkNode(build(cols, rows[:n]).Height(h), ref{cols: cols, rows: rows[:n], order: ident(n), h: h, header: true})})
		}
	}
	moves := vk.ByName(ops, "↓", "k", "pgdown", "pgup", "end", "sort name", "sort n", "sort f")
	s := vk.Runs[node]{Label: "large tables", Init: init, Key: key, Check: check, Phases: []vk.Phase[node]{
		{Ops: moves, Reps: []int{1, 2, 24, 100, vk.Pick(c, 101, 310)}},
		{Ops: append(vk.ByName(ops, "sort big", "sort b", "clear sort", "height 3", "no header"), moves...), Reps: []int{1, 2, vk.Pick(c, 3, 40)}},
		{Ops: append(vk.ByName(ops, "rows 3", "height 1"), moves[:6]...), Reps: []int{1}},
	}}
	s.Run(c)
}

func permute(v []interface{}, f func([]interface{})) {
	var rec func(i int)
	p := append([]interface{}(nil), v...)
	rec = func(i int) {
		if i == len(p) {
			f(append([]interface{}(nil), p...))
			return
		}
		for j := i; j < len(p); j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}
