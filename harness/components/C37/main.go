// C37: confirmations and modals against reference dialogs.
package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/phoenix-tui/phoenix/components/confirm"
	"github.com/phoenix-tui/phoenix/components/modal"
	"github.com/phoenix-tui/phoenix/components/modal/zzv"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea"
)

// ---------------------------------------------------------------- confirm

const (
	none = iota
	yes
	no
	canceled
)

type cref struct {
	title, desc string
	btns        []string
	focus       int
	result      int
	done        bool
}

func (r cref) copy() cref {
	r.btns = append([]string(nil), r.btns...)
	return r
}

func (r *cref) activate(i int) {
	r.focus, r.done = i, true
	switch l := r.btns[i]; {
	case l == "Yes":
		r.result = yes
	case l == "No":
		r.result = no
	case l == "Cancel":
		r.result = canceled
	case i == 0:
		r.result = yes
	default:
		r.result = no
	}
}

type cnode struct {
	c *confirm.Confirm
	r cref
}

func ccheck(n cnode) (string, string) {
	r := n.r
	if n.c.Done() != r.done || int(n.c.Result()) != r.result {
		return "result", fmt.Sprintf("done %v result %v, want %v %v", n.c.Done(), n.c.Result(), r.done, r.result)
	}
	if n.c.IsYes() != (r.result == yes) || n.c.IsNo() != (r.result == no) || n.c.IsCanceled() != (r.result == canceled) {
		return "result", fmt.Sprintf("IsYes %v IsNo %v IsCanceled %v with result %d", n.c.IsYes(), n.c.IsNo(), n.c.IsCanceled(), r.result)
	}
	want := r.title + "\n"
	if r.desc != "" {
		want += r.desc + "\n"
	}
	want += "\n"
	for i, b := range r.btns {
		if i > 0 {
			want += "  "
		}
		if i == r.focus {
			want += "[ " + b + " ]"
		} else {
			want += "( " + b + " )"
		}
	}
	if v := n.c.View(); v != want {
		return "view", fmt.Sprintf("view %q, want %q", v, want)
	}
	return "", ""
}

func confirms(c *vk.C) {
	var ops []vk.Op[cnode]
	build := func(name string, do func(x *confirm.Confirm) *confirm.Confirm, f func(r *cref)) {
		ops = append(ops, vk.Op[cnode]{Name: name, Do: func(n cnode) (cnode, bool, string, string) {
			pd := vk.Dump(n.c)
			nx := cnode{c: do(n.c), r: n.r.copy()}
			if vk.Dump(n.c) != pd {
				return nx, true, "mutated", "the operation changed the confirmation it was called on"
			}
			f(&nx.r)
			return nx, true, "", ""
		}})
	}
	msg := func(name string, m tea.Msg, f func(r *cref)) {
		ops = append(ops, vk.Op[cnode]{Name: name, Do: func(n cnode) (cnode, bool, string, string) {
			pd := vk.Dump(n.c)
			nc, cmd := n.c.Update(m)
			nx := cnode{c: nc, r: n.r.copy()}
			if vk.Dump(n.c) != pd {
				return nx, true, "mutated", "the message changed the confirmation it was sent to"
			}
			if !nx.r.done {
				f(&nx.r)
			}
			want := "nothing"
			if nx.r.done && !n.r.done {
				want = fmt.Sprint(nx.r.result)
			}
			got := "nothing"
			if cmd != nil {
				switch x := cmd().(type) {
				case nil:
				case confirm.ConfirmResultMsg:
					got = fmt.Sprint(int(x.Result))
				default:
					got = fmt.Sprintf("%T", x)
				}
			}
			if got != want {
				return nx, true, "report", fmt.Sprintf("reported %s, want %s", got, want)
			}
			return nx, true, "", ""
		}})
	}
	relabel := func(i int, l string) func(r *cref) {
		return func(r *cref) { r.btns[i] = l }
	}
	for _, l := range []string{"Delete", "Cancel", "Да", "no", "YES"} {
		build("affirmative "+l, func(x *confirm.Confirm) *confirm.Confirm { return x.Affirmative(l) }, relabel(0, l))
	}
	for _, l := range []string{"Keep", "Нет", "Nope", "yes", "cancel"} {
		build("negative "+l, func(x *confirm.Confirm) *confirm.Confirm { return x.Negative(l) }, relabel(1, l))
	}
	build("description", func(x *confirm.Confirm) *confirm.Confirm { return x.Description("sure?") }, func(r *cref) { r.desc = "sure?" })
	build("with cancel", func(x *confirm.Confirm) *confirm.Confirm { return x.WithCancel(true) }, func(r *cref) {
		if len(r.btns) == 2 {
			r.btns = append(r.btns, "Cancel")
		}
	})
	build("without cancel", func(x *confirm.Confirm) *confirm.Confirm { return x.WithCancel(false) }, func(r *cref) {
		r.btns = r.btns[:2]
		r.focus = min(r.focus, 1)
	})
	build("default yes", func(x *confirm.Confirm) *confirm.Confirm { return x.DefaultYes() }, func(r *cref) { r.focus = 0 })
	build("default no", func(x *confirm.Confirm) *confirm.Confirm { return x.DefaultNo() }, func(r *cref) {
		for i, b := range r.btns {
			if b == "No" {
				r.focus = i
				return
			}
		}
		r.focus = len(r.btns) - 1
	})
	move := func(d int) func(r *cref) {
		return func(r *cref) { r.focus = (r.focus + d + len(r.btns)) % len(r.btns) }
	}
	msg("left", tea.KeyMsg{Type: tea.KeyLeft}, move(-1))
	msg("right", tea.KeyMsg{Type: tea.KeyRight}, move(1))
	msg("tab", tea.KeyMsg{Type: tea.KeyTab}, move(1))
	msg("shift+tab", tea.KeyMsg{Type: tea.KeyTab, Shift: true}, move(-1))
	msg("enter", tea.KeyMsg{Type: tea.KeyEnter}, func(r *cref) { r.activate(r.focus) })
	cancel := func(r *cref) { r.done, r.result = true, canceled }
	msg("esc", tea.KeyMsg{Type: tea.KeyEsc}, cancel)
	msg("ctrl+c", tea.KeyMsg{Type: tea.KeyCtrlC}, cancel)
	msg("ctrl+c rune", tea.KeyMsg{Type: tea.KeyRune, Rune: 'c', Ctrl: true}, cancel)
	for _, k := range "ynd" {
		msg("ctrl+"+string(k), tea.KeyMsg{Type: tea.KeyRune, Rune: k, Ctrl: true}, func(r *cref) {})
		msg("alt+"+string(k), tea.KeyMsg{Type: tea.KeyRune, Rune: k, Alt: true}, func(r *cref) {})
	}
	for _, k := range "yYnNcCdDkKxдНÐ1" {
		msg("key "+string(k), tea.KeyMsg{Type: tea.KeyRune, Rune: k}, func(r *cref) {
			for i, b := range r.btns {
				f, _ := utf8.DecodeRuneInString(b)
				if unicode.ToLower(f) == unicode.ToLower(k) {
					r.activate(i)
					return
				}
			}
		})
	}
	for _, m := range []tea.Msg{tea.KeyMsg{Type: tea.KeyUp}, tea.KeyMsg{Type: tea.KeySpace, Rune: ' '}, tea.KeyMsg{Type: tea.KeyBackspace}, tea.KeyMsg{Type: tea.KeyF1}, tea.WindowSizeMsg{Width: 10, Height: 3}, "text"} {
		msg(fmt.Sprintf("ignored %v", m), m, func(r *cref) {})
	}
	s := vk.Space[cnode]{Label: "confirm", Ops: ops, Check: ccheck, Depth: vk.Pick(c, 6, 9), Max: vk.Pick(c, 200000, 2000000), Sample: 3000,
		Init: []vk.Named[cnode]{{Name: "Title", N: cnode{c: confirm.New("Title"), r: cref{title: "Title", btns: []string{"Yes", "No"}, focus: 1}}}},
		Key:  func(n cnode) string { return vk.Dump(n.c) + fmt.Sprintf("%+v", n.r) }, Full: true}
	s.Run(c)
}

// ---------------------------------------------------------------- modal

type btn struct{ label, key, action string }

type mref struct {
	title, content string
	w, h           int
	x, y           int
	center         bool
	dim            bool
	visible        bool
	btns           []btn
	focus          int
	tw, th         int
	custom         bool // other key bindings
}

type mnode struct {
	m *modal.Modal
	r mref
}

func width(s string) int {
	w := 0
	for _, r := range s {
		w += vk.RuneWidth(r)
	}
	return w
}

func fit(s string, w int) string {
	if width(s) > w {
		dots := ""
		lim := w
		if w > 3 {
			dots, lim = "...", w-3
		}
		out, used := "", 0
		for _, r := range s {
			if used+vk.RuneWidth(r) > lim {
				break
			}
			used += vk.RuneWidth(r)
			out += string(r)
		}
		s = out + dots
	}
	return s + strings.Repeat(" ", max(0, w-width(s)))
}

func (r mref) box() []string {
	w := r.w
	out := []string{"┌" + strings.Repeat("─", w-2) + "┐"}
	sep := "├" + strings.Repeat("─", w-2) + "┤"
	line := func(s string) { out = append(out, "│ "+fit(s, w-4)+" │") }
	if r.title != "" {
		line(r.title)
		out = append(out, sep)
	}
	rows := r.h - len(out) - 1
	if len(r.btns) > 0 {
		rows -= 2
	}
	ls := strings.Split(r.content, "\n")
	for i := 0; i < rows; i++ {
		if i < len(ls) {
			line(ls[i])
		} else {
			line("")
		}
	}
	if len(r.btns) > 0 {
		out = append(out, sep)
		var parts []string
		for i, b := range r.btns {
			if i == r.focus {
				parts = append(parts, "< "+b.label+" >")
			} else {
				parts = append(parts, "[ "+b.label+" ]")
			}
		}
		line(strings.Join(parts, "  "))
	}
	return append(out, "└"+strings.Repeat("─", w-2)+"┘")
}

func mcheck(n mnode) (string, string) {
	r := n.r
	if n.m.IsVisible() != r.visible {
		return "visible", fmt.Sprintf("visible %v, want %v", n.m.IsVisible(), r.visible)
	}
	fb := ""
	if len(r.btns) > 0 {
		fb = r.btns[r.focus].action
	}
	if n.m.FocusedButton() != fb {
		return "focus", fmt.Sprintf("focused button %q, want %q", n.m.FocusedButton(), fb)
	}
	v := n.m.View()
	if !r.visible {
		if v != "" {
			return "view", fmt.Sprintf("a hidden modal draws %q", v)
		}
		return "", ""
	}
	minH := 2
	if r.title != "" {
		minH += 2
	}
	if len(r.btns) > 0 {
		minH += 2
	}
	if r.w < 4 || r.h < minH {
		return "", "" // too small to be drawn properly; View must only not panic
	}
	// The screen it is drawn on must be able to hold the box.
	x, y := r.x, r.y
	if r.center {
		x, y = max(0, (r.tw-r.w)/2), max(0, (r.th-r.h)/2)
	}
	if x < 0 || y < 0 || x+r.w > r.tw || y+r.h > r.th {
		return "", ""
	}
	box := r.box()
	var want []string
	fill := " "
	if r.dim {
		fill = "░"
	}
	for row := 0; row < r.th; row++ {
		if row < y || row >= y+r.h {
			want = append(want, strings.Repeat(fill, r.tw))
		} else {
			want = append(want, strings.Repeat(fill, x)+box[row-y]+strings.Repeat(fill, r.tw-x-r.w))
		}
	}
	for _, raw := range []bool{false, true} {
		t := vk.NewTerm(r.tw, r.th)
		t.LFOnly = raw
		t.WriteString(v)
		if t.Screen() != strings.Join(want, "|") {
			return "box", fmt.Sprintf("screen:\n%s\nwant:\n%s\n", strings.ReplaceAll(t.Screen(), "|", "\n"), strings.Join(want, "\n"))
		}
		if len(t.Scrollback) > 0 {
			return "scroll", "drawing the modal scrolled the screen"
		}
	}
	return "", ""
}

func modals(c *vk.C) {
	sets := [][]btn{nil, {{"OK", "o", "ok"}}, {{"Yes", "y", "confirm"}, {"No", "n", "deny"}}, {{"Да", "д", "a"}, {"B", "b", "b"}, {"Long label", "", "c"}}}
	var ops []vk.Op[mnode]
	build := func(name string, do func(x *modal.Modal) *modal.Modal, f func(r *mref)) {
		ops = append(ops, vk.Op[mnode]{Name: name, Do: func(n mnode) (mnode, bool, string, string) {
			pd := vk.Dump(n.m)
			nx := mnode{m: do(n.m), r: n.r}
			if vk.Dump(n.m) != pd {
				return nx, true, "mutated", "the operation changed the modal it was called on"
			}
			f(&nx.r)
			return nx, true, "", ""
		}})
	}
	msg := func(name string, m tea.Msg, f func(r *mref) string) {
		ops = append(ops, vk.Op[mnode]{Name: name, Do: func(n mnode) (mnode, bool, string, string) {
			pd := vk.Dump(n.m)
			nm, cmd := n.m.Update(m)
			nx := mnode{m: nm, r: n.r}
			if vk.Dump(n.m) != pd {
				return nx, true, "mutated", "the message changed the modal it was sent to"
			}
			want := ""
			if n.r.visible {
				want = f(&nx.r)
			} else if ws, ok := m.(tea.WindowSizeMsg); ok {
				nx.r.tw, nx.r.th = ws.Width, ws.Height
			}
			got := ""
			if cmd != nil {
				switch x := cmd().(type) {
				case nil:
				case modal.ButtonPressedMsg:
					got = "pressed " + x.Action
				default:
					got = fmt.Sprintf("%T", x)
				}
			}
			if got != want {
				return nx, true, "report", fmt.Sprintf("reported %q, want %q", got, want)
			}
			return nx, true, "", ""
		}})
	}
	for _, s := range [][2]int{{12, 5}, {30, 9}, {8, 7}, {7, 6}, {5, 3}, {4, 4}, {3, 2}, {0, 0}} {
		build(fmt.Sprintf("size %dx%d", s[0], s[1]), func(x *modal.Modal) *modal.Modal { return x.Size(s[0], s[1]) }, func(r *mref) { r.w, r.h = s[0], s[1] })
	}
	build("position 3,1", func(x *modal.Modal) *modal.Modal { return x.Position(3, 1) }, func(r *mref) { r.x, r.y, r.center = 3, 1, false })
	build("position 0,0", func(x *modal.Modal) *modal.Modal { return x.Position(0, 0) }, func(r *mref) { r.x, r.y, r.center = 0, 0, false })
	build("centered", func(x *modal.Modal) *modal.Modal { return x.Centered() }, func(r *mref) { r.center = true; r.x, r.y = 0, 0 })
	for _, d := range []bool{true, false} {
		build(fmt.Sprint("dim ", d), func(x *modal.Modal) *modal.Modal { return x.DimBackground(d) }, func(r *mref) { r.dim = d })
	}
	build("show", func(x *modal.Modal) *modal.Modal { return x.Show() }, func(r *mref) { r.visible = true })
	build("hide", func(x *modal.Modal) *modal.Modal { return x.Hide() }, func(r *mref) { r.visible = false })
	for i, s := range sets {
		build(fmt.Sprint("buttons ", i), func(x *modal.Modal) *modal.Modal {
			var bs []modal.Button
			for _, b := range s {
				bs = append(bs, modal.Button{Label: b.label, Key: b.key, Action: b.action})
			}
			nm := x.Buttons(bs)
			for i := range bs {
				bs[i].Action = "clobbered"
			}
			return nm
		}, func(r *mref) { r.btns, r.focus = s, 0 })
	}
	for _, s := range [][2]int{{80, 24}, {31, 10}, {12, 5}} {
		msg(fmt.Sprintf("terminal %dx%d", s[0], s[1]), tea.WindowSizeMsg{Width: s[0], Height: s[1]}, func(r *mref) string { r.tw, r.th = s[0], s[1]; return "" })
	}
	move := func(d int) func(r *mref) string {
		return func(r *mref) string {
			if n := len(r.btns); n > 0 {
				r.focus = (r.focus + d + n) % n
			}
			return ""
		}
	}
	closing := func(r *mref) string { r.visible = false; return "" }
	activate := func(r *mref) string {
		if len(r.btns) > 0 {
			return "pressed " + r.btns[r.focus].action
		}
		return ""
	}
	hot := func(k string) func(r *mref) string {
		return func(r *mref) string {
			for _, b := range r.btns {
				if b.key != "" && strings.EqualFold(b.key, k) {
					return "pressed " + b.action
				}
			}
			return ""
		}
	}
	none := func(r *mref) string { return "" }
	// A key acts by the bindings in force, and otherwise as a button's own key.
	key := func(k tea.KeyMsg, std, custom func(r *mref) string) {
		msg("key "+k.String(), k, func(r *mref) string {
			if r.custom {
				return custom(r)
			}
			return std(r)
		})
	}
	key(tea.KeyMsg{Type: tea.KeyEsc}, closing, none)
	key(tea.KeyMsg{Type: tea.KeyTab}, move(1), none)
	key(tea.KeyMsg{Type: tea.KeyRight}, move(1), none)
	key(tea.KeyMsg{Type: tea.KeyLeft}, move(-1), move(1))
	key(tea.KeyMsg{Type: tea.KeyTab, Shift: true}, move(-1), none)
	key(tea.KeyMsg{Type: tea.KeyEnter}, activate, none)
	key(tea.KeyMsg{Type: tea.KeySpace}, none, activate)
	for _, k := range "oOyYnbдxqp" {
		own := hot(string(k))
		custom := own
		switch k {
		case 'q':
			custom = closing
		case 'n':
			custom = move(1)
		case 'p':
			custom = move(-1)
		case 'b':
			custom = func(r *mref) string {
				if len(r.btns) > 0 {
					return activate(r)
				}
				return own(r)
			}
		}
		key(tea.KeyMsg{Type: tea.KeyRune, Rune: k}, own, custom)
	}
	build("other key bindings", func(x *modal.Modal) *modal.Modal {
		return x.KeyBindings(zzv.Keys([]string{"q"}, []string{"n", "←"}, []string{"p"}, []string{"space", "b"}))
	}, func(r *mref) { r.custom = true })
	for _, m := range []tea.Msg{tea.KeyMsg{Type: tea.KeyUp}, tea.KeyMsg{Type: tea.KeyCtrlC}, tea.KeyMsg{Type: tea.KeyRune, Rune: 'y', Ctrl: true}, "text"} {
		msg(fmt.Sprintf("ignored %v", m), m, none)
	}
	contents := []string{"", "one", "first\nsecond line\n漢字漢字漢字漢字\nfourth\nfifth\nsixth\nseventh\neighth\nninth"}
	var init []vk.Named[mnode]
	for _, t := range []string{"", "Title", "Titel ü漢 which is rather long"} {
		for i, ct := range contents {
			r := mref{title: t, content: ct, w: 40, h: 10, center: true, tw: 80, th: 24}
			var m *modal.Modal
			if t == "" {
				m = modal.New(ct)
			} else {
				m = modal.NewWithTitle(t, ct)
			}
			init = append(init, vk.Named[mnode]{Name: fmt.Sprintf("title %q content %d", t, i), N: mnode{m: m, r: r}})
		}
	}
	s := vk.Space[mnode]{Label: "modal", Ops: ops, Check: mcheck, Depth: vk.Pick(c, 5, 7), Max: vk.Pick(c, 25000, 300000), Sample: 3000, Init: init,
		Key: func(n mnode) string { return vk.Dump(n.m) + fmt.Sprintf("%+v", n.r) }, Full: true}
	s.Run(c)

	// Large boxes on large terminals: every combination of the sizes.
	long := func(n, m int) string {
		var ls []string
		for i := 0; i < n; i++ {
			ls = append(ls, strings.Repeat([]string{"word ", "漢字 ", "ü", ""}[i%4], (i*5+m)%40))
		}
		return strings.Join(ls, "\n")
	}
	var many []btn
	for i := 0; i < 14; i++ {
		many = append(many, btn{fmt.Sprintf("Button %d", i), string(rune('a' + i)), fmt.Sprint("act", i)})
	}
	type job struct {
		tw, th, w, h int
	}
	var jobs []job
	for _, tw := range []int{40, 80, 99, 100, 101, 127, 128, 132, 200, 257} {
		for _, th := range []int{24, 25, 50, 64, 101} {
			for _, w := range []int{39, 40, 41, 79, 80, 99, 100, 101, 126, 127, 128, 200, 255, 257} {
				for _, h := range []int{9, 10, 24, 25, 49, 50, 64, 101} {
					if w <= tw && h <= th {
						jobs = append(jobs, job{tw, th, w, h})
					}
				}
			}
		}
	}
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		for v := 0; v < 4; v++ {
			r := mref{w: j.w, h: j.h, center: true, dim: v%2 == 1, visible: true, tw: j.tw, th: j.th, content: long(v*40, j.w)}
			if v > 0 {
				r.title = strings.Repeat("Title 漢 ", v*v*4)
			}
			if v > 1 {
				r.btns, r.focus = many[:v*v+4], 0
			}
			m := modal.NewWithTitle(r.title, r.content).Size(j.w, j.h).DimBackground(r.dim).Show()
			if len(r.btns) > 0 {
				var bs []modal.Button
				for _, b := range r.btns {
					bs = append(bs, modal.Button{Label: b.label, Key: b.key, Action: b.action})
				}
				m = m.Buttons(bs)
			}
			if v == 3 {
				r.center, r.x, r.y = false, j.tw-j.w, j.th-j.h
				m = m.Position(r.x, r.y)
			}
			m, _ = m.Update(tea.WindowSizeMsg{Width: j.tw, Height: j.th})
			for _, presses := range []int{0, 1, 5} {
				for p := 0; p < presses && len(r.btns) > 0; p++ {
					m, _ = m.Update(tea.KeyMsg{Type: tea.KeyTab})
					r.focus = (r.focus + 1) % len(r.btns)
				}
				c.States.Add(1)
				c.Transitions.Add(1)
				c.Traces.Add(1)
				c.Evals.Add(1)
				if k, bad := mcheck(mnode{m, r}); bad != "" {
					c.Fail(k, fmt.Sprintf("modal %dx%d on a terminal %dx%d, variant %d, %d times tab: %s", j.w, j.h, j.tw, j.th, v, presses, bad), fmt.Sprint(j, v, presses))
				}
				if len(r.btns) == 0 {
					break
				}
			}
		}
	})
	c.Part("large modals: %d combinations of box and terminal sizes, 4 variants", len(jobs))
}

func main() {
	vk.Main("C37", "model_checking", 0, func(c *vk.C) {
		c.Rule("breadth-first over dialog states: every sequence of configuration calls, keys and messages up to the depth, compared with reference dialogs; a visible modal is drawn on a terminal emulator and compared cell by cell")
		confirms(c)
		modals(c)
	})
}
