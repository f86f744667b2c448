// C30: single-line input against a reference editor.
package main

import (
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/components/input/zzv"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea"
	"github.com/rivo/uniseg"
)

// clusters splits a text into user-perceived characters.
func clusters(s string) []string {
	var out []string
	for gr := uniseg.NewGraphemes(s); gr.Next(); {
		out = append(out, gr.Str())
	}
	return out
}

// ref is an ideal editor: the text and the cursor as a byte position that is
// always on a character boundary.
type ref struct {
	s       string
	cur     int // byte position
	selA    int // selection in characters, -1: none
	selB    int
	ph      string
	focused bool
	show    bool
	w       int
	valid   string
	custom  bool
}

// settle moves the cursor to the next character boundary.
func (r *ref) settle() {
	p := 0
	for _, c := range clusters(r.s) {
		if p >= r.cur {
			break
		}
		p += len(c)
	}
	r.cur = p
}

func (r *ref) index() int { // characters before the cursor
	n, p := 0, 0
	for _, c := range clusters(r.s) {
		if p >= r.cur {
			break
		}
		p += len(c)
		n++
	}
	return n
}

func (r *ref) moveTo(i int) {
	cs := clusters(r.s)
	i = max(0, min(i, len(cs)))
	r.cur = len(strings.Join(cs[:i], ""))
}

func (r *ref) deselect() { r.selA, r.selB = -1, -1 }

func (r *ref) delSel() bool {
	if r.selA < 0 || r.selA == r.selB {
		return false
	}
	cs := clusters(r.s)
	before := strings.Join(cs[:r.selA], "")
	r.s = before + strings.Join(cs[r.selB:], "")
	r.cur = len(before)
	r.settle()
	r.deselect()
	return true
}

func (r *ref) insert(c rune) {
	r.delSel()
	before, after := r.s[:r.cur], r.s[r.cur:]
	r.s = before + string(c) + after
	r.cur = len(before) + len(string(c))
	r.settle()
}

func (r *ref) backspace() {
	if r.delSel() || r.cur == 0 {
		return
	}
	cs := clusters(r.s[:r.cur])
	l := len(cs[len(cs)-1])
	r.s = r.s[:r.cur-l] + r.s[r.cur:]
	r.cur -= l
	r.settle()
}

func (r *ref) delete() {
	if r.delSel() || r.cur == len(r.s) {
		return
	}
	l := len(clusters(r.s[r.cur:])[0])
	r.s = r.s[:r.cur] + r.s[r.cur+l:]
	r.settle()
}

func (r *ref) setText(s string) { // the cursor keeps its index, the selection its range
	i := r.index()
	r.s = s
	r.moveTo(i)
	if r.selA >= 0 {
		n := len(clusters(s))
		r.selA, r.selB = min(r.selA, n), min(r.selB, n)
		if r.selA == r.selB {
			r.deselect()
		}
	}
}

type validator struct {
	f   input.ValidationFunc
	ref func(s string) bool
}

var validators = map[string]validator{
	"":         {nil, func(string) bool { return true }},
	"notempty": {input.NotEmpty(), func(s string) bool { return s != "" }},
	"min3":     {input.MinLength(3), func(s string) bool { return len(s) >= 3 }},
	"max4":     {input.MaxLength(4), func(s string) bool { return len(s) <= 4 }},
	"1..3":     {input.Range(1, 3), func(s string) bool { return len(s) >= 1 && len(s) <= 3 }},
	"chain":    {input.Chain(input.NotEmpty(), input.MaxLength(2)), func(s string) bool { return s != "" && len(s) <= 2 }},
}

type run struct {
	text string
	on   bool
}

// runs splits rendered text into styled and unstyled runs.
func runs(v string) []run {
	var out []run
	on := false
	for v != "" {
		if strings.HasPrefix(v, "\x1b[") {
			e := strings.IndexByte(v, 'm')
			if e < 0 {
				return append(out, run{"broken escape " + v, on})
			}
			p := v[2:e]
			on = p != "" && p != "0"
			v = v[e+1:]
			continue
		}
		e := strings.IndexByte(v, 0x1b)
		if e < 0 {
			e = len(v)
		}
		if n := len(out); n > 0 && out[n-1].on == on {
			out[n-1].text += v[:e]
		} else {
			out = append(out, run{v[:e], on})
		}
		v = v[e:]
	}
	return out
}

// view is what must be visible: the characters before the cursor, the cursor cell, those after.
func (r ref) view() []run {
	if r.s == "" && !r.focused {
		if r.ph == "" {
			return nil
		}
		return []run{{r.ph, true}}
	}
	before, after := clusters(r.s[:r.cur]), clusters(r.s[r.cur:])
	at, cw := "", 0
	if len(after) > 0 {
		at, after = after[0], after[1:]
		cw = uniseg.StringWidth(at)
	} else if r.focused && r.show {
		at, cw = " ", 1
	}
	sum := func(cs []string) int {
		n := 0
		for _, c := range cs {
			n += uniseg.StringWidth(c)
		}
		return n
	}
	if sum(before)+cw+sum(after) > r.w {
		room := r.w - max(cw, 1)
		for len(before) > 0 && sum(before) > room {
			before = before[1:]
		}
		room -= sum(before)
		n := 0
		for n < len(after) && sum(after[:n+1]) <= room {
			n++
		}
		after = after[:n]
	}
	var out []run
	add := func(s string, on bool) {
		if s == "" {
			return
		}
		if n := len(out); n > 0 && out[n-1].on == on {
			out[n-1].text += s
			return
		}
		out = append(out, run{s, on})
	}
	add(strings.Join(before, ""), false)
	add(at, r.focused && r.show)
	add(strings.Join(after, ""), false)
	return out
}

type node struct {
	in input.Input
	r  ref
}

func check(n node) (string, string) {
	r := n.r
	if n.in.Value() != r.s {
		return "value", fmt.Sprintf("value %q, want %q", n.in.Value(), r.s)
	}
	if n.in.CursorPosition() != r.index() {
		return "cursor", fmt.Sprintf("cursor %d in %q, want %d", n.in.CursorPosition(), r.s, r.index())
	}
	b, a, f := n.in.ContentParts()
	after := clusters(r.s[r.cur:])
	at := ""
	if len(after) > 0 {
		at = after[0]
	}
	if b != r.s[:r.cur] || a != at || b+a+f != r.s {
		return "parts", fmt.Sprintf("parts %q %q %q of %q with cursor at byte %d", b, a, f, r.s, r.cur)
	}
	if n.in.IsFocused() != r.focused {
		return "focused", "focus state wrong"
	}
	if v := validators[r.valid].ref(r.s); n.in.IsValid() != v {
		return "valid", fmt.Sprintf("IsValid %v for %q with %q", n.in.IsValid(), r.s, r.valid)
	}
	v := n.in.View()
	got, want := runs(v), r.view()
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return "view", fmt.Sprintf("view %q shows %q, want %q (text %q cursor %d width %d)", v, got, want, r.s, r.index(), r.w)
	}
	w := 0
	for _, x := range got {
		w += uniseg.StringWidth(x.text)
	}
	if r.s != "" && w > max(r.w, 2) {
		return "width", fmt.Sprintf("view is %d wide, width is %d", w, r.w)
	}
	return "", ""
}

func main() {
	vk.Main("C30", "model_checking", 0, func(c *vk.C) {
		c.Rule("breadth-first over editor states: every sequence of keys and calls up to the depth over texts with combining, joined, flag and wide characters, in lockstep with a reference editor; the value operated on must not change")
		var ops []vk.Op[node]
		op := func(name string, f func(in input.Input) input.Input, g func(r *ref)) {
			ops = append(ops, vk.Op[node]{Name: name, Do: func(n node) (node, bool, string, string) {
				before := vk.Dump(n.in)
				nx := node{f(n.in), n.r}
				g(&nx.r)
				if vk.Dump(n.in) != before {
					return nx, true, "mutated", "the input the operation was called on changed"
				}
				return nx, true, "", ""
			}})
		}
		key := func(k tea.KeyMsg, g func(r *ref)) {
			op("key "+k.String(), func(in input.Input) input.Input {
				nx, _ := in.Update(k)
				return nx
			}, func(r *ref) {
				if r.focused {
					g(r)
				}
			})
		}
		for _, x := range []rune{'a', 'Z', 0x301, 0x6f22, 0x1F1E9, 0x200D, 0x1F469} {
			key(tea.KeyMsg{Type: tea.KeyRune, Rune: x}, func(r *ref) { r.insert(x) })
		}
		key(tea.KeyMsg{Type: tea.KeySpace, Rune: ' '}, func(r *ref) { r.insert(' ') })
		key(tea.KeyMsg{Type: tea.KeyLeft}, func(r *ref) { r.moveTo(r.index() - 1); r.deselect() })
		key(tea.KeyMsg{Type: tea.KeyRight}, func(r *ref) { r.moveTo(r.index() + 1); r.deselect() })
		key(tea.KeyMsg{Type: tea.KeyHome}, func(r *ref) { r.cur = 0; r.deselect() })
		key(tea.KeyMsg{Type: tea.KeyEnd}, func(r *ref) { r.cur = len(r.s); r.deselect() })
		key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'e', Ctrl: true}, func(r *ref) { r.cur = len(r.s); r.deselect() })
		key(tea.KeyMsg{Type: tea.KeyBackspace}, func(r *ref) { r.backspace() })
		key(tea.KeyMsg{Type: tea.KeyDelete}, func(r *ref) { r.delete() })
		key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'u', Ctrl: true}, func(r *ref) { r.s, r.cur = "", 0; r.deselect() })
		key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'a', Ctrl: true}, func(r *ref) {
			r.cur = len(r.s)
			r.selA, r.selB = 0, len(clusters(r.s))
			if r.s == "" {
				r.deselect()
			}
		})
		key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'E', Ctrl: true}, func(r *ref) { r.cur = len(r.s); r.deselect() })
		key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'U', Ctrl: true}, func(r *ref) { r.s, r.cur = "", 0; r.deselect() })
		key(tea.KeyMsg{Type: tea.KeyRune, Rune: 'A', Ctrl: true}, func(r *ref) {
			r.cur = len(r.s)
			r.selA, r.selB = 0, len(clusters(r.s))
			if r.s == "" {
				r.deselect()
			}
		})
		// custom keys: F2 and F3 do something of their own (and Z differs), everything else stays
		key(tea.KeyMsg{Type: tea.KeyF2}, func(r *ref) {
			if !r.custom {
				return
			}
			// the first handler that changes something wins
			if r.s != "custom" || r.index() != 2 {
				r.s = "custom"
				r.moveTo(2)
			} else {
				r.s = "second handler"
				r.moveTo(5)
			}
			r.deselect()
		})
		key(tea.KeyMsg{Type: tea.KeyF3}, func(r *ref) {
			if r.custom && r.cur != 0 {
				r.cur = 0
				r.deselect()
			}
		})
		op("custom keys", func(in input.Input) input.Input { return in.KeyBindings(zzv.Custom()) }, func(r *ref) { r.custom = true })
		for _, k := range []tea.KeyMsg{{Type: tea.KeyRune, Rune: 'k', Ctrl: true}, {Type: tea.KeyRune, Rune: 'a', Alt: true}, {Type: tea.KeyRune, Rune: 0x6f22, Alt: true}, {Type: tea.KeyUp}, {Type: tea.KeyEnter}, {Type: tea.KeyTab}, {Type: tea.KeyEsc}, {Type: tea.KeyF1}} {
			key(k, func(r *ref) {})
		}
		op("other message", func(in input.Input) input.Input { nx, _ := in.Update("text"); return nx }, func(r *ref) {})
		for _, s := range []string{"", "hello", "e\u0301a", "\u6f22\u5b57x", "\U0001F1E9\U0001F1EAb", "\U0001F469\u200d\U0001F469z"} {
			op(fmt.Sprintf("content %q", s), func(in input.Input) input.Input { return in.Content(s) }, func(r *ref) { r.setText(s) })
		}
		for _, x := range []struct {
			s string
			p int
		}{{"abc", 1}, {"e\u0301\u6f22", 1}, {"xy", 99}, {"xy", -1}, {"", 3}} {
			op(fmt.Sprintf("set content %q at %d", x.s, x.p), func(in input.Input) input.Input { return in.SetContent(x.s, x.p) }, func(r *ref) { r.s = x.s; r.moveTo(x.p); r.deselect() })
		}
		for _, w := range []int{-1, 1, 2, 3, 5} {
			op(fmt.Sprint("width ", w), func(in input.Input) input.Input { return in.Width(w) }, func(r *ref) { r.w = max(1, w) })
		}
		for _, b := range []bool{true, false} {
			op(fmt.Sprint("focused ", b), func(in input.Input) input.Input { return in.Focused(b) }, func(r *ref) { r.focused = b })
			op(fmt.Sprint("show cursor ", b), func(in input.Input) input.Input { return in.ShowCursor(b) }, func(r *ref) { r.show = b })
		}
		op("placeholder", func(in input.Input) input.Input { return in.Placeholder("name") }, func(r *ref) { r.ph = "name" })
		for _, name := range []string{"", "notempty", "min3", "max4", "1..3", "chain"} {
			v := validators[name]
			op("validator "+name, func(in input.Input) input.Input { return in.Validator(v.f) }, func(r *ref) { r.valid = name })
		}
		base := func(w int) node {
			return node{*input.New(w), ref{selA: -1, selB: -1, show: true, w: max(1, w)}}
		}
		foc := func(n node, s string, p int) node {
			n.in = n.in.Focused(true).SetContent(s, p)
			n.r.focused, n.r.s = true, s
			n.r.moveTo(p)
			return n
		}
		texts := []string{"abc", "a\u0301b\u0301", "\u6f22\u5b57", "\U0001F1E9\U0001F1EA\U0001F1EB", "\U0001F469\u200d\U0001F469", "a \u6f22\U0001F1E9\U0001F1EAe\u0301x"}
		init := []vk.Named[node]{{Name: "new 0", N: base(0)}, {Name: "new 3", N: base(3)}, {Name: "new 10", N: base(10)}, {Name: "focused 4", N: foc(base(4), "", 0)}, {Name: "focused 20", N: foc(base(20), "", 0)}}
		all := vk.Space[node]{Label: "all operations", Init: init, Ops: ops, Check: check, Depth: vk.Pick(c, 4, 6), Max: vk.Pick(c, 150000, 1500000), Sample: 9000,
			Key: func(n node) string { return vk.Dump(n.in) + fmt.Sprintf("%+v", n.r) }, Full: true}
		all.Run(c)
		var edits []vk.Op[node]
		for _, o := range ops {
			if strings.HasPrefix(o.Name, "key ") {
				edits = append(edits, o)
			}
		}
		edits = append(edits, vk.ByName(ops, `content ""`, `content "hello"`)...)
		var ti []vk.Named[node]
		for _, t := range texts {
			for _, w := range []int{1, 2, 5, 12} {
				ti = append(ti, vk.Named[node]{Name: fmt.Sprintf("%q width %d", t, w), N: foc(base(w), t, 1)})
			}
		}
		keys := vk.Space[node]{Label: "keys", Init: ti, Ops: edits, Check: check, Depth: vk.Pick(c, 4, 6), Max: vk.Pick(c, 700000, 3000000), Sample: 9000, Key: all.Key, Full: true}
		keys.Run(c)
		// long texts in wide fields, in long runs of keys
		long := strings.Repeat("lorem ipsum 漢字 é 🇩🇪 ", 20)
		var li []vk.Named[node]
		for _, w := range []int{1, 8, 40, 80, 200} {
			for _, n := range []int{0, 31, 79, 99, 121, 128, 300} {
				t := strings.Join(clusters(long)[:n], "")
				for _, p := range []int{0, n / 2, n} {
					li = append(li, vk.Named[node]{Name: fmt.Sprintf("%d characters width %d cursor %d", n, w, p), N: foc(base(w), t, p)})
				}
			}
		}
		moves := vk.ByName(ops, "key a", "key 漢", "key ←", "key →", "key backspace", "key delete", "key end", "key home", "key ctrl+a")
		lr := vk.Runs[node]{Label: "long texts", Init: li, Check: check, Key: all.Key, Phases: []vk.Phase[node]{
			{Ops: moves, Reps: []int{1, 20, vk.Pick(c, 60, 310)}},
			{Ops: append(vk.ByName(ops, "width 5", "key ctrl+u", "content \"hello\""), moves...), Reps: []int{1, 2, vk.Pick(c, 3, 60)}},
			{Ops: moves[:4], Reps: []int{1}},
		}}
		lr.Run(c)
	})
}
