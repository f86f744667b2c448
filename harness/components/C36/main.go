// C36: forms against a reference form.
package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/phoenix-tui/phoenix/components/form"
	"github.com/phoenix-tui/phoenix/components/form/zzv"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea"
)

// textModel is an editable text field.
type textModel struct{ v string }

func (t textModel) Value() string { return t.v }
func (t textModel) View() string  { return "[" + t.v + "]" }
func (t textModel) Update(msg tea.Msg) (zzv.FieldModel, tea.Cmd) {
	switch m := msg.(type) {
	case tea.KeyMsg:
		switch m.Type {
		case tea.KeyRune:
			t.v += string(m.Rune)
		case tea.KeyBackspace:
			if t.v != "" {
				_, n := utf8.DecodeLastRuneInString(t.v)
				t.v = t.v[:len(t.v)-n]
			}
		default:
			v := t.v
			return t, func() tea.Msg { return "field:" + v }
		}
	case setMsg:
		t.v = string(m)
	}
	return t, nil
}

type setMsg string

// pickModel is a choice that may be empty.
type pickModel struct{ n int }

func (p pickModel) View() string { return fmt.Sprintf("{%d}", p.n) }
func (p pickModel) SelectedValue() (any, bool) {
	return fmt.Sprint("opt", p.n), p.n > 0
}
func (p pickModel) Update(msg tea.Msg) (zzv.FieldModel, tea.Cmd) {
	if m, ok := msg.(tea.KeyMsg); ok && m.Type == tea.KeyRune {
		p.n = (p.n + 1) % 3
	}
	return p, nil
}

// fixedModel cannot be edited; validators get the model itself.
type fixedModel struct{ s string }

func (f fixedModel) View() string { return f.s }

// initModel has something to do when the program starts.
type initModel struct{ s string }

func (m initModel) View() string                             { return m.s }
func (m initModel) Update(tea.Msg) (zzv.FieldModel, tea.Cmd) { return m, nil }
func (m initModel) Init() tea.Cmd {
	if m.s == "" {
		return nil
	}
	return func() tea.Msg { return m.s }
}

type valid struct {
	name string
	v    zzv.Validator
	ref  func(v any) string // "" when valid
}

func str(f func(s string) string) func(any) string {
	return func(v any) string {
		s, ok := v.(string)
		if !ok {
			return "invalid type (expected string)"
		}
		return f(s)
	}
}

var vals = map[string]valid{
	"required": {"required", zzv.Required(), func(v any) string {
		if s, ok := v.(string); v == nil || ok && strings.TrimSpace(s) == "" {
			return "required"
		}
		return ""
	}},
	"min2": {"min2", zzv.MinLength(2), str(func(s string) string {
		if utf8.RuneCountInString(s) < 2 {
			return "must be at least 2 characters"
		}
		return ""
	})},
	"max2": {"max2", zzv.MaxLength(2), str(func(s string) string {
		if utf8.RuneCountInString(s) > 2 {
			return "must be at most 2 characters"
		}
		return ""
	})},
	"pattern": {"pattern", zzv.Pattern("^a+$"), str(func(s string) string {
		if strings.Trim(s, "a") != "" || s == "" {
			return "invalid format"
		}
		return ""
	})},
	"email": {"email", zzv.Email(), str(func(s string) string {
		if !emailOK(s) {
			return "invalid email format"
		}
		return ""
	})},
	"fixedOK": {"fixedOK", zzv.Custom(func(v any) error {
		if _, ok := v.(fixedModel); !ok {
			return fmt.Errorf("not the model")
		}
		return nil
	}), func(v any) string { return "" }},
	"never": {"never", zzv.Custom(func(v any) error { return fmt.Errorf("never %v", v) }), func(v any) string { return fmt.Sprintf("never %v", v) }},
}

var domainRe = regexp.MustCompile(`^([A-Za-z0-9-]+\.)*[A-Za-z0-9.-]*\.[A-Za-z][A-Za-z]+$`)

func emailOK(s string) bool {
	i := strings.LastIndexByte(s, '@')
	if i <= 0 {
		return false
	}
	for _, r := range s[:i] {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("._%+-", r)) {
			return false
		}
	}
	d := s[i+1:]
	j := strings.LastIndexByte(d, '.')
	return j > 0 && domainRe.MatchString(d)
}

type fld struct {
	name, label string
	model       zzv.FieldModel
	vs          []string
	touched     bool
	dirty       bool
	errs        []string
}

type ref struct {
	title   string
	fields  []fld
	focus   int
	pending string // what the last command must produce
}

func (r ref) copy() ref {
	r.fields = append([]fld(nil), r.fields...)
	return r
}

func valueOf(m zzv.FieldModel) any {
	switch x := m.(type) {
	case textModel:
		return x.v
	case pickModel:
		if x.n == 0 {
			return nil
		}
		return fmt.Sprint("opt", x.n)
	}
	return m
}

func (r *ref) validate() bool {
	ok := true
	for i := range r.fields {
		f := &r.fields[i]
		f.errs = nil
		for _, v := range f.vs {
			if e := vals[v].ref(valueOf(f.model)); e != "" {
				f.errs = append(f.errs, e)
				ok = false
			}
		}
	}
	return ok
}

func (r ref) valid() bool {
	for _, f := range r.fields {
		if len(f.errs) > 0 {
			return false
		}
	}
	return true
}

func (r ref) view() string {
	var b strings.Builder
	for i, f := range r.fields {
		if i > 0 {
			b.WriteString("\n\n")
		}
		b.WriteString(f.label + ":")
		if i == r.focus {
			b.WriteString(" ← focused")
		}
		b.WriteString("\n" + f.model.View())
		for _, e := range f.errs {
			b.WriteString("\n✗ " + e)
		}
		if len(f.errs) == 0 && f.touched {
			b.WriteString("\n✓ Valid")
		}
	}
	return b.String()
}

type node struct {
	f    *form.Form
	r    ref
	prev []snap // forms this one was derived from, and what they must still be
}

type snap struct {
	f    *form.Form
	dump string
}

func (n node) key() string { return vk.Dump(n.f) + "|" + fmt.Sprintf("%+v", n.r) }

func check(n node) (string, string) {
	r := n.r
	for _, s := range n.prev {
		if d := vk.Dump(s.f); d != s.dump {
			return "mutated", "a form was changed by an operation on a form derived from it: " + s.f.View()
		}
	}
	vs := n.f.Values()
	if len(vs) != len(r.fields) {
		return "values", fmt.Sprintf("Values has %d entries, want %d", len(vs), len(r.fields))
	}
	errs := n.f.Errors()
	want := map[string][]string{}
	dirty := false
	for _, f := range r.fields {
		if !reflect.DeepEqual(vs[f.name], f.model) {
			return "values", fmt.Sprintf("Values[%s] = %v, want %v", f.name, vs[f.name], f.model)
		}
		if got := n.f.Value(f.name); !reflect.DeepEqual(got, f.model) {
			return "value", fmt.Sprintf("Value(%s) = %v, want %v", f.name, got, f.model)
		}
		if len(f.errs) > 0 {
			want[f.name] = f.errs
		}
		dirty = dirty || f.dirty
	}
	if n.f.Value("absent") != nil {
		return "value", "a field that does not exist has a value"
	}
	if !reflect.DeepEqual(errs, want) {
		return "errors", fmt.Sprintf("Errors = %v, want %v", errs, want)
	}
	if n.f.IsValid() != r.valid() {
		return "isvalid", fmt.Sprintf("IsValid = %v with errors %v", n.f.IsValid(), want)
	}
	if n.f.IsDirty() != dirty {
		return "isdirty", fmt.Sprintf("IsDirty = %v, want %v", n.f.IsDirty(), dirty)
	}
	v := n.f.View()
	if r.title != "" && !strings.HasPrefix(v, r.title+"\n") {
		return "view", fmt.Sprintf("view does not start with the title: %q", v)
	}
	if !strings.Contains(v, r.view()+"\n") {
		return "view", fmt.Sprintf("view %q does not contain the fields %q", v, r.view())
	}
	if strings.Count(v, "← focused") != min(1, len(r.fields)) {
		return "focus", fmt.Sprintf("not exactly one focused field: %q", v)
	}
	if strings.Count(v, "✗") != strings.Count(r.view(), "✗") {
		return "view", fmt.Sprintf("errors shown that do not exist: %q", v)
	}
	return "", ""
}

func runCmd(cmd tea.Cmd) string {
	if cmd == nil {
		return ""
	}
	m := cmd()
	if m == nil {
		return ""
	}
	switch m.(type) {
	case form.SubmitMsg:
		return "submit"
	case tea.QuitMsg:
		return "quit"
	}
	return fmt.Sprint(m)
}

func main() {
	vk.Main("C36", "model_checking", 0, func(c *vk.C) {
		c.Rule("breadth-first over form states: every sequence of keys, messages and added fields up to the depth; every reached form and all forms it was derived from are compared with a reference form")
		mk := func(title string, fs ...fld) vk.Named[node] {
			f := form.New(title)
			r := ref{title: title}
			for _, x := range fs {
				var vv []zzv.Validator
				for _, v := range x.vs {
					vv = append(vv, vals[v].v)
				}
				f = f.Field(x.name, x.label, x.model, vv...)
				r.fields = append(r.fields, x)
			}
			return vk.Named[node]{Name: fmt.Sprintf("%q with %d fields", title, len(fs)), N: node{f: f, r: r}}
		}
		text := func(name string, v string, vs ...string) fld {
			return fld{name: name, label: "L" + name, model: textModel{v}, vs: vs}
		}
		pick := func(name string, vs ...string) fld {
			return fld{name: name, label: "L" + name, model: pickModel{}, vs: vs}
		}
		fixed := func(name string, vs ...string) fld {
			return fld{name: name, label: "L" + name, model: fixedModel{"<" + name + ">"}, vs: vs}
		}
		init := []vk.Named[node]{
			mk(""), mk("Empty"),
			mk("One", text("a", "", "required")),
			mk("Two", text("a", "", "required", "min2"), pick("p", "required")),
			mk("", text("a", "aa", "pattern", "max2"), fixed("f", "fixedOK")),
			mk("Three", text("a", "", "required", "min2"), fixed("f"), text("b", "x", "max2", "pattern")),
			mk("Formular ü", pick("p", "required"), text("b", "é", "min2", "max2"), text("e", "a@b.co", "email"), fixed("f", "never")),
			mk("Types", pick("p", "min2", "pattern"), fixed("f", "max2", "email", "required", "min2")),
			mk("Four", text("a", "a", "pattern"), text("b", ""), pick("p"), text("d", "", "required")),
		}
		var ops []vk.Op[node]
		msg := func(name string, m tea.Msg, f func(r *ref) string) {
			ops = append(ops, vk.Op[node]{Name: name, Do: func(n node) (node, bool, string, string) {
				before := vk.Dump(n.f)
				nf, cmd := n.f.Update(m)
				nx := node{f: nf, r: n.r.copy()}
				nx.prev = append(append([]snap(nil), n.prev...), snap{n.f, before})
				if len(nx.prev) > 4 {
					nx.prev = nx.prev[len(nx.prev)-4:]
				}
				want := f(&nx.r)
				got := runCmd(cmd)
				if got != want {
					return nx, true, "command", fmt.Sprintf("command produced %q, want %q", got, want)
				}
				if vk.Dump(n.f) != before {
					return nx, true, "mutated", "the message or its command changed the form it was sent to"
				}
				return nx, true, "", ""
			}})
		}
		deliver := func(m tea.Msg) func(r *ref) string {
			return func(r *ref) string {
				if len(r.fields) == 0 {
					return ""
				}
				f := &r.fields[r.focus]
				switch x := f.model.(type) {
				case textModel:
					nm, cmd := x.Update(m)
					f.model, f.dirty = nm, true
					return runCmd(cmd)
				case pickModel:
					nm, _ := x.Update(m)
					f.model, f.dirty = nm, true
				}
				return ""
			}
		}
		move := func(d int) func(r *ref) string {
			return func(r *ref) string {
				if n := len(r.fields); n > 0 {
					r.fields[r.focus].touched = true
					r.focus = (r.focus + d + n) % n
				}
				return ""
			}
		}
		quit := func(r *ref) string { return "quit" }
		msg("tab", tea.KeyMsg{Type: tea.KeyTab}, move(1))
		msg("shift+tab", tea.KeyMsg{Type: tea.KeyTab, Shift: true}, move(-1))
		msg("enter", tea.KeyMsg{Type: tea.KeyEnter}, func(r *ref) string {
			if r.validate() {
				return "submit"
			}
			return ""
		})
		msg("ctrl+c", tea.KeyMsg{Type: tea.KeyCtrlC}, quit)
		msg("ctrl+c rune", tea.KeyMsg{Type: tea.KeyRune, Rune: 'c', Ctrl: true}, quit)
		msg("esc", tea.KeyMsg{Type: tea.KeyEsc}, quit)
		for _, m := range []tea.KeyMsg{{Type: tea.KeyRune, Rune: 'a'}, {Type: tea.KeyRune, Rune: 'c'}, {Type: tea.KeyRune, Rune: 'é'}, {Type: tea.KeyRune, Rune: ' '}, {Type: tea.KeyBackspace}, {Type: tea.KeyDown}} {
			msg("key "+m.String(), m, deliver(m))
		}
		msg("set", setMsg("aé"), deliver(setMsg("aé")))
		for _, x := range []fld{text("n1", "z", "max2"), pick("n2", "required")} {
			ops = append(ops, vk.Op[node]{Name: "add field " + x.name, Do: func(n node) (node, bool, string, string) {
				for _, f := range n.r.fields {
					if f.name == x.name {
						return n, false, "", ""
					}
				}
				var vv []zzv.Validator
				for _, v := range x.vs {
					vv = append(vv, vals[v].v)
				}
				// A sibling derived from the same form must not matter.
				other := n.f.Field("sib", "Sibling", fixedModel{"sib"})
				od := vk.Dump(other)
				nx := node{f: n.f.Field(x.name, x.label, x.model, vv...), r: n.r.copy(), prev: append(append([]snap(nil), n.prev...), snap{n.f, vk.Dump(n.f)})}
				nx.r.fields = append(nx.r.fields, x)
				if vk.Dump(other) != od {
					return nx, true, "mutated", "adding a field to a form changed another form derived from it"
				}
				nx.prev = append(nx.prev, snap{other, od})
				if len(nx.prev) > 4 {
					nx.prev = nx.prev[len(nx.prev)-4:]
				}
				return nx, true, "", ""
			}})
		}
		s := vk.Space[node]{Label: "forms", Init: init, Ops: ops, Check: check, Key: node.key, Depth: vk.Pick(c, 6, 9), Max: vk.Pick(c, 450000, 1500000), Sample: 5000}
		s.Run(c)

		// Every printable character is text for the focused field, with or without Shift.
		main := ops
		ops = nil
		for r := rune(' '); r <= '~'; r++ {
			for _, shift := range []bool{false, true} {
				m := tea.KeyMsg{Type: tea.KeyRune, Rune: r, Shift: shift}
				msg(fmt.Sprintf("key %q shift=%v", r, shift), m, deliver(m))
			}
		}
		t := vk.Space[node]{Label: "characters", Init: init, Ops: append(ops, vk.ByName(main, "tab", "enter")...), Check: check, Key: node.key, Depth: vk.Pick(c, 2, 3), Max: vk.Pick(c, 100000, 800000), Sample: 5000}
		t.Run(c)
		ops = main

		// Long forms, in long runs.
		var li []vk.Named[node]
		for _, n := range []int{9, 10, 11, 26, 64, 101} {
			for v := 0; v < 2; v++ {
				var fs []fld
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("n%d", 100+i*7%n)
					name += fmt.Sprint("-", i)
					switch (i + v) % 5 {
					case 0:
						fs = append(fs, text(name, "", "required", "min2"))
					case 1:
						fs = append(fs, pick(name, "required"))
					case 2:
						fs = append(fs, text(name, strings.Repeat("a", i), "pattern"))
					case 3:
						fs = append(fs, fixed(name))
					default:
						fs = append(fs, text(name, "some text", "required"))
					}
					if v == 1 { // everything but the last one can be submitted as it is
						fs[i].vs = nil
						if i == n-1 {
							fs[i] = text(name, "", "min2")
						}
					}
				}
				li = append(li, mk(fmt.Sprint("Long ", v), fs...))
			}
		}
		runOps := vk.ByName(ops, "tab", "shift+tab", "enter", "key a", "set", "add field n1")
		both := func(name string, names ...string) vk.Op[node] {
			return vk.Op[node]{Name: name, Do: func(n node) (node, bool, string, string) {
				for _, o := range vk.ByName(ops, names...) {
					var k, bad string
					if n, _, k, bad = o.Do(n); bad != "" {
						return n, true, k, bad
					}
				}
				return n, true, "", ""
			}}
		}
		first := append([]vk.Op[node]{both("fill in and go on", "set", "tab"), both("go back and type", "shift+tab", "key a")}, runOps...)
		lr := vk.Runs[node]{Label: "long forms", Init: li, Check: check, Key: node.key, Phases: []vk.Phase[node]{
			{Ops: first, Reps: []int{1, 8, 63, 100, 110}},
			{Ops: runOps, Reps: []int{1, vk.Pick(c, 2, 12)}},
			{Ops: runOps, Reps: []int{1, 2}},
		}}
		lr.Run(c)

		// Init starts every field that has something to start, for every form of up to four fields.
		kinds := []zzv.FieldModel{textModel{"t"}, initModel{"one"}, initModel{"two"}, initModel{}}
		var build func(f *form.Form, want []string, d int)
		build = func(f *form.Form, want []string, d int) {
			c.States.Add(1)
			c.Evals.Add(1)
			var got []string
			if cmd := f.Init(); cmd != nil {
				switch m := cmd().(type) {
				case tea.BatchMsg:
					for _, x := range m.Messages {
						got = append(got, fmt.Sprint(x))
					}
				default:
					got = append(got, fmt.Sprint(m))
				}
			}
			sort.Strings(got)
			ws := append([]string(nil), want...)
			sort.Strings(ws)
			if strings.Join(got, ",") != strings.Join(ws, ",") {
				c.Fail("init", fmt.Sprintf("a form whose fields start with %q started %q", ws, got), ws)
			}
			if d == 0 {
				return
			}
			for i, k := range kinds {
				w := want
				if x, ok := k.(initModel); ok && x.s != "" {
					w = append(append([]string(nil), want...), x.s)
				}
				build(f.Field(fmt.Sprint("f", d, i), "L", k), w, d-1)
			}
		}
		build(form.New("init"), nil, 4)
		for _, x := range []struct {
			cmd  tea.Cmd
			want tea.Msg
		}{{form.SubmitCmd(), form.SubmitMsg{}}, {form.ResetCmd(), form.ResetMsg{}}} {
			if m := x.cmd(); m != x.want {
				c.Fail("message", fmt.Sprintf("the command produced %T, want %T", m, x.want), fmt.Sprintf("%T", x.want))
			}
		}

		// Length limits of every size at and around their boundary.
		for _, n := range []int{0, 1, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000} {
			for _, ch := range []string{"a", "é", "漢", "\U0001F600"} {
				for l := max(0, n-2); l <= n+2; l++ {
					t := strings.Repeat(ch, l)
					c.States.Add(1)
					c.Evals.Add(2)
					f, _ := form.New("").Field("x", "X", textModel{t}, zzv.MinLength(n)).Field("y", "Y", textModel{t}, zzv.MaxLength(n)).Update(tea.KeyMsg{Type: tea.KeyEnter})
					if bad := len(f.Errors()["x"]) > 0; bad != (l < n) {
						c.Fail("validator-min", fmt.Sprintf("a text of %d characters %q against the minimum of %d: errors %v", l, ch, n, f.Errors()["x"]), l)
					}
					if bad := len(f.Errors()["y"]) > 0; bad != (l > n) {
						c.Fail("validator-max", fmt.Sprintf("a text of %d characters %q against the maximum of %d: errors %v", l, ch, n, f.Errors()["y"]), l)
					}
				}
			}
		}

		// Every validator on every short text.
		alpha := []string{"", "a", "A", "é", "漢", " ", "@", ".", "b", "1", "-"}
		var texts []string
		var gen func(p string, d int)
		gen = func(p string, d int) {
			texts = append(texts, p)
			if d == 0 {
				return
			}
			for _, a := range alpha[1:] {
				gen(p+a, d-1)
			}
		}
		gen("", vk.Pick(c, 4, 5))
		for _, d := range []string{"a@b.co", "a@b.c", "a.b+c@d-e.f.org", "a@b..co", "@b.co", "a@.co", "a b@c.de", "a@b.co1", "a@b.co ", "\na@b.co", "a@b@c.de"} {
			texts = append(texts, d)
		}
		names := []string{"required", "min2", "max2", "pattern", "email"}
		c.Parallel(len(texts), func(i int) {
			t := texts[i]
			for _, v := range names {
				c.Evals.Add(1)
				c.States.Add(1)
				f, cmd := form.New("").Field("x", "X", textModel{t}, vals[v].v).Update(tea.KeyMsg{Type: tea.KeyEnter})
				want := vals[v].ref(t)
				got := strings.Join(f.Errors()["x"], "|")
				if got != want || (runCmd(cmd) == "submit") != (want == "") {
					c.Fail("validator-"+v, fmt.Sprintf("validator %s on %q: error %q, want %q", v, t, got, want), t)
				}
			}
		})
		c.Part("validators: %d texts x %d validators", len(texts), len(names))
	})
}
