// C39: what is typed on a terminal reaches every component as the key its
// documentation names, and nothing else does.
package main

import (
	"fmt"
	"io"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/phoenix-tui/phoenix/components/confirm"
	"github.com/phoenix-tui/phoenix/components/form"
	"github.com/phoenix-tui/phoenix/components/form/zzv"
	"github.com/phoenix-tui/phoenix/components/input"
	"github.com/phoenix-tui/phoenix/components/list"
	"github.com/phoenix-tui/phoenix/components/modal"
	multi "github.com/phoenix-tui/phoenix/components/multiselect"
	sel "github.com/phoenix-tui/phoenix/components/select"
	"github.com/phoenix-tui/phoenix/components/table"
	"github.com/phoenix-tui/phoenix/components/viewport"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea"
)

// ---------------------------------------------------------------- typing

// Typed keys: the bytes a terminal sends, and the key they mean.
type key struct {
	bytes string
	want  tea.KeyMsg
}

func typ(b string, t tea.KeyType) key { return key{b, tea.KeyMsg{Type: t}} }
func ch(r rune) key                   { return key{string(r), tea.KeyMsg{Type: tea.KeyRune, Rune: r}} }
func ctrl(r rune) key {
	return key{string(r - 'a' + 1), tea.KeyMsg{Type: tea.KeyRune, Rune: r, Ctrl: true}}
}
func alt(r rune) key {
	return key{"\x1b" + string(r), tea.KeyMsg{Type: tea.KeyRune, Rune: r, Alt: true}}
}

// as says that a key is documented to do what another one does.
func (k key) as(o key) key { k.want = o.want; return k }

var (
	up, down, left, right = typ("\x1b[A", tea.KeyUp), typ("\x1b[B", tea.KeyDown), typ("\x1b[D", tea.KeyLeft), typ("\x1b[C", tea.KeyRight)
	home, end             = typ("\x1b[H", tea.KeyHome), typ("\x1b[F", tea.KeyEnd)
	pgup, pgdn            = typ("\x1b[5~", tea.KeyPgUp), typ("\x1b[6~", tea.KeyPgDown)
	enter, tab, space     = typ("\r", tea.KeyEnter), typ("\t", tea.KeyTab), typ(" ", tea.KeySpace)
	backtab               = key{"\x1b[Z", tea.KeyMsg{Type: tea.KeyTab, Shift: true}}
	esc                   = typ("\x1b", tea.KeyEsc)
	bs, del               = typ("\x7f", tea.KeyBackspace), typ("\x1b[3~", tea.KeyDelete)
	ctrlC                 = key{"\x03", tea.KeyMsg{Type: tea.KeyCtrlC}}
)

// keyboard is the input of a program: pieces of bytes, each given out once the
// program has handled the keys, and the last one also the messages, that go before it.
type keyboard struct {
	mu     sync.Mutex
	cond   *sync.Cond
	pieces []piece
	keys   int // handled
	msgs   int
	closed bool
}

type piece struct {
	data       string
	keys, msgs int
}

func newKeyboard(p []piece) *keyboard {
	k := &keyboard{pieces: p}
	k.cond = sync.NewCond(&k.mu)
	return k
}

func (k *keyboard) Read(p []byte) (int, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for !k.closed && len(k.pieces) > 0 && (k.keys < k.pieces[0].keys || k.msgs < k.pieces[0].msgs) {
		k.cond.Wait()
	}
	if k.closed || len(k.pieces) == 0 {
		return 0, io.EOF
	}
	n := copy(p, k.pieces[0].data)
	k.pieces[0].data = k.pieces[0].data[n:]
	if k.pieces[0].data == "" {
		k.pieces = k.pieces[1:]
	}
	return n, nil
}

func (k *keyboard) handled(keys, msgs int) {
	k.mu.Lock()
	k.keys += keys
	k.msgs += msgs
	k.mu.Unlock()
	k.cond.Broadcast()
}

func (k *keyboard) close() {
	k.mu.Lock()
	k.closed = true
	k.mu.Unlock()
	k.cond.Broadcast()
}

// comp is what all components have in common.
type comp[C any] interface {
	Update(tea.Msg) (C, tea.Cmd)
	View() string
}

// shell is a program's model around a component: it hands it the keys, collects
// the messages of its commands, and ends when the last key was typed.
type shell[C comp[C]] struct {
	c     C
	msgs  []string
	quits int
	kb    *keyboard
	out   *result[C]
}

type result[C any] struct {
	mu   sync.Mutex
	c    C
	msgs []string
	keys []tea.KeyMsg
	ends int
}

const sentinel = '\u2588'

func (s shell[C]) Init() tea.Cmd { return nil }
func (s shell[C]) View() string  { return s.c.View() }
func (s shell[C]) Update(msg tea.Msg) (shell[C], tea.Cmd) {
	s.out.mu.Lock()
	defer s.out.mu.Unlock()
	var cmd tea.Cmd
	switch m := msg.(type) {
	case tea.KeyMsg:
		if m.Rune == sentinel {
			return s, tea.Quit()
		}
		s.out.keys = append(s.out.keys, m)
		s.c, cmd = s.c.Update(m)
		s.out.c = s.c
		s.kb.handled(1, 0)
		return s, cmd
	case tea.WindowSizeMsg:
		return s, nil
	default:
		s.out.msgs = append(s.out.msgs, describe(m))
		s.kb.handled(0, 1)
		return s, nil
	}
}

func describe(m tea.Msg) string { return fmt.Sprintf("%T %+v", m, m) }

func run(cmd tea.Cmd) string {
	if cmd == nil {
		return "nothing"
	}
	return describe(cmd())
}

var quitMsg = fmt.Sprintf("%T", tea.QuitMsg{})

// pieces cuts the keys where a lone Esc needs the program to have taken it.
func pieces(ks []key) []piece {
	var out []piece
	cur, from := "", 0
	for i, k := range ks {
		cur += k.bytes
		if k.bytes == "\x1b" {
			out = append(out, piece{cur, from, 0})
			cur, from = "", i+1
		}
	}
	if cur != "" {
		out = append(out, piece{cur, from, 0})
	}
	return out
}

// ---------------------------------------------------------------- components

type subject interface{ explore(c *vk.C) }

type spec[C comp[C]] struct {
	name  string
	start []vk.Named[C]
	keys  []key // documented
	dead  []key // not documented: they do nothing
	depth [2]int
	// shown is what a key without a meaning must leave alone; nil: everything
	shown func(C) string
}

// field is a text input as a form's field.
type field struct{ in input.Input }

func (f field) View() string  { return f.in.View() }
func (f field) Value() string { return f.in.Value() }
func (f field) Update(m tea.Msg) (zzv.FieldModel, tea.Cmd) {
	in, cmd := f.in.Update(m)
	return field{in}, cmd
}

func newField(s string) field { return field{input.New(12).Content(s).Focused(true)} }

func letters(ks func(rune) key, s string) (out []key) {
	for _, r := range s {
		out = append(out, ks(r))
	}
	return
}

// others are the Ctrl and Alt letters beside the given ones. Ctrl+H, I, J and M
// are Backspace, Tab and Enter.
func others(ctrls, alts string) (out []key) {
	for r := 'a'; r <= 'z'; r++ {
		if !strings.ContainsRune("hijm"+ctrls, r) {
			out = append(out, ctrl(r))
		}
		if !strings.ContainsRune(alts, r) {
			out = append(out, alt(r))
		}
	}
	for _, r := range "YNGAXÄé日1/" {
		out = append(out, alt(r))
	}
	return
}

func subjects() []subject {
	items := []string{"alpha", "beta", "gamma", "kappa", "zeta"}
	var vals []interface{}
	for _, s := range items {
		vals = append(vals, s)
	}
	in := func(s string) input.Input { return input.New(10).Content(s).Focused(true) }
	area := func(s string) input.TextArea { return input.NewTextArea().Size(20, 4).SetValue(s) }
	mk := func(f bool) *sel.Select[string] { return sel.NewString("Pick", items).WithFilterable(f).WithHeight(3) }
	mm := func(f bool) *multi.MultiSelect[string] {
		return multi.NewStrings("Pick", items).WithFilterable(f).WithHeight(3)
	}
	lines := make([]string, 30)
	for i := range lines {
		lines[i] = fmt.Sprint("line ", i)
	}
	cols := []table.Column{{Key: "a", Title: "A", Width: 6, Sortable: true}, {Key: "b", Title: "B", Width: 6}}
	var rows []table.Row
	for i := range 12 {
		rows = append(rows, table.Row{"a": (i * 5) % 12, "b": fmt.Sprint("r", i)})
	}
	required := zzv.Required()
	return []subject{
		spec[input.Input]{name: "input", start: []vk.Named[input.Input]{{Name: "empty", N: in("")}, {Name: "text", N: in("ab é漢")}},
			keys: append(letters(ch, "aq[O~;é漢"), left, right, home, end, bs, del, space, ctrl('a'), ctrl('u'), ctrl('e').as(end), key{"\x08", bs.want}, key{"\x1b[1~", home.want}, key{"\x1b[4~", end.want}),
			dead: append(others("aeu", ""), up, down, tab, enter, backtab, pgup, pgdn, esc), depth: [2]int{3, 5}},
		spec[input.TextArea]{name: "text area", start: []vk.Named[input.TextArea]{{Name: "empty", N: area("")}, {Name: "text", N: area("one two\n\nthré 漢字\nend")}},
			keys: append(letters(ch, "a[é"), up, down, left, right, home, end, bs, del, enter, space,
				ctrl('a').as(home), ctrl('e').as(end), ctrl('p').as(up), ctrl('n').as(down), ctrl('f').as(right), ctrl('b').as(left), ctrl('d').as(del), ctrl('k'), ctrl('u'), ctrl('w'), ctrl('y'),
				alt('f'), alt('b'), alt('d'), alt('<'), alt('>'), alt('F').as(alt('f')), alt('B').as(alt('b')), alt('D').as(alt('d')), key{"\n", enter.want}, key{"\x08", bs.want},
				key{"\x1b\x7f", ctrl('w').want}),
			dead: append(others("aepnfbdkuwy", "fbd"), tab, backtab, pgup, pgdn, esc), depth: [2]int{3, 4}},
		spec[*list.List]{name: "list", start: []vk.Named[*list.List]{{Name: "single", N: list.NewSingleSelect(vals, items).Height(3)}, {Name: "multi", N: list.NewMultiSelect(vals, items).Height(3)},
			{Name: "filter", N: list.NewMultiSelect(vals, items).Height(3).ShowFilter(true)}},
			keys: []key{up, down, pgup, pgdn, home, end, ch('k').as(up), ch('j').as(down), ch('g').as(home), ch('G').as(end), ctrl('u').as(pgup), ctrl('d').as(pgdn), space, enter, ctrl('a'), esc, ch('q'), ctrlC, key{"\x03", ch('q').want}, bs, ch('e'), ch('漢')},
			dead: append(others("acdu", ""), tab, backtab, left, right, del), depth: [2]int{4, 7}},
		spec[*viewport.Viewport]{name: "viewport", start: []vk.Named[*viewport.Viewport]{{Name: "30 lines", N: viewport.NewWithLines(lines, 12, 6)}, {Name: "short", N: viewport.NewWithLines(lines[:3], 12, 6)}, {Name: "follow", N: viewport.NewWithLines(lines, 12, 5).FollowMode(true)}},
			keys: []key{up, down, pgup, pgdn, home, end, ch('k').as(up), ch('j').as(down), ch('b').as(pgup), ctrl('b').as(pgup), ch('f').as(pgdn), ctrl('f').as(pgdn), space.as(pgdn), ch('g').as(home), ch('G').as(end), ctrl('u'), ctrl('d')},
			dead: append(others("bfud", ""), tab, backtab, left, right, enter, esc, bs, del, ch('x'), ch('é')), depth: [2]int{5, 9}},
		spec[*table.Table]{name: "table", start: []vk.Named[*table.Table]{{Name: "rows", N: table.NewWithRows(cols, rows).Height(6)}, {Name: "no header", N: table.NewWithRows(cols, rows).Height(5).ShowHeader(false)}},
			keys: []key{up, down, pgup, pgdn, home, end, ch('k').as(up), ch('j').as(down), ch('g').as(home), ch('G').as(end), ch('s').as(enter), enter, ch('c')},
			dead: append(others("", ""), tab, backtab, left, right, esc, bs, del, space, ch('x'), ch('é')), depth: [2]int{5, 8}},
		spec[*modal.Modal]{name: "modal", start: []vk.Named[*modal.Modal]{
			{Name: "shown", N: modal.NewWithTitle("T", "content").Buttons([]modal.Button{{Label: "Yes", Key: "y", Action: "yes"}, {Label: "No", Key: "n", Action: "no"}, {Label: "Later", Key: "l", Action: "later"}}).Show()},
			{Name: "no buttons", N: modal.New("content").Show()}, {Name: "hidden", N: modal.New("content").Buttons([]modal.Button{{Label: "Ok", Key: "o", Action: "ok"}})}},
			keys: []key{tab, right, backtab, left, tab.as(right), backtab.as(left), enter, esc, ch('y'), ch('n'), ch('l')},
			dead: append(others("", ""), up, down, home, end, pgup, pgdn, bs, del, space, ch('x'), ch('é')), depth: [2]int{6, 10}},
		spec[*sel.Select[string]]{name: "select", start: []vk.Named[*sel.Select[string]]{{Name: "plain", N: mk(false)}, {Name: "filterable", N: mk(true)}},
			keys: []key{up, down, home, end, ch('k').as(up), ch('j').as(down), ch('g').as(home), ch('G').as(end), enter, esc, ctrlC, bs, ch('a'), ch('é')},
			dead: append(others("c", ""), tab, backtab, left, right, del, pgup, pgdn), depth: [2]int{4, 6}},
		spec[*multi.MultiSelect[string]]{name: "multiselect", start: []vk.Named[*multi.MultiSelect[string]]{{Name: "plain", N: mm(false)}, {Name: "filterable", N: mm(true)}, {Name: "limits", N: mm(true).Min(1).Max(2)}},
			keys: []key{up, down, home, end, ch('k').as(up), ch('j').as(down), ch('g').as(home), ch('G').as(end), enter, esc, ctrlC, bs, space, ch('a'), ch('n'), ch('e'), ch('é')},
			dead: append(others("c", ""), tab, backtab, left, right, del, pgup, pgdn), depth: [2]int{4, 6}},
		spec[*confirm.Confirm]{name: "confirm", start: []vk.Named[*confirm.Confirm]{{Name: "yes/no", N: confirm.New("Sure?")}, {Name: "with cancel", N: confirm.New("Sure?").WithCancel(true).DefaultYes()}, {Name: "own", N: confirm.New("Sure?").Affirmative("Delete").Negative("Keep")}},
			keys: []key{left, right, tab.as(right), backtab.as(left), enter, esc, ctrlC, key{"\x03", esc.want}, ch('y'), ch('Y').as(ch('y')), ch('n'), ch('N').as(ch('n')), ch('d'), ch('k'), ch('c')},
			dead: append(others("c", ""), up, down, home, end, pgup, pgdn, bs, del, space, ch('x'), ch('é')), depth: [2]int{6, 10}},
		spec[*form.Form]{name: "form", start: []vk.Named[*form.Form]{{Name: "two fields", N: form.New("Form").Field("a", "A", newField("")).Field("b", "B", newField("x"), required)}, {Name: "one field", N: form.New("Form").Field("a", "A", newField(""), required)}},
			keys: append(letters(ch, "aqc"), tab, backtab, enter, esc, ctrlC, key{"\x03", esc.want}, bs, left, right, space, ctrl('u')),
			dead: append(others("aceu", ""), pgup, pgdn), depth: [2]int{5, 6},
			shown: func(f *form.Form) string {
				return fmt.Sprint(f.View(), f.Values(), f.Errors())
			}},
	}
}

// dump is the whole state of a component. A form's clock and other functions are not part of it.
func dump(c any) string { return vk.Dump(c) }

// decode finds what a program makes of the bytes of one key.
func decode(b string) ([]tea.KeyMsg, string) {
	r := &result[mute]{}
	ps := []piece{{data: b}}
	if b == "\x1b" {
		ps = append(ps, piece{string(sentinel), 1, 0})
	} else {
		ps[0].data += string(sentinel)
	}
	kb := newKeyboard(ps)
	bad := play(shell[mute]{kb: kb, out: r}, kb, io.Discard)
	return r.keys, bad
}

// mute ignores everything.
type mute struct{}

func (mute) Update(tea.Msg) (mute, tea.Cmd) { return mute{}, nil }
func (mute) View() string                   { return "" }

func play[C comp[C]](s shell[C], kb *keyboard, w io.Writer) string {
	p := tea.New(s, tea.WithInput[shell[C]](kb), tea.WithOutput[shell[C]](w))
	done := make(chan error, 1)
	go func() { done <- p.Run() }()
	select {
	case err := <-done:
		kb.close()
		if err != nil {
			return "the program failed: " + err.Error()
		}
		return ""
	case <-time.After(60 * time.Second):
		kb.close()
		return "the program does not end"
	}
}

func (s spec[C]) explore(c *vk.C) {
	all := append(append([]key(nil), s.keys...), s.dead...)
	got := map[string]tea.KeyMsg{}
	names := map[string]bool{}
	for _, k := range all {
		if _, ok := got[k.bytes]; ok {
			continue
		}
		ms, bad := decode(k.bytes)
		if bad != "" || len(ms) != 1 {
			c.Fail("decode", fmt.Sprintf("%s: %q reached the program as %+v %s", s.name, k.bytes, ms, bad), k.bytes)
			return
		}
		got[k.bytes] = ms[0]
		c.Transitions.Add(1)
	}
	// one key in every state
	var ops []vk.Op[C]
	for i, k := range all {
		m, dead := got[k.bytes], i >= len(s.keys)
		n := fmt.Sprintf("%q", k.bytes)
		if names[n] {
			n += " (as " + k.want.String() + ")"
		}
		names[n] = true
		ops = append(ops, vk.Op[C]{Name: n, Do: func(st C) (C, bool, string, string) {
			before := dump(st)
			nx, cmd := st.Update(m)
			after, say := dump(nx), run(cmd)
			if dump(st) != before {
				return nx, true, "mutated", s.name + ": the key changed the component it was typed at"
			}
			if dead {
				same := after == before
				if s.shown != nil {
					same = s.shown(st) == s.shown(nx)
				}
				if !same || say != "nothing" {
					return nx, true, "stray key", fmt.Sprintf("%s: %q is no documented key, but changed it or produced %s; it shows %q, before %q", s.name, k.bytes, say, nx.View(), st.View())
				}
				return st, false, "", ""
			}
			wx, wcmd := st.Update(k.want)
			if w, want := dump(wx), run(wcmd); w != after || want != say {
				return nx, true, "key", fmt.Sprintf("%s: typing %q shows %q and produces %s, %+v shows %q and produces %s", s.name, k.bytes, nx.View(), say, k.want, wx.View(), want)
			}
			if strings.HasPrefix(say, quitMsg) {
				return st, false, "", ""
			}
			return nx, true, "", ""
		}})
	}
	sp := vk.Space[C]{Label: s.name, Init: s.start, Ops: ops, Key: func(n C) string { return dump(n) }, Depth: vk.Pick(c, s.depth[0], s.depth[1]), Max: vk.Pick(c, 20000, 300000), Sample: 500}
	sp.Run(c)

	// all sequences of keys through a program, to the screen
	all3 := func(st vk.Named[C], ks []key, length int) {
		total := 1
		for range length {
			total *= len(ks)
		}
		c.Parallel(total, func(i int) {
			var seq []key
			for range length {
				seq = append(seq, ks[i%len(ks)])
				i /= len(ks)
			}
			s.program(c, st, seq)
		})
	}
	// a lone Esc takes its time to be told from the start of a sequence
	var quick []key
	for _, k := range s.keys {
		if k.bytes != "\x1b" {
			quick = append(quick, k)
		}
	}
	ks, n := s.keys, len(s.keys)
	for _, st := range s.start {
		all3(st, ks, vk.Pick(c, 2, 3))
		all3(st, quick, 3)
		// long ones, through all keys in strides
		c.Parallel(n, func(i int) {
			var seq []key
			for j := range vk.Pick(c, 300, 2000) {
				k := ks[j*(i+1)%n]
				_, cmd := st.N.Update(k.want)
				if k.bytes == "\x1b" || strings.HasPrefix(run(cmd), quitMsg) {
					k = ks[i]
					if k.bytes == "\x1b" || k.bytes == "\x03" {
						k = ks[0]
					}
				}
				seq = append(seq, k)
			}
			s.program(c, st, seq)
		})
	}
}

// program types the keys at a program that runs the component and compares
// with the component itself.
func (s spec[C]) program(c *vk.C, st vk.Named[C], seq []key) {
	want := st.N
	var msgs []string
	nk, ends := 0, false
	for _, k := range seq {
		var cmd tea.Cmd
		want, cmd = want.Update(k.want)
		nk++
		if cmd != nil {
			m := run(cmd)
			if strings.HasPrefix(m, quitMsg) {
				ends = true
				break
			}
			msgs = append(msgs, m)
		}
	}
	seq = seq[:nk]
	ps := pieces(seq)
	if !ends {
		ps = append(ps, piece{string(sentinel), nk, len(msgs)})
	}
	kb := newKeyboard(ps)
	r := &result[C]{c: st.N}
	scr := vk.NewTerm(60, 20)
	c.Evals.Add(1)
	c.Traces.Add(1)
	bad := play(shell[C]{c: st.N, kb: kb, out: r}, kb, scr)
	r.mu.Lock()
	defer r.mu.Unlock()
	var typed []string
	for _, k := range seq {
		typed = append(typed, k.bytes)
	}
	where := fmt.Sprintf("%s (%s), typing %q at a program", s.name, st.Name, typed)
	if bad != "" {
		c.Fail("program", fmt.Sprintf("%s: %s; its Update saw %+v and messages %q, expected %q", where, bad, r.keys, r.msgs, msgs), typed)
		return
	}
	if dump(r.c) != dump(want) {
		c.Fail("program", fmt.Sprintf("%s leaves it showing %q, not %q", where, r.c.View(), want.View()), typed)
		return
	}
	sort.Strings(msgs)
	sort.Strings(r.msgs)
	if !ends && strings.Join(msgs, "\n") != strings.Join(r.msgs, "\n") {
		c.Fail("program", fmt.Sprintf("%s produced %q, not %q", where, r.msgs, msgs), typed)
		return
	}
	for _, l := range strings.Split(want.View(), "\n") {
		w := 0
		for _, r := range sgr.ReplaceAllString(l, "") {
			w += vk.RuneWidth(r)
		}
		if w >= scr.W {
			return // wider than the screen
		}
	}
	ref := vk.NewTerm(60, 20)
	ref.WriteString(strings.ReplaceAll(want.View(), "\n", "\r\n"))
	if scr.Styled() != ref.Styled() {
		c.Fail("screen", fmt.Sprintf("%s shows %q, not %q", where, scr.Screen(), ref.Screen()), typed)
	}
}

var sgr = regexp.MustCompile("\x1b\\[[0-9;]*m")

func main() {
	vk.Main("C39", "model_checking", 0, func(c *vk.C) {
		c.Rule("for every component: breadth-first over its states; in each, the bytes of every documented key, decoded by a program, do exactly what the documented key (or the one it is a synonym of) does, and every other Ctrl or Alt letter and unbound key does nothing; then every sequence of three (thorough: four) documented keys, and long ones, typed at a program that runs the component: same component, messages and screen")
		for _, s := range subjects() {
			s.explore(c)
		}
	})
}
