// C07: all sequences of keys up to a length, delivered in every division into
// reads, decoded by the real reader; and through a whole program.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/tea"
	"github.com/phoenix-tui/phoenix/tea/internal/domain/model"
	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/input"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vsched"
)

type key struct {
	bytes string
	want  model.KeyMsg
	name  string
	none  bool // delivers nothing
	pause bool // ambiguous with what follows unless time passes
}

func ks(b string, t model.KeyType, name string) key {
	return key{bytes: b, want: model.KeyMsg{Type: t}, name: name}
}
func kr(r rune) key {
	return key{bytes: string(r), want: model.KeyMsg{Type: model.KeyRune, Rune: r}, name: string(r)}
}
func kc(b byte) key {
	r := rune('a' + b - 1)
	return key{bytes: string(rune(b)), want: model.KeyMsg{Type: model.KeyRune, Rune: r, Ctrl: true}, name: "ctrl+" + string(r)}
}
func alt(k key) key {
	k.bytes = "\x1b" + k.bytes
	k.want.Alt = true
	k.name = "alt+" + k.name
	return k
}
func none(b string) key { return key{bytes: b, none: true} }

// full is the whole alphabet.
func full() []key {
	out := []key{
		ks("\r", model.KeyEnter, "enter"), ks("\n", model.KeyEnter, "enter"), ks("\x7f", model.KeyBackspace, "backspace"), ks("\b", model.KeyBackspace, "backspace"),
		ks("\t", model.KeyTab, "tab"), ks(" ", model.KeySpace, "space"),
		ks("\x1b[A", model.KeyUp, "↑"), ks("\x1b[B", model.KeyDown, "↓"), ks("\x1b[C", model.KeyRight, "→"), ks("\x1b[D", model.KeyLeft, "←"),
		ks("\x1b[H", model.KeyHome, "home"), ks("\x1b[1~", model.KeyHome, "home"), ks("\x1b[F", model.KeyEnd, "end"), ks("\x1b[4~", model.KeyEnd, "end"),
		ks("\x1b[2~", model.KeyInsert, "insert"), ks("\x1b[3~", model.KeyDelete, "delete"), ks("\x1b[5~", model.KeyPgUp, "pgup"), ks("\x1b[6~", model.KeyPgDown, "pgdown"),
		ks("\x1bOP", model.KeyF1, "F1"), ks("\x1bOQ", model.KeyF2, "F2"), ks("\x1bOR", model.KeyF3, "F3"), ks("\x1bOS", model.KeyF4, "F4"),
		ks("\x1b[15~", model.KeyF5, "F5"), ks("\x1b[17~", model.KeyF6, "F6"), ks("\x1b[18~", model.KeyF7, "F7"), ks("\x1b[19~", model.KeyF8, "F8"),
		ks("\x1b[20~", model.KeyF9, "F9"), ks("\x1b[21~", model.KeyF10, "F10"), ks("\x1b[23~", model.KeyF11, "F11"), ks("\x1b[24~", model.KeyF12, "F12"),
		{bytes: "\x1b[Z", want: model.KeyMsg{Type: model.KeyTab, Shift: true}, name: "shift+tab"},
		none("\x1b[1;5A"), none("\x1b[200~"), none("\x00"), none("\x1b[99z"), none("\x1b[<0;10;10M"), none("\x1b[[A"), none("\x1b[?62;1;6c"), none("\x1b[1;2;3;4;5;6;7;8;9;10m"),
	}
	esc := ks("\x1b", model.KeyEsc, "esc")
	esc.pause = true
	out = append(out, esc)
	for b := byte(1); b <= 26; b++ {
		if b != 8 && b != 9 && b != 10 && b != 13 {
			out = append(out, kc(b))
		}
	}
	for r := rune('!'); r < 0x7f; r++ {
		out = append(out, kr(r))
	}
	for _, r := range "é\u00a0ßя中\u0301👍\U0001d11e�\u0080\u07ff\u0800\uffff\U00010000\U0010ffff" {
		out = append(out, kr(r))
	}
	for _, r := range "aZ1~;é中👍" {
		out = append(out, alt(kr(r)))
	}
	for _, k := range []key{alt(kr('[')), alt(kr('O'))} {
		k.pause = true
		out = append(out, k)
	}
	out = append(out, alt(ks("\r", model.KeyEnter, "enter")), alt(kc(1)), alt(ks(" ", model.KeySpace, "space")), alt(ks("\x7f", model.KeyBackspace, "backspace")))
	return out
}

// small is the part of the alphabet whose bytes can be confused.
func small() []key {
	var out []key
	for _, k := range full() {
		switch k.bytes {
		case "a", "[", "O", "~", "1", ";", "A", "P", "\r", "\x01", "é", "中", "👍", "\x1b", "\x1b[A", "\x1b[3~", "\x1b[15~", "\x1bOP", "\x1bOR", "\x1b[H", "\x1b[1;5A", "\x1b[Z", "\x1ba", "\x1bé", "\x1b[", "\x1bO":
			out = append(out, k)
		}
	}
	return out
}

type step struct {
	data  string
	pause bool
}

// cases lists how keys can arrive: mode 0 in one piece, 1 key by key, 2 byte by
// byte. Time passes only where the meaning depends on it.
func deliver(keys []key, mode int) []step {
	var out []step
	cur := ""
	flush := func(p bool) {
		if cur != "" {
			out = append(out, step{cur, p})
		}
		cur = ""
	}
	for i, k := range keys {
		if mode == 2 {
			for _, b := range []byte(k.bytes) {
				cur += string([]byte{b})
				flush(false)
			}
		} else {
			cur += k.bytes
		}
		if k.pause && i+1 < len(keys) && !(k.bytes == "\x1b" && keys[i+1].bytes[0] == 0x1b) {
			if mode == 2 {
				out[len(out)-1].pause = true
			} else {
				flush(true)
			}
		} else if mode == 1 {
			flush(false)
		}
	}
	flush(false)
	return out
}

func expected(keys []key) (out []model.KeyMsg) {
	for _, k := range keys {
		if !k.none {
			out = append(out, k.want)
		}
	}
	return
}

func names(ks []model.KeyMsg) string {
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s(%d %d %v %v %v)", k, k.Type, k.Rune, k.Alt, k.Ctrl, k.Shift))
	}
	return strings.Join(p, " ")
}

func all(steps []step) string {
	s := ""
	for i, st := range steps {
		if i > 0 {
			s += "|"
		}
		s += st.data
	}
	return s
}

// decode feeds the steps to a reader and collects what it returns.
func decode(x *vsched.X, steps []step) []model.KeyMsg {
	tty := vsched.NewTTY(true)
	r := input.NewReader(tty)
	var got []model.KeyMsg
	done := false
	vsched.GoName("reader", func() {
		for {
			m, err := r.Read()
			if err != nil {
				done = true
				return
			}
			if m == nil {
				continue
			}
			k, ok := m.(model.KeyMsg)
			if !ok {
				x.Fail("type", fmt.Sprintf("%q gave a %T", all(steps), m))
				continue
			}
			got = append(got, k)
		}
	})
	for _, s := range steps {
		vsched.Feed(tty, s.data)
		if s.pause {
			vsched.Settle(300 * time.Millisecond)
		} else {
			vsched.WaitIdle()
		}
	}
	vsched.Settle(300 * time.Millisecond)
	vsched.FeedEOF(tty)
	vsched.Await("reader ends", func() bool { return done })
	return got
}

func check(x *vsched.X, keys []key, steps []step) {
	got, want := decode(x, steps), expected(keys)
	x.Nontrivial()
	if names(got) != names(want) {
		x.Fail("keys", fmt.Sprintf("the bytes %q (| separates reads) gave %s, not %s", all(steps), names(got), names(want)))
	}
}

type recorder struct {
	seen *[]string
	raw  *[]tea.KeyMsg
}

func (m recorder) Init() tea.Cmd { return nil }
func (m recorder) Update(msg tea.Msg) (recorder, tea.Cmd) {
	if k, ok := msg.(tea.KeyMsg); ok {
		*m.seen = append(*m.seen, k.String())
		*m.raw = append(*m.raw, k)
	}
	return m, nil
}
func (m recorder) View() string { return "" }

type sink struct{}

func (sink) Write(p []byte) (int, error) { return len(p), nil }

func tuple(al []key, i, n int) []key {
	out := make([]key, n)
	for j := range out {
		out[j] = al[i%len(al)]
		i /= len(al)
	}
	return out
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

func scenarios(thorough bool) []*vsched.Scenario {
	fu, sm := full(), small()
	seq := func(name string, al []key, n, bound int, modes ...int) *vsched.Scenario {
		return &vsched.Scenario{Name: name, Variants: pow(len(al), n) * len(modes), Bound: bound, MaxSteps: 6000, MaxTime: time.Minute,
			Body: func(x *vsched.X) {
				keys := tuple(al, x.Variant/len(modes), n)
				check(x, keys, deliver(keys, modes[x.Variant%len(modes)]))
			}}
	}
	// every division of one or two keys into reads
	cuts := &vsched.Scenario{Name: "divisions", Variants: len(sm) * len(sm), Bound: 0, MaxSteps: 2000000, MaxTime: 100 * time.Hour,
		Body: func(x *vsched.X) {
			keys := tuple(sm, x.Variant, 2)
			var pieces []step // one per byte
			for _, s := range deliver(keys, 2) {
				pieces = append(pieces, s)
			}
			n := len(pieces)
			for mask := 0; mask < 1<<(n-1); mask++ {
				var steps []step
				cur := ""
				for i, p := range pieces {
					cur += p.data
					if i == n-1 || p.pause || mask>>i&1 == 1 {
						steps = append(steps, step{cur, p.pause})
						cur = ""
					}
				}
				check(x, keys, steps)
				if x.Failed() {
					return
				}
			}
		}}
	// many keys at once, across the buffers inside
	offsets := 8
	longs := []key{}
	for _, k := range sm {
		if !k.pause && len(k.bytes) > 1 {
			longs = append(longs, k)
		}
	}
	long := &vsched.Scenario{Name: "bursts", Variants: len(longs) * offsets * 2, Bound: 0, MaxSteps: 400000, MaxTime: time.Hour,
		Body: func(x *vsched.X) {
			v := x.Variant
			k := longs[v%len(longs)]
			v /= len(longs)
			off, size := v%offsets, []int{700, 9000}[v/offsets]
			var keys []key
			for i := 0; i < off; i++ {
				keys = append(keys, kr('x'))
			}
			for n := 0; n < size; n += len(k.bytes) {
				keys = append(keys, k)
			}
			got, want := decode(x, deliver(keys, 0)), expected(keys)
			x.Nontrivial()
			if names(got) != names(want) {
				n := 0
				for n < len(got) && n < len(want) && got[n] == want[n] {
					n++
				}
				end := min(n+3, len(got))
				x.Fail("keys", fmt.Sprintf("a burst of %d keys (%d x, then %q repeated): key %d came as %s", len(keys), off, k.bytes, n+1, names(got[n:end])))
			}
		}}
	// through a program
	prog := func(name string, al []key, n int) *vsched.Scenario {
		return &vsched.Scenario{Name: name, Variants: pow(len(al), n), Bound: 0, MaxSteps: 20000, MaxTime: time.Minute,
			Body: func(x *vsched.X) {
				keys := tuple(al, x.Variant, n)
				var seen []string
				var raw []tea.KeyMsg
				tty := vsched.NewTTY(true)
				p := tea.New(recorder{&seen, &raw}, tea.WithInput[recorder](tty), tea.WithOutput[recorder](sink{}))
				if err := p.Start(); err != nil {
					x.Fail("start", err.Error())
					return
				}
				vsched.WaitIdle()
				steps := deliver(keys, 0)
				for _, s := range steps {
					vsched.Feed(tty, s.data)
					vsched.Settle(300 * time.Millisecond)
				}
				var want, got []string
				for _, k := range keys {
					if !k.none {
						want = append(want, fmt.Sprintf("%s %d %q %v %v %v", k.name, k.want.Type, k.want.Rune, k.want.Alt, k.want.Ctrl, k.want.Shift))
					}
				}
				for i, k := range raw {
					got = append(got, fmt.Sprintf("%s %d %q %v %v %v", seen[i], k.Type, k.Rune, k.Alt, k.Ctrl, k.Shift))
				}
				x.Nontrivial()
				if strings.Join(got, ",") != strings.Join(want, ",") {
					x.Fail("update", fmt.Sprintf("%q reached Update as %q, not %q", all(steps), got, want))
				}
				p.Stop()
			}}
	}
	if thorough {
		return []*vsched.Scenario{
			seq("one-key", fu, 1, 2, 0, 1, 2), seq("two-keys", fu, 2, 0, 0, 1, 2), seq("two-keys-schedules", sm, 2, 1, 0, 1, 2), cuts, long,
			prog("program", fu, 1), prog("program-two", sm, 2), seq("three-keys", sm, 3, 0, 0, 1, 2), seq("four-keys", sm, 4, 0, 0, 1),
		}
	}
	return []*vsched.Scenario{
		seq("one-key", fu, 1, 1, 0, 1, 2), seq("two-keys", fu, 2, 0, 0, 2), cuts, long,
		prog("program", fu, 1), prog("program-two", sm, 2), seq("three-keys", sm, 3, 0, 0, 1, 2), seq("two-keys-schedules", sm, 2, 1, 0),
	}
}

func main() {
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C07", "model_checking", 0, func(c *vk.C) {
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 100*time.Second, 13*time.Minute))
		c.Sched(rep, err)
		c.Rule(fmt.Sprintf("one case per key sequence, way of delivery and schedule: all sequences of 1 and 2 of %d keys and of 3 (thorough: 4) of %d confusable ones; delivered at once, key by key, byte by byte; two keys in every division into reads; bursts across the internal buffers at every offset; keys through a program to Update", len(full()), len(small())))
	})
}
