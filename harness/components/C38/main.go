// C38: progress bars and spinners against reference values.
package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	"github.com/phoenix-tui/phoenix/components/progress"
	"github.com/phoenix-tui/phoenix/components/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea"
)

type bref struct {
	w, pct      int
	fill, empty rune
	show        bool
	label       string
}

type bnode struct {
	b progress.Bar
	r bref
}

func clamp(v int) int { return max(0, min(100, v)) }

// add is saturating addition.
func add(p, d int) int {
	if d > 1000 {
		return 100
	}
	if d < -1000 {
		return 0
	}
	return clamp(p + d)
}

func (r bref) view() string {
	n := 0
	for i := 1; i <= r.w; i++ { // cell i is filled when the progress reaches its end
		if r.pct*r.w >= i*100 {
			n = i
		}
	}
	s := ""
	if r.label != "" {
		s = r.label + " "
	}
	s += strings.Repeat(string(r.fill), n) + strings.Repeat(string(r.empty), r.w-n)
	if r.show {
		s += fmt.Sprintf(" %03d%%", r.pct)
	}
	return s
}

func bcheck(n bnode) (string, string) {
	r := n.r
	if p := n.b.Progress(); p != r.pct || p < 0 || p > 100 {
		return "percentage", fmt.Sprintf("progress %d, want %d", p, r.pct)
	}
	if n.b.IsComplete() != (r.pct == 100) {
		return "complete", fmt.Sprintf("IsComplete %v at %d%%", n.b.IsComplete(), r.pct)
	}
	v := n.b.View()
	if v != r.view() {
		return "view", fmt.Sprintf("view %q, want %q", v, r.view())
	}
	if w := n.b.View(); w != v {
		return "view", "rendering twice differs"
	}
	return "", ""
}

var styles = map[string][]string{
	"dots":      {"⠋", "⠙", "⠹", "⠸", "⠼", "⠴", "⠦", "⠧", "⠇", "⠏"},
	"line":      {"|", "/", "-", "\\"},
	"arrow":     {"←", "↖", "↑", "↗", "→", "↘", "↓", "↙"},
	"circle":    {"◐", "◓", "◑", "◒"},
	"no such":   {"⠋", "⠙", "⠹", "⠸", "⠼", "⠴", "⠦", "⠧", "⠇", "⠏"},
	"toggle":    {"⊶", "⊷"},
	"moon":      {"🌑", "🌒", "🌓", "🌔", "🌕", "🌖", "🌗", "🌘"},
	"hamburger": {"☱", "☲", "☴"},
}

var others = []string{"bounce", "dot-pulse", "grow-vertical", "grow-horizontal", "box-bounce", "simple-dots", "clock", "earth"}

type snode struct {
	s progress.Spinner
	r sref
}

type sref struct {
	frames []string
	i      int
	label  string
}

func main() {
	vk.Main("C38", "model_checking", 0, func(c *vk.C) {
		c.Rule("breadth-first over bar and spinner states; every percentage at every width up to the bound; compared with reference values; the value an operation is called on must not change")
		var ops []vk.Op[bnode]
		op := func(name string, f func(b progress.Bar) progress.Bar, g func(r *bref)) {
			ops = append(ops, vk.Op[bnode]{Name: name, Do: func(n bnode) (bnode, bool, string, string) {
				before, bv := vk.Dump(n.b), n.b.View()
				nx := bnode{f(n.b), n.r}
				g(&nx.r)
				if vk.Dump(n.b) != before || n.b.View() != bv {
					return nx, true, "mutated", "the bar the operation was called on changed"
				}
				return nx, true, "", ""
			}})
		}
		vals := []int{math.MinInt, math.MinInt + 1, -1 << 33, -101, -100, -99, -1, 0, 1, 7, 50, 99, 100, 101, 150, 1 << 32, 1<<32 + 50, math.MaxInt - 100, math.MaxInt - 1, math.MaxInt}
		for _, d := range vals {
			op(fmt.Sprint("set ", d), func(b progress.Bar) progress.Bar { return b.SetProgress(d) }, func(r *bref) { r.pct = clamp(d) })
			op(fmt.Sprint("increment ", d), func(b progress.Bar) progress.Bar { return b.Increment(d) }, func(r *bref) { r.pct = add(r.pct, d) })
			op(fmt.Sprint("decrement ", d), func(b progress.Bar) progress.Bar { return b.Decrement(d) }, func(r *bref) {
				if d == math.MinInt {
					r.pct = 100
				} else {
					r.pct = add(r.pct, -d)
				}
			})
		}
		for _, l := range []string{"", "Loading", "läd 漢", "x", " "} {
			op(fmt.Sprintf("label %q", l), func(b progress.Bar) progress.Bar { return b.Label(l) }, func(r *bref) { r.label = l })
		}
		for _, s := range []bool{true, false} {
			op(fmt.Sprint("percent ", s), func(b progress.Bar) progress.Bar { return b.ShowPercent(s) }, func(r *bref) { r.show = s })
		}
		op("fill", func(b progress.Bar) progress.Bar { return b.FillChar('=') }, func(r *bref) { r.fill = '=' })
		op("empty", func(b progress.Bar) progress.Bar { return b.EmptyChar('·') }, func(r *bref) { r.empty = '·' })
		op("message", func(b progress.Bar) progress.Bar {
			nb, cmd := b.Update(tea.KeyMsg{Type: tea.KeyEnter})
			if cmd != nil {
				nb = nb.SetProgress(77)
			}
			return nb
		}, func(r *bref) {})
		var init []vk.Named[bnode]
		for _, w := range []int{math.MinInt, -1, 0, 1, 2, 3, 7, 10, 33, 100, 150} {
			r := bref{w: max(1, w), fill: '█', empty: '░'}
			init = append(init, vk.Named[bnode]{Name: fmt.Sprint("width ", w), N: bnode{*progress.NewBar(w), r}})
		}
		bs := vk.Space[bnode]{Label: "bar", Init: init, Ops: ops, Check: bcheck, Depth: vk.Pick(c, 3, 6), Max: vk.Pick(c, 60000, 1000000), Sample: 3000,
			Key: func(n bnode) string { return vk.Dump(n.b) + fmt.Sprintf("%+v", n.r) }}
		bs.Run(c)

		// Every percentage at every width.
		maxW := vk.Pick(c, 130, 1000)
		c.Parallel(maxW, func(i int) {
			w := i + 1
			prev := -1
			for p := -3; p <= 103; p++ {
				b := *progress.NewBarWithProgress(w, p)
				r := bref{w: w, pct: clamp(p), fill: '█', empty: '░'}
				c.Evals.Add(1)
				c.States.Add(1)
				if k, bad := bcheck(bnode{b, r}); bad != "" {
					c.Fail(k, fmt.Sprintf("width %d at %d: %s", w, p, bad), []int{w, p})
				}
				n := strings.Count(b.View(), "█")
				if n < prev {
					c.Fail("monotone", fmt.Sprintf("width %d: fewer cells at %d%% than before", w, p), []int{w, p})
				}
				prev = n
			}
		})
		c.Part("bars: widths 1..%d at -3..103%%", maxW)

		// Spinners.
		var sops []vk.Op[snode]
		tick := func(name string, m tea.Msg, step int) {
			sops = append(sops, vk.Op[snode]{Name: name, Do: func(n snode) (snode, bool, string, string) {
				before := vk.Dump(n.s)
				ns, cmd := n.s.Update(m)
				nx := snode{ns, n.r}
				nx.r.i += step
				if vk.Dump(n.s) != before {
					return nx, true, "mutated", "the spinner the operation was called on changed"
				}
				if (cmd != nil) != (step == 1) {
					return nx, true, "tick", fmt.Sprintf("after %s the next tick is requested: %v", name, cmd != nil)
				}
				return nx, true, "", ""
			}})
		}
		tick("tick", tea.TickMsg{Time: time.Unix(1, 0)}, 1)
		tick("key", tea.KeyMsg{Type: tea.KeyEnter}, 0)
		tick("size", tea.WindowSizeMsg{Width: 1, Height: 1}, 0)
		for _, l := range []string{"", "wait", "w"} {
			sops = append(sops, vk.Op[snode]{Name: "label " + l, Do: func(n snode) (snode, bool, string, string) {
				nx := snode{n.s.Label(l), n.r}
				nx.r.label = l
				return nx, true, "", ""
			}})
		}
		var sinit []vk.Named[snode]
		for name, fr := range styles {
			sinit = append(sinit, vk.Named[snode]{Name: name, N: snode{*progress.NewSpinner(name), sref{frames: fr}}})
		}
		for _, name := range others {
			// The frames themselves are data; they are taken from one turn and must repeat.
			s := *progress.NewSpinner(name)
			var fr []string
			x := s
			for i := 0; i < 200; i++ {
				fr = append(fr, x.View())
				x, _ = x.Update(tea.TickMsg{})
			}
			p := 1
			for p < 100 && strings.Join(fr[:100], "\x00") != strings.Join(fr[p:p+100], "\x00") {
				p++
			}
			if p < 2 || p > 20 {
				c.Fail("cycle", fmt.Sprintf("spinner %s has period %d", name, p), name)
				continue
			}
			sinit = append(sinit, vk.Named[snode]{Name: name, N: snode{s, sref{frames: fr[:p]}}})
		}
		for _, f := range []struct {
			in   []string
			fps  int
			want []string
		}{{[]string{"a", "b", "c"}, 5, []string{"a", "b", "c"}}, {[]string{"x"}, 0, []string{"x"}}, {nil, -3, []string{"•"}}, {[]string{"漢", ""}, math.MaxInt, []string{"漢", ""}}} {
			in := append([]string(nil), f.in...)
			s := *progress.NewSpinnerCustom(in, f.fps)
			for i := range in {
				in[i] = "clobbered"
			}
			sinit = append(sinit, vk.Named[snode]{Name: fmt.Sprint("custom ", f.in, f.fps), N: snode{s, sref{frames: f.want}}})
		}
		for _, n := range sinit {
			if n.N.s.Init() == nil {
				c.Fail("tick", n.Name+": Init does not request the first tick", n.Name)
			}
		}
		speeds(c)
		ss := vk.Space[snode]{Label: "spinner", Init: sinit, Ops: sops, Depth: vk.Pick(c, 40, 100), Sample: 100,
			Check: func(n snode) (string, string) {
				want := n.r.frames[n.r.i%len(n.r.frames)]
				if n.r.label != "" {
					want += " " + n.r.label
				}
				if v := n.s.View(); v != want {
					return "frame", fmt.Sprintf("view %q, want %q", v, want)
				}
				return "", ""
			},
			Key: func(n snode) string {
				return vk.Dump(n.s) + fmt.Sprintf("%d %q %q", n.r.i%len(n.r.frames), n.r.label, n.r.frames)
			}}
		ss.Run(c)
	})
}

// speeds: the tick that Init and every tick ask for comes after the time of one
// frame. A tick is never early; late it may be on a busy machine, so that the
// best of several attempts is judged.
func speeds(c *vk.C) {
	rates := []int{-3, 0, 1, 2, 3, 5, 7, 10, 11, 20, 30, 60, 1000, 2000000000}
	var names []string
	for n := range styles {
		names = append(names, n)
	}
	names = append(names, others...)
	var wg sync.WaitGroup
	one := func(label string, s progress.Spinner, want time.Duration) {
		defer wg.Done()
		_, next := s.Update(tea.TickMsg{})
		for i, cmd := range []tea.Cmd{s.Init(), next} {
			best := time.Hour
			for try := 0; try < 12 && cmd != nil; try++ {
				start := time.Now()
				got := make(chan tea.Msg, 1)
				go func() { got <- cmd() }()
				var m tea.Msg
				select {
				case m = <-got:
				case <-time.After(15 * time.Second):
				}
				e := time.Since(start)
				c.Evals.Add(1)
				if t, ok := m.(tea.TickMsg); !ok {
					c.Fail("tick", fmt.Sprintf("%s: the request after %s had the result %v within 15 s", label, []string{"Init", "a tick"}[i], m), label)
					return
				} else if t.Time.Before(start) || t.Time.After(time.Now()) {
					c.Fail("tick", fmt.Sprintf("%s: a tick at %v says %v", label, time.Now(), t.Time), label)
				}
				best = min(best, e)
				if want == 0 || best < want || best < want+want/20+time.Millisecond {
					break
				}
			}
			if want > 0 && (best < want || best > want+want/20+500*time.Millisecond) {
				c.Fail("speed", fmt.Sprintf("%s: a frame should take %v, took %v", label, want, best), label)
			}
		}
	}
	for _, f := range rates {
		want := 100 * time.Millisecond // the default of ten frames a second
		if f > 0 {
			want = time.Second / time.Duration(f)
		}
		wg.Add(1)
		go one(fmt.Sprint("frames per second: ", f), *progress.NewSpinnerCustom([]string{"a", "b"}, f), want)
	}
	for _, n := range names {
		wg.Add(1)
		go one("spinner "+n, *progress.NewSpinner(n), 0)
	}
	wg.Wait()
	c.Part("the time of a frame at %d rates", len(rates))
}
