// C25: all gestures up to a length, with times around the limit, against a
// reference recogniser.
package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/mouse"
	"github.com/phoenix-tui/phoenix/mouse/internal/application"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/model"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/value"
	"github.com/phoenix-tui/phoenix/mouse/zzverif/vk"
)

type config struct {
	timeout          time.Duration
	tol, thr, scroll int
	make             func() *application.EventProcessor
}

type rec struct { // the reference recogniser
	cfg config

	last   bool
	lpos   value.Position
	lbtn   value.Button
	ltime  time.Time
	clicks int

	active     bool
	start, cur value.Position
	btn        value.Button
	mods       value.Modifiers
}

// dist is the distance in cells; anything above a trillion is called a trillion
// (no threshold is that large).
func dist(a, b value.Position) int {
	d := math.Abs(float64(a.X())-float64(b.X())) + math.Abs(float64(a.Y())-float64(b.Y()))
	if d > 1e12 {
		return 1e12
	}
	dx, dy := a.X()-b.X(), a.Y()-b.Y()
	return max(dx, -dx) + max(dy, -dy)
}

func (r *rec) dragging() bool { return r.active && dist(r.start, r.cur) >= r.cfg.thr }

func (r *rec) step(e model.MouseEvent) []model.MouseEvent {
	mk := func(t value.EventType, b value.Button, m value.Modifiers) model.MouseEvent {
		return model.NewMouseEventWithTimestamp(t, b, e.Position(), m, e.Timestamp())
	}
	switch e.Type() {
	case value.EventPress:
		if e.Button() == value.ButtonLeft || e.Button() == value.ButtonMiddle || e.Button() == value.ButtonRight {
			r.active, r.start, r.cur, r.btn, r.mods = true, e.Position(), e.Position(), e.Button(), e.Modifiers()
		}
	case value.EventMotion:
		if r.active {
			r.cur = e.Position()
			if r.dragging() {
				return []model.MouseEvent{mk(value.EventDrag, r.btn, r.mods)}
			}
		}
	case value.EventRelease:
		was := false
		if r.active {
			r.cur = e.Position()
			was = r.dragging()
			r.active = false
		}
		if was {
			break
		}
		if r.last && e.Timestamp().Sub(r.ltime) <= r.cfg.timeout && dist(e.Position(), r.lpos) <= r.cfg.tol && e.Button() == r.lbtn {
			r.clicks = r.clicks%3 + 1
		} else {
			r.clicks = 1
		}
		r.last, r.lpos, r.lbtn, r.ltime = true, e.Position(), e.Button(), e.Timestamp()
		return []model.MouseEvent{mk([]value.EventType{value.EventClick, value.EventDoubleClick, value.EventTripleClick}[r.clicks-1], e.Button(), e.Modifiers()), e}
	}
	return []model.MouseEvent{e}
}

func (r *rec) reset() { *r = rec{cfg: r.cfg} }

type op struct {
	name string
	typ  value.EventType
	btn  value.Button
	pos  value.Position
	mods value.Modifiers
	dt   int // 0 none, 1 the limit exactly, 2 just over it, 3 half, 4 a day, 5 a century
	rst  bool
}

func ops(buttons []value.Button, ps []value.Position, dts []int, extra bool) []op {
	var out []op
	add := func(o op) {
		for _, d := range dts {
			o.dt = d
			n := o
			n.name = fmt.Sprintf("%s after %s", o.name, []string{"0", "the limit", "more than the limit", "half the limit", "a day", "a century"}[d])
			out = append(out, n)
		}
	}
	for i, p := range ps {
		for _, b := range buttons {
			m := value.ModifierNone
			if i == 1 {
				m = value.ModifierCtrl
			}
			add(op{name: fmt.Sprintf("press %v %v", b, p), typ: value.EventPress, btn: b, pos: p, mods: m})
			add(op{name: fmt.Sprintf("release %v %v", b, p), typ: value.EventRelease, btn: b, pos: p})
		}
		if i > 0 {
			add(op{name: fmt.Sprintf("move to %v", p), typ: value.EventMotion, pos: p})
		}
	}
	if extra {
		out = append(out, op{name: "wheel up", typ: value.EventScroll, btn: value.ButtonWheelUp, pos: ps[0]}, op{name: "wheel down", typ: value.EventScroll, btn: value.ButtonWheelDown, pos: ps[1]},
			op{name: "press of no button", typ: value.EventPress, pos: ps[0]}, op{name: "release of an unknown button", typ: value.EventRelease, pos: ps[0]},
			op{name: "drag event", typ: value.EventDrag, btn: value.ButtonLeft, pos: ps[1]}, op{name: "hover event", typ: value.EventHoverEnter, pos: ps[1]})
	}
	out = append(out, op{name: "reset", rst: true})
	return out
}

func show(es []model.MouseEvent) string {
	var p []string
	for _, e := range es {
		p = append(p, fmt.Sprintf("%v(%v %v %v +%v)", e.Type(), e.Button(), e.Position(), e.Modifiers(), e.Timestamp().Sub(t0)))
	}
	return "[" + strings.Join(p, " ") + "]"
}

var t0 = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func equal(a, b []model.MouseEvent) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func explore(c *vk.C, label string, cfg config, os []op, n int) {
	total := 1
	for i := 0; i < n; i++ {
		total *= len(os)
	}
	const blk = 2048
	nb := (total + blk - 1) / blk
	done := c.Parallel(nb, func(b int) {
		var ev int64
		for id := b * blk; id < min(total, (b+1)*blk); id++ {
			seq := make([]*op, n)
			x := id
			for k := range seq {
				seq[k] = &os[x%len(os)]
				x /= len(os)
			}
			ev += gesture(c, label, cfg, seq)
		}
		c.Evals.Add(ev)
	})
	if done < nb {
		c.Partial("%s: %d of %d blocks", label, done, nb)
	}
	c.Part("%s: %d operations, all %d sequences of %d", label, len(os), total, n)
}

// gesture sends one sequence of operations to the recogniser and to the reference.
func gesture(c *vk.C, label string, cfg config, seq []*op) (ev int64) {
	p := cfg.make()
	r := &rec{cfg: cfg}
	now := t0
	fail := func(k int, key, what string) {
		var names []string
		for i := 0; i <= k; i++ {
			n := 1
			for i < k && seq[i+1].name == seq[i].name {
				i++
				n++
			}
			names = append(names, seq[i].name)
			if n > 1 {
				names[len(names)-1] += fmt.Sprintf(" %d times", n)
			}
		}
		c.Fail(key, fmt.Sprintf("%s: %s after: %s", label, what, strings.Join(names, "; ")), names)
	}
	for k, o := range seq {
		ev++
		if o.rst {
			p.Reset()
			r.reset()
		} else {
			now = now.Add([]time.Duration{0, cfg.timeout, cfg.timeout + 1, cfg.timeout / 2, 24 * time.Hour, 100 * 365 * 24 * time.Hour}[o.dt])
			e := model.NewMouseEventWithTimestamp(o.typ, o.btn, o.pos, o.mods, now)
			got, want := p.ProcessEvent(e), r.step(e)
			if !equal(got, want) {
				key := "events"
				for _, g := range append(append([]model.MouseEvent(nil), got...), want...) {
					if g.IsClick() {
						key = "click"
					}
					if g.IsDrag() {
						key = "drag"
					}
				}
				fail(k, key, fmt.Sprintf("the events are %s, should be %s", show(got), show(want)))
				return
			}
			d := 0
			if o.typ == value.EventScroll {
				d = cfg.scroll
				if o.btn == value.ButtonWheelUp {
					d = -d
				}
			}
			if g := p.ScrollDelta(e); g != d || p.IsScrollUp(e) != (d < 0) || p.IsScrollDown(e) != (d > 0) {
				fail(k, "scroll", fmt.Sprintf("scroll delta %d, should be %d", g, d))
			}
		}
		if p.IsDragging() != r.dragging() || p.ClickCount() != r.clicks {
			fail(k, "state", fmt.Sprintf("IsDragging=%v ClickCount=%d, should be %v %d", p.IsDragging(), p.ClickCount(), r.dragging(), r.clicks))
			return
		}
	}
	return
}

func main() {
	vk.Main("C25", "model_checking", 0, func(c *vk.C) {
		c.Rule("all sequences of presses, releases, movements, wheel steps and resets over two buttons, positions inside, on and outside the tolerance and the threshold, and pauses below, at and above the time limit")
		def := config{500 * time.Millisecond, 1, 2, 3, application.NewEventProcessor}
		mk := func(t time.Duration, tol, thr, scr int) config {
			return config{t, tol, thr, scr, func() *application.EventProcessor { return application.NewEventProcessorWithConfig(t, tol, thr, scr) }}
		}
		zero := mk(0, -1, 0, 0)
		zero.timeout, zero.tol, zero.thr, zero.scroll = def.timeout, def.tol, def.thr, def.scroll
		neg := mk(-5, -3, -1, -2)
		neg.timeout, neg.tol, neg.thr, neg.scroll = def.timeout, def.tol, def.thr, def.scroll
		P := value.NewPosition
		L, R, M := value.ButtonLeft, value.ButtonRight, value.ButtonMiddle
		ps := []value.Position{P(5, 5), P(6, 5), P(4, 4), P(5, 8)}
		full := ops([]value.Button{L, R}, ps, []int{0, 1, 2}, true)
		explore(c, "default configuration", def, full, vk.Pick(c, 3, 4))
		mid := ops([]value.Button{L}, []value.Position{P(0, 0), P(0, 1), P(1, 1)}, []int{0, 2}, false)
		explore(c, "default configuration, one button", def, mid, vk.Pick(c, 5, 6))
		tiny := ops([]value.Button{L}, []value.Position{P(3, 3), P(3, 5)}, []int{3}, false)
		explore(c, "default configuration, long gestures", def, tiny, vk.Pick(c, 8, 9))
		clicks := []op{{name: "release", typ: value.EventRelease, btn: L, pos: P(1, 1), dt: 1}, {name: "release one off", typ: value.EventRelease, btn: L, pos: P(1, 2), dt: 1}, {name: "release right", typ: value.EventRelease, btn: R, pos: P(1, 1)},
			{name: "late release", typ: value.EventRelease, btn: L, pos: P(1, 1), dt: 2}, {name: "press", typ: value.EventPress, btn: L, pos: P(1, 1)}}
		explore(c, "default configuration, click runs", def, clicks, vk.Pick(c, 9, 10))
		for i, cfg := range []config{zero, neg, mk(100*time.Millisecond, 0, 3, 1), mk(time.Second, 3, 1, 5), mk(1, 2, 5, 7)} {
			explore(c, fmt.Sprint("configuration ", i+1), cfg, ops([]value.Button{L, M}, ps, []int{0, 1, 2}, true), vk.Pick(c, 2, 3))
			explore(c, fmt.Sprint("configuration ", i+1, ", one button"), cfg, mid, vk.Pick(c, 4, 5))
			explore(c, fmt.Sprint("configuration ", i+1, ", click runs"), cfg, clicks, vk.Pick(c, 6, 7))
		}
		// far from the corner: the same gestures anywhere on a large screen, and with long pauses
		for _, off := range [][2]int{{94, 0}, {222, 60}, {255, 255}, {256, 127}, {1000, 400}, {32767, 32767}, {65535, 65535}, {1 << 30, 1 << 29}} {
			far := func(ps ...value.Position) []value.Position {
				var out []value.Position
				for _, q := range ps {
					out = append(out, P(q.X()+off[0], q.Y()+off[1]))
				}
				return out
			}
			explore(c, fmt.Sprint("default configuration, at ", off), def, ops([]value.Button{L, R}, far(ps...), []int{0, 2}, true), 2)
			explore(c, fmt.Sprint("default configuration, one button, at ", off), def, ops([]value.Button{L}, far(P(0, 0), P(0, 1), P(1, 1)), []int{0}, false), vk.Pick(c, 5, 6))
			explore(c, fmt.Sprint("wide thresholds, at ", off), mk(time.Second, 40, 100, 12), ops([]value.Button{L}, far(P(0, 0), P(40, 0), P(0, 41), P(99, 99), P(100, 3)), []int{0, 4}, false), 3)
		}
		// the ends of the range of coordinates
		const top, bot = math.MaxInt, math.MinInt
		ends := []value.Position{P(0, 0), P(top, 0), P(top, top), P(0, top-1), P(top-1, top), P(1<<62, 1<<62), P(bot, 0), P(bot, top), P(-1, bot)}
		explore(c, "default configuration, ends of the coordinates", def, ops([]value.Button{L}, ends, []int{0}, false), 3)
		explore(c, "wide thresholds, ends of the coordinates", mk(time.Second, 40, 100, 12), ops([]value.Button{L}, ends, []int{0}, false), 3)
		explore(c, "default configuration, long pauses", def, ops([]value.Button{L}, []value.Position{P(0, 0), P(0, 1)}, []int{0, 4, 5}, false), 4)
		// long runs: one operation many times, then another, then a third
		runs := append(ops([]value.Button{L, R, M}, []value.Position{P(5, 5), P(6, 5), P(90, 40)}, []int{0}, true), ops([]value.Button{L}, []value.Position{P(5, 5)}, []int{2}, false)...)
		c.Parallel(len(runs), func(i int) {
			var ev int64
			for j := range runs {
				for k := range runs {
					for _, n := range []int{9, 100, 127, 128, 256, 300} {
						var seq []*op
						for t := 0; t < n; t++ {
							seq = append(seq, &runs[i])
						}
						for t := 0; t < 4; t++ {
							seq = append(seq, &runs[j])
						}
						seq = append(seq, &runs[k], &runs[i])
						ev += gesture(c, "long runs", def, seq)
					}
				}
			}
			c.Evals.Add(ev)
		})
		c.Part("long runs: one of %d operations up to 300 times, then another 4 times, then a third", len(runs))
		// many press-move-release gestures in a row
		c.Parallel(8, func(v int) {
			var store []op
			for i := 0; i < vk.Pick(c, 400, 3000); i++ {
				b := []value.Button{L, M, R}[i%3*(v&1)]
				x, y := i*(v+1)%200, i*3%60
				store = append(store, op{name: fmt.Sprintf("press %v %d,%d", b, x, y), typ: value.EventPress, btn: b, pos: P(x, y), dt: 2 * (v >> 1 & 1)})
				for s := 0; s < i%5; s++ {
					store = append(store, op{name: "move", typ: value.EventMotion, pos: P(x+s*(v>>2), y+s)})
				}
				store = append(store, op{name: fmt.Sprintf("release %v", b), typ: value.EventRelease, btn: b, pos: P(x, y+(i%5)/2)})
			}
			var seq []*op
			for i := range store {
				seq = append(seq, &store[i])
			}
			c.Evals.Add(gesture(c, "many gestures", def, seq))
		})
		// the whole path, from reports to events, with the clock as it is
		reports := []string{"\x1b[<0;6;6M", "\x1b[<0;6;6m", "\x1b[<0;9;6m", "\x1b[<32;7;6M", "\x1b[<32;9;6M", "\x1b[<2;6;6M", "\x1b[<2;6;6m", "\x1b[<64;6;6M"}
		evs := []op{{typ: value.EventPress, btn: L, pos: P(5, 5)}, {typ: value.EventRelease, btn: L, pos: P(5, 5)}, {typ: value.EventRelease, btn: L, pos: P(8, 5)}, {typ: value.EventMotion, pos: P(6, 5)}, {typ: value.EventMotion, pos: P(8, 5)},
			{typ: value.EventPress, btn: R, pos: P(5, 5)}, {typ: value.EventRelease, btn: R, pos: P(5, 5)}, {typ: value.EventScroll, btn: value.ButtonWheelUp, pos: P(5, 5)}}
		n, total := vk.Pick(c, 5, 6), 1
		for i := 0; i < n; i++ {
			total *= len(reports)
		}
		c.Parallel((total+255)/256, func(b int) {
			for id := b * 256; id < min(total, b*256+256); id++ {
				for try := 0; try < 5; try++ {
					m := mouse.New()
					r := &rec{cfg: def}
					begin := time.Now()
					bad, key := "", "reports"
					var names []string
					x := id
					for k := 0; k < n && bad == ""; k++ {
						i := x % len(reports)
						x /= len(reports)
						names = append(names, reports[i])
						got, err := m.ParseSequence(reports[i])
						want := r.step(model.NewMouseEventWithTimestamp(evs[i].typ, evs[i].btn, evs[i].pos, evs[i].mods, t0))
						var g []model.MouseEvent
						for _, e := range got {
							g = append(g, model.NewMouseEventWithTimestamp(e.Type(), e.Button(), e.Position(), e.Modifiers(), t0))
						}
						if err != nil || !equal(g, want) {
							bad = fmt.Sprintf("%q: the events are %s (%v), should be %s", names, show(g), err, show(want))
						} else if m.IsDragging() != r.dragging() {
							bad = fmt.Sprintf("%q: IsDragging is %v", names, m.IsDragging())
						}
					}
					c.Evals.Add(int64(n))
					if time.Since(begin) > 300*time.Millisecond {
						continue // too slow for the real clock: once more
					}
					if bad != "" {
						c.Fail(key, bad, names)
					}
					break
				}
			}
		})
		c.Part("reports: all %d sequences of %d reports through ParseSequence", total, n)
		c.States.Store(c.Evals.Load())
		c.Transitions.Store(c.Evals.Load())
		c.Traces.Store(c.Evals.Load())
	})
}
