// C04: every nesting of Batch, Sequence, plain, empty and nil commands up to a
// size, under every schedule up to a deviation bound.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/tea/zzverif/drv"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vk"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vsched"
)

// node is a command: l a leaf with a result, e a leaf without one, n no
// command, q quit, t a tick, p a line to print, B and S composites.
type node struct {
	kind byte
	kids []*node
	id   int
}

func (n *node) String() string {
	if n.kind != 'B' && n.kind != 'S' {
		return string(n.kind)
	}
	var p []string
	for _, k := range n.kids {
		p = append(p, k.String())
	}
	return string(n.kind) + "(" + strings.Join(p, "") + ")"
}

// parse builds a tree from its text and numbers the leaves.
func parse(s string) *node {
	id := 0
	var rec func() *node
	rec = func() *node {
		n := &node{kind: s[0]}
		s = s[1:]
		if n.kind == 'B' || n.kind == 'S' {
			s = s[1:]
			for s[0] != ')' {
				n.kids = append(n.kids, rec())
			}
			s = s[1:]
			return n
		}
		id++
		n.id = id
		return n
	}
	return rec()
}

func (n *node) leaves(f func(*node)) {
	if len(n.kids) == 0 {
		f(n)
	}
	for _, k := range n.kids {
		k.leaves(f)
	}
}

// order calls f for every pair of leaves that a Sequence orders.
func (n *node) order(f func(a, b *node)) {
	if n.kind == 'S' {
		for i := range n.kids {
			for j := i + 1; j < len(n.kids); j++ {
				n.kids[i].leaves(func(a *node) { n.kids[j].leaves(func(b *node) { f(a, b) }) })
			}
		}
	}
	for _, k := range n.kids {
		k.order(f)
	}
}

func label(id int) string { return fmt.Sprint("r", id) }

type plan struct {
	tree     string
	how      string
	public   bool
	fromInit bool
	twice    bool // the same command value is returned by two updates
	wait     bool // every leaf waits until the event loop has handled another message
}

func run(pl plan) func(x *vsched.X) {
	return func(x *vsched.X) {
		w := drv.New(x, pl.public, false, true)
		tree := parse(pl.tree)
		starts, ends := map[int]int{}, map[int]int{}
		runs := map[int]int{}
		names := map[string]int{} // of the ticks
		clock := 0
		pinged := false
		var build func(n *node) drv.Cmd
		build = func(n *node) drv.Cmd {
			switch n.kind {
			case 'n':
				return nil
			case 'B', 'S':
				var cs []drv.Cmd
				for _, k := range n.kids {
					cs = append(cs, build(k))
				}
				if n.kind == 'B' {
					return w.Batch(cs...)
				}
				return w.Sequence(cs...)
			}
			return func() any {
				clock++
				starts[n.id] = clock
				runs[n.id]++
				vsched.Yield()
				if pl.wait {
					vsched.Await("the loop handles another message", func() bool { return pinged })
				}
				var lib any
				switch n.kind {
				case 't':
					d := time.Duration(n.id) * 10 * time.Millisecond
					before := vsched.Elapsed()
					lib = w.Tick(d)()
					if e := vsched.Elapsed() - before; e < d || e > d+100*time.Millisecond {
						x.Fail("tick-time", fmt.Sprintf("a tick of %v took %v", d, e))
					}
					at, ok := drv.TickTime(lib)
					if !ok || at.After(vsched.Now()) || vsched.Now().Sub(at) > 100*time.Millisecond {
						x.Fail("tick-message", fmt.Sprintf("a tick of %v at %v had the result %v", d, vsched.Now(), lib))
					}
				case 'p':
					lib = w.Println(label(n.id))()
				case 'q':
					lib = w.LibQuit()()
				}
				clock++
				ends[n.id] = clock
				if lib != nil {
					if n.kind == 't' {
						names[drv.Label(lib)] = n.id
					}
					return lib
				}
				switch n.kind {
				case 'e':
					return nil
				}
				return drv.T(label(n.id))
			}
		}
		var made drv.Cmd
		if pl.twice {
			made = build(tree)
		}
		w.OnMsg = func(l string) drv.Cmd {
			switch l {
			case "go":
				if pl.twice {
					return made
				}
				return build(tree)
			case "ping":
				pinged = true
			}
			return nil
		}
		if pl.fromInit {
			w.OnInit = func() drv.Cmd { return build(tree) }
		}
		ended := w.Running(pl.how)
		if !pl.fromInit {
			if err := w.Send(drv.T("go")); err != nil {
				x.Fail("send", err.Error())
			}
		}
		times := 1
		if pl.twice {
			// once more when the first run is over
			vsched.Settle(300 * time.Millisecond)
			starts, ends = map[int]int{}, map[int]int{}
			times = 2
			if err := w.Send(drv.T("go")); err != nil {
				x.Fail("send", err.Error())
			}
		}
		quits := strings.Contains(pl.tree, "q")
		// what a Sequence runs before the only quit is delivered before it
		before := map[int]bool{}
		if strings.Count(pl.tree, "q") == 1 {
			tree.order(func(a, b *node) {
				if b.kind == 'q' {
					before[a.id] = true
				}
			})
		}
		if err := w.Send(drv.T("ping")); err != nil && !quits {
			x.Fail("send", err.Error())
		}
		if quits {
			if !ended(time.Second) {
				x.Fail("quit", "the quit message in "+pl.tree+" did not end the program")
				return
			}
		} else {
			vsched.Settle(300 * time.Millisecond)
		}
		x.Nontrivial()
		var seen []string
		for _, m := range w.Seen {
			if m != "go" && m != "ping" {
				if id, ok := names[m]; ok {
					m = label(id)
				}
				seen = append(seen, m)
			}
		}
		x.Outcome(pl.tree + " " + strings.Join(seen, ","))
		pos := map[string]int{}
		count := map[string]int{}
		for i, m := range seen {
			pos[m] = i
			count[m]++
		}
		for m := range count {
			if !strings.HasPrefix(m, "r") {
				x.Fail("extra", fmt.Sprintf("%s delivered %q", pl.tree, m))
			}
		}
		n := 0
		tree.leaves(func(l *node) {
			if l.kind == 'n' {
				return
			}
			if runs[l.id] > times || runs[l.id] < times && !quits {
				x.Fail("runs", fmt.Sprintf("%s: command %d ran %d times", pl.tree, l.id, runs[l.id]))
			}
			k := count[fmt.Sprint("r", l.id)]
			n += k
			want := 0
			if strings.ContainsRune("ltp", rune(l.kind)) {
				want = times
			}
			if k > want || k < want && (!quits || before[l.id]) {
				x.Fail("results", fmt.Sprintf("%s: the result of command %d reached Update %d times instead of %d (saw %v)", pl.tree, l.id, k, want, seen))
			}
		})
		if n != len(seen) {
			x.Fail("extra", fmt.Sprintf("%s delivered %v", pl.tree, seen))
		}
		tree.order(func(a, b *node) {
			if a.kind == 'n' || b.kind == 'n' {
				return
			}
			if starts[b.id] != 0 && (ends[a.id] == 0 || ends[a.id] > starts[b.id]) {
				x.Fail("sequence-overlap", fmt.Sprintf("%s: command %d started before command %d had finished", pl.tree, b.id, a.id))
			}
			pa, oka := pos[fmt.Sprint("r", a.id)]
			pb, okb := pos[fmt.Sprint("r", b.id)]
			if oka && okb && pa > pb || okb && !oka && a.kind != 'e' && a.kind != 'q' {
				x.Fail("sequence-order", fmt.Sprintf("%s: the results arrived as %v", pl.tree, seen))
			}
			if a.kind == 'q' && okb {
				x.Fail("after-quit", fmt.Sprintf("%s: %d was delivered after the quit", pl.tree, b.id))
			}
		})
		if !quits {
			w.P.Stop()
			if !ended(time.Second) {
				x.Fail("never-ends", "the program did not end")
			}
		}
		if pl.wait && !quits {
			return
		}
	}
}

// trees lists all trees with at most max leaves and the given nesting depth.
func trees(depth, max int, leaves string) []string {
	type tl struct {
		s string
		n int
	}
	var gen func(d, m int) []tl
	gen = func(d, m int) []tl {
		var out []tl
		if m < 1 {
			return nil
		}
		for _, l := range leaves {
			out = append(out, tl{string(l), 1})
		}
		if d == 0 {
			return out
		}
		var kids func(m, min int) []tl // lists of at least min children
		kids = func(m, min int) []tl {
			var o []tl
			if min <= 0 {
				o = append(o, tl{"", 0})
			}
			for _, k := range gen(d-1, m) {
				for _, r := range kids(m-k.n, min-1) {
					o = append(o, tl{k.s + r.s, k.n + r.n})
				}
			}
			return o
		}
		for _, k := range kids(m, 1) {
			out = append(out, tl{"B(" + k.s + ")", k.n}, tl{"S(" + k.s + ")", k.n})
		}
		return out
	}
	var out []string
	seen := map[string]bool{}
	for _, t := range gen(depth, max) {
		if !seen[t.s] {
			seen[t.s] = true
			out = append(out, t.s)
		}
	}
	return out
}

func lists() (shapes, ordinary, quits, ticks []plan) {
	all := trees(2, 3, "len")
	hows := []string{"run", "start"}
	for i, t := range all {
		shapes = append(shapes, plan{tree: t, how: hows[i%2], public: i/2%2 == 0, fromInit: i/4%2 == 0})
	}
	for i, t := range []string{"l", "e", "B(ll)", "S(ll)", "B(lel)", "S(lel)", "S(lB(ll))", "B(lS(ll))", "S(B(ll)l)", "B(S(ll)S(ll))", "S(S(ll)l)", "B(B(ll)l)", "S(B(ll)B(ll))", "S(nll)", "B(nll)", "B(B(lll)l)", "S(lB(lll))", "B(lS(lll)l)"} {
		for j := 0; j < 2; j++ {
			ordinary = append(ordinary, plan{tree: t, how: hows[(i+j)%2], public: j == 0, fromInit: i%3 == 0 && !strings.Contains(t, "x")})
		}
		ordinary = append(ordinary, plan{tree: t, how: hows[i%2], public: i%2 == 0, wait: true})
	}
	for i, t := range []string{"l", "B(ll)", "S(ll)", "B(nlS(ll))", "S(lnB(ll))", "S(S(ll)l)"} {
		ordinary = append(ordinary, plan{tree: t, how: hows[i%2], public: i%2 == 0, twice: true}, plan{tree: t, how: hows[i%2], public: i%2 == 1, twice: true})
	}
	for i, t := range []string{"t", "p", "B(tt)", "S(tt)", "B(tp)", "S(tpl)", "S(B(tl)p)", "B(S(tp)t)", "S(tq)"} {
		for j := 0; j < 2; j++ {
			ticks = append(ticks, plan{tree: t, how: hows[(i+j)%2], public: j == 0, fromInit: i%3 == 0})
		}
	}
	for i, t := range []string{"q", "B(lq)", "S(lql)", "S(qll)", "B(S(lq)l)", "S(B(lq)l)", "S(lS(lq)l)", "S(lllq)", "S(B(ll)q)"} {
		for j := 0; j < 2; j++ {
			quits = append(quits, plan{tree: t, how: hows[(i+j)%2], public: j == 0, fromInit: i%2 == 0})
		}
	}
	return
}

// prefixes delivers batches made of one list, twice.
func prefixes(x *vsched.X) {
	pub := x.Variant%2 == 0
	w := drv.New(x, pub, false, true)
	var value any = drv.Prefixes{drv.T("r1"), drv.T("r2"), drv.T("r3"), drv.T("r4"), drv.T("r5")}
	w.OnMsg = func(l string) drv.Cmd {
		if l == "go" {
			return func() any { return value }
		}
		return nil
	}
	ended := w.Running([]string{"run", "start"}[x.Variant/2])
	for range 2 {
		if err := w.Send(drv.T("go")); err != nil {
			x.Fail("send", err.Error())
		}
	}
	vsched.Settle(300 * time.Millisecond)
	n := map[string]int{}
	for _, m := range w.Seen {
		n[m]++
	}
	for i := 1; i <= 5; i++ {
		if k := n[label(i)]; k != 2*(6-i) {
			x.Fail("results", fmt.Sprintf("message %d of batches made of one list reached Update %d times instead of %d (saw %v)", i, k, 2*(6-i), w.Seen))
		}
	}
	if len(w.Seen) != 32 {
		x.Fail("extra", fmt.Sprintf("Update saw %v", w.Seen))
	}
	x.Nontrivial()
	x.Outcome("prefixes")
	w.P.Stop()
	if !ended(time.Second) {
		x.Fail("never-ends", "the program did not end")
	}
}

func scenarios(thorough bool) []*vsched.Scenario {
	shapes, ordinary, quits, ticks := lists()
	mk := func(name string, ps []plan, bound int) *vsched.Scenario {
		return &vsched.Scenario{Name: name, Variants: len(ps), Bound: bound, MaxSteps: 60000, MaxTime: time.Minute, Races: true,
			Body: func(x *vsched.X) { run(ps[x.Variant])(x) }}
	}
	pick := func(a, b int) int {
		if thorough {
			return b
		}
		return a
	}
	// more results than any internal queue holds
	var many []plan
	for i, t := range []string{"B(" + strings.Repeat("l", 130) + ")", "S(" + strings.Repeat("l", 130) + ")", "S(B(" + strings.Repeat("l", 110) + ")S(" + strings.Repeat("l", 110) + "))"} {
		for j := 0; j < 2; j++ {
			many = append(many, plan{tree: t, how: []string{"run", "start"}[j], public: (i+j)%2 == 0})
		}
	}
	return []*vsched.Scenario{
		mk("shapes", shapes, pick(1, 1)),
		mk("commands", ordinary, pick(2, 3)),
		mk("quit", quits, pick(2, 3)),
		mk("ticks", ticks, pick(1, 2)),
		mk("many", many, 0),
		{Name: "one-list", Variants: 4, Bound: 1, MaxSteps: 60000, MaxTime: time.Minute, Body: prefixes},
	}
}

func main() {
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C04", "model_checking", 0, func(c *vk.C) {
		shapes, ordinary, quits, ticks := lists()
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 100*time.Second, 13*time.Minute))
		c.Sched(rep, err)
		c.Rule(fmt.Sprintf("one case per schedule: all %d nestings of Batch and Sequence of depth 2 with up to 3 commands (with a result, without one, absent) at 1 deviation; %d programs at the full bound, some with commands that wait for the event loop to go on; %d programs with a quit command inside; %d programs with ticks and lines to print; composites of 110-130 commands; batches that share one list", len(shapes), len(ordinary), len(quits), len(ticks)))
	})
}
