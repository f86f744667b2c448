// C21: all operation sequences from small and extreme values on the core
// values, against plain arithmetic.
package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/core/internal/domain/model"
	"github.com/phoenix-tui/phoenix/core/internal/domain/value"
	"github.com/phoenix-tui/phoenix/core/zzverif/vk"
)

var ints = []int{math.MinInt, math.MinInt + 1, -1000, -2, -1, 0, 1, 2, 3, 24, 80, 1000, 1 << 31, math.MaxInt - 1, math.MaxInt}

func clamp(v, lo int) int {
	if v < lo {
		return lo
	}
	return v
}

// sum is a+b kept in [0, MaxInt]; exact=false when the true sum is not an int.
func sum(a, b int) (v int, exact bool) {
	s := new(big.Int).Add(big.NewInt(int64(a)), big.NewInt(int64(b)))
	if s.Sign() < 0 {
		return 0, s.IsInt64()
	}
	return int(s.Int64()), s.IsInt64()
}

func positions(c *vk.C, depth int) {
	n := 0
	var walk func(pub core.Position, in value.Position, row, col int, exact bool, left int, hist string)
	walk = func(pub core.Position, in value.Position, row, col int, exact bool, left int, hist string) {
		n++
		if pub.Row < 0 || pub.Col < 0 || in.Row < 0 || in.Col < 0 || pub.Row != in.Row || pub.Col != in.Col {
			c.Fail("position", fmt.Sprintf("%s: %v and %v", hist, pub, in), hist)
			return
		}
		if exact && (pub.Row != row || pub.Col != col) {
			c.Fail("position", fmt.Sprintf("%s: %v, should be row %d column %d", hist, pub, row, col), hist)
			return
		}
		if exact && (in.IsZero() != (row == 0 && col == 0) || !in.Equal(value.NewPosition(row, col)) || in.Equal(value.Position{Row: row + 1, Col: col}) || in.Equal(value.Position{Row: row, Col: col + 1})) {
			c.Fail("position", fmt.Sprintf("%s: comparisons of %v", hist, in), hist)
		}
		if left == 0 || !exact {
			return
		}
		for _, dr := range ints {
			for _, dc := range ints {
				before, beforeIn := pub, in
				r, e1 := sum(row, dr)
				k, e2 := sum(col, dc)
				next, nextIn := pub.Add(dr, dc), in.Add(dr, dc)
				if pub != before || in != beforeIn {
					c.Fail("position", hist+": Add changed its receiver", hist)
				}
				walk(next, nextIn, r, k, e1 && e2, left-1, fmt.Sprintf("%s.Add(%d, %d)", hist, dr, dc))
			}
		}
	}
	for _, r := range ints {
		for _, k := range ints {
			walk(core.NewPosition(r, k), value.NewPosition(r, k), clamp(r, 0), clamp(k, 0), true, depth, fmt.Sprintf("NewPosition(%d, %d)", r, k))
		}
	}
	// values built without the constructor are normalised by the next operation
	for _, r := range ints {
		for _, k := range ints {
			if p := (core.Position{Row: r, Col: k}).Add(0, 0); p != core.NewPosition(r, k) {
				c.Fail("position", fmt.Sprintf("Position{%d, %d}.Add(0, 0) = %v", r, k, p), nil)
			}
		}
	}
	c.States.Add(int64(n))
	c.Evals.Add(int64(n))
	c.Part("%d positions reached by up to %d additions", n, depth)
	c.Outcome("positions")
}

func sizes(c *vk.C) {
	n := 0
	for _, w := range ints {
		for _, h := range ints {
			p, s := core.NewSize(w, h), value.NewSize(w, h)
			n++
			if p.Width != clamp(w, 1) || p.Height != clamp(h, 1) || s.Width != p.Width || s.Height != p.Height || s.IsEmpty() {
				c.Fail("size", fmt.Sprintf("NewSize(%d, %d) = %v, %v", w, h, p, s), nil)
			}
			if a := new(big.Int).Mul(big.NewInt(int64(s.Width)), big.NewInt(int64(s.Height))); a.IsInt64() && int64(s.Area()) != a.Int64() {
				c.Fail("size", fmt.Sprintf("%v has area %d", s, s.Area()), nil)
			}
			for _, w2 := range ints {
				for _, h2 := range ints {
					o := value.NewSize(w2, h2)
					if s.Equal(o) != (s.Width == o.Width && s.Height == o.Height) {
						c.Fail("size", fmt.Sprintf("%v.Equal(%v) = %v", s, o, s.Equal(o)), nil)
					}
					raw := value.Position{Row: h2, Col: w2}
					if g, want := s.Contains(raw), h2 >= 0 && w2 >= 0 && h2 < s.Height && w2 < s.Width; g != want {
						c.Fail("size", fmt.Sprintf("%v.Contains(%v) = %v", s, raw, g), nil)
					}
					n++
				}
			}
		}
	}
	c.States.Add(int64(n))
	c.Evals.Add(int64(n))
	c.Part("%d sizes, pairs and containments", n)
	c.Outcome("sizes")
}

func cells(c *vk.C) {
	contents := []string{"", " ", "a", "世", "e\u0301", "👨\u200d👩\u200d👧", "\x00", "\xff", "ab"}
	n := 0
	for _, s := range contents {
		for _, w := range ints {
			p, i := core.NewCell(s, w), value.NewCell(s, w)
			if p.Content != s || p.Width != clamp(w, 0) || i.Content() != s || i.Width() != clamp(w, 0) {
				c.Fail("cell", fmt.Sprintf("NewCell(%q, %d) = %v, %v", s, w, p, i), nil)
			}
			if i.IsEmpty() != (s == "" || s == " " || i.Width() == 0) {
				c.Fail("cell", fmt.Sprintf("NewCell(%q, %d).IsEmpty() = %v", s, w, i.IsEmpty()), nil)
			}
			for _, s2 := range contents {
				for _, w2 := range ints {
					if o := value.NewCell(s2, w2); i.Equal(o) != (s == s2 && i.Width() == o.Width()) {
						c.Fail("cell", fmt.Sprintf("%v.Equal(%v) = %v", i, o, i.Equal(o)), nil)
					}
					n++
				}
			}
		}
		if a := core.NewCellAuto(s); a.Content != s || a.Width != core.StringWidth(s) {
			c.Fail("cell", fmt.Sprintf("NewCellAuto(%q) = %v", s, a), nil)
		}
	}
	c.States.Add(int64(n))
	c.Evals.Add(int64(n))
	c.Part("%d cells and pairs of cells", n)
	c.Outcome("cells")
}

func capabilities(c *vk.C) {
	depths := append([]int{7, 9, 16, 255, 257, 1<<24 - 1, 1<<24 + 1, 8, 256, 1 << 24}, ints...)
	n := 0
	var all []*value.Capabilities
	for mask := 0; mask < 16; mask++ {
		b := func(i int) bool { return mask>>i&1 == 1 }
		for _, d := range depths {
			p := core.NewCapabilities(b(0), core.ColorDepth(d), b(1), b(2), b(3))
			i := value.NewCapabilities(b(0), value.ColorDepth(d), b(1), b(2), b(3))
			want := 0
			if d == 8 || d == 256 || d == 1<<24 {
				want = d
			}
			n++
			if int(p.ColorDepth()) != want || p.SupportsANSI() != b(0) || p.SupportsMouse() != (b(0) && b(1)) || p.SupportsAltScreen() != (b(0) && b(2)) || p.SupportsCursorControl() != (b(0) && b(3)) ||
				p.SupportsColor() != (want > 0) || p.SupportsTrueColor() != (want == 1<<24) {
				c.Fail("capabilities", fmt.Sprintf("NewCapabilities(%v, %d, %v, %v, %v) = %+v", b(0), d, b(1), b(2), b(3), p), nil)
			}
			if int(i.ColorDepth()) != want || i.Supports256Color() != (want >= 256) || i.SupportsColor() != (want > 0) || i.SupportsTrueColor() != (want == 1<<24) || i.IsDumbTerminal() != (!b(0) && want == 0) || i.Equal(nil) {
				c.Fail("capabilities", fmt.Sprintf("NewCapabilities(%v, %d, ...): predicates disagree", b(0), d), nil)
			}
			all = append(all, i)
		}
	}
	for _, a := range all {
		for _, b := range all {
			want := a.SupportsANSI() == b.SupportsANSI() && a.ColorDepth() == b.ColorDepth() && a.SupportsMouse() == b.SupportsMouse() && a.SupportsAltScreen() == b.SupportsAltScreen() && a.SupportsCursorControl() == b.SupportsCursorControl()
			if a.Equal(b) != want {
				c.Fail("capabilities", fmt.Sprintf("%+v.Equal(%+v) = %v", *a, *b, !want), nil)
			}
			n++
		}
	}
	for d, s := range map[int]string{0: "None", 8: "8 colors", 256: "256 colors", 1 << 24: "TrueColor (16.7M colors)", 5: "Unknown", -1: "Unknown"} {
		if core.ColorDepth(d).String() != s {
			c.Fail("capabilities", fmt.Sprintf("depth %d is called %q", d, core.ColorDepth(d).String()), nil)
		}
	}
	c.States.Add(int64(n))
	c.Evals.Add(int64(n))
	c.Part("%d capability sets and pairs", n)
	c.Outcome("capabilities")
}

// ref is what a terminal value should say.
type ref struct {
	w, h, caps int
	raw        bool
	state      any
}

type node struct {
	pub *core.Terminal
	in  *model.Terminal
	r   ref
}

// terminals: every derivation tree; every value ever made is looked at again
// after every later operation.
func terminals(c *vk.C, depth int) {
	depthCaps := []int{0, 8, 1 << 24}
	mk := func(i int) *core.Capabilities {
		return core.NewCapabilities(i > 0, core.ColorDepth(depthCaps[i]), true, true, true)
	}
	mkIn := func(i int) *value.Capabilities {
		return value.NewCapabilities(i > 0, value.ColorDepth(depthCaps[i]), true, true, true)
	}
	check := func(n node) string {
		if s := n.in.Size(); s.Width != n.r.w || s.Height != n.r.h {
			return fmt.Sprintf("the size is %v, should be %dx%d", s, n.r.w, n.r.h)
		}
		if n.in.IsRawMode() != n.r.raw {
			return fmt.Sprintf("raw mode is %v", n.in.IsRawMode())
		}
		if (n.in.RawMode() == nil) != (n.r.state == nil) || n.r.state != nil && n.in.RawMode().OriginalState() != n.r.state {
			return fmt.Sprintf("the raw mode is %v, original state should be %v", n.in.RawMode(), n.r.state)
		}
		if n.in.Capabilities() == nil || int(n.in.ColorDepth()) != depthCaps[n.r.caps] || n.in.SupportsANSI() != (n.r.caps > 0) || n.in.SupportsColor() != (n.r.caps > 0) {
			return "the capabilities changed"
		}
		if n.pub == nil {
			return ""
		}
		if s := n.pub.Size(); s.Width != n.r.w || s.Height != n.r.h {
			return fmt.Sprintf("the public size is %v, should be %dx%d", s, n.r.w, n.r.h)
		}
		if n.pub.IsRawModeEnabled() != n.r.raw || int(n.pub.Capabilities().ColorDepth()) != depthCaps[n.r.caps] || n.pub.Capabilities().SupportsMouse() != (n.r.caps > 0) {
			return fmt.Sprintf("public: raw %v, depth %v", n.pub.IsRawModeEnabled(), n.pub.Capabilities().ColorDepth())
		}
		return ""
	}
	raw0, err := model.NewRawMode("state")
	pubRaw, err2 := core.NewRawMode("state")
	if err != nil || err2 != nil {
		c.Fail("raw", fmt.Sprint(err, err2), nil)
		return
	}
	if _, err := core.NewRawMode(nil); err == nil {
		c.Fail("raw", "a raw mode without original state was made", nil)
	}
	if pubRaw.IsEnabled() || pubRaw.OriginalState() != "state" {
		c.Fail("raw", "a new raw mode is not as documented", nil)
	}
	type op struct {
		name string
		do   func(n node) node
	}
	var ops []op
	for _, sz := range [][2]int{{1, 1}, {0, -5}, {200, 50}, {math.MaxInt, math.MinInt}} {
		ops = append(ops, op{fmt.Sprintf("WithSize(%d, %d)", sz[0], sz[1]), func(n node) node {
			n.in = n.in.WithSize(value.NewSize(sz[0], sz[1]))
			if n.pub != nil {
				n.pub = n.pub.WithSize(core.Size{Width: sz[0], Height: sz[1]})
			}
			n.r.w, n.r.h = clamp(sz[0], 1), clamp(sz[1], 1)
			return n
		}})
	}
	raws := []*model.RawMode{raw0, raw0.Enable(), raw0.Enable().Disable(), raw0.Enable().Enable()}
	for i, on := range []bool{false, true, false, true} {
		if raws[i].IsEnabled() != on || raws[i].OriginalState() != "state" {
			c.Fail("raw", fmt.Sprintf("raw mode %d: %+v", i, raws[i]), nil)
		}
		ops = append(ops, op{fmt.Sprintf("WithRawMode(%d)", i), func(n node) node {
			n.in, n.pub = n.in.WithRawMode(raws[i]), nil
			n.r.raw, n.r.state = on, "state"
			return n
		}})
	}
	ops = append(ops, op{"WithRawMode, public", func(n node) node {
		n.in = n.in.WithRawMode(raw0)
		n.r.raw, n.r.state = false, "state"
		if n.pub != nil {
			n.pub = n.pub.WithRawMode(pubRaw)
		}
		return n
	}}, op{"WithRawMode(nil), public", func(n node) node {
		if n.pub != nil {
			n.pub = n.pub.WithRawMode(nil)
		}
		return n
	}}, op{"WithoutRawMode", func(n node) node {
		n.in, n.pub = n.in.WithoutRawMode(), nil
		n.r.raw, n.r.state = false, nil
		return n
	}})
	total := 0
	var all []node
	var walk func(n node, left int, hist string)
	walk = func(n node, left int, hist string) {
		total++
		all = append(all, n)
		defer func() { all = all[:len(all)-1] }()
		for _, o := range all {
			if bad := check(o); bad != "" {
				c.Fail("terminal", bad+" after "+hist, hist)
				return
			}
		}
		if left == 0 {
			return
		}
		for _, o := range ops {
			var m node
			if p := vk.Guard(func() { m = o.do(n) }); p != "" {
				c.Fail("panic", hist+"; "+o.name+": "+p, hist)
				return
			}
			walk(m, left-1, hist+"; "+o.name)
		}
	}
	walk(node{core.NewTerminal(), model.NewTerminal(nil), ref{w: 80, h: 24}}, depth, "NewTerminal")
	walk(node{core.NewTerminalWithCapabilities(nil), model.NewTerminal(nil), ref{w: 80, h: 24}}, 1, "NewTerminalWithCapabilities(nil)")
	for i := range depthCaps {
		walk(node{core.NewTerminalWithCapabilities(mk(i)), model.NewTerminal(mkIn(i)), ref{w: 80, h: 24, caps: i}}, depth-1, fmt.Sprint("NewTerminalWithCapabilities ", i))
	}
	c.States.Add(int64(total))
	c.Evals.Add(int64(total))
	c.Part("%d terminal values derived by up to %d operations, all values looked at again after each", total, depth)
	c.Outcome("terminals")
}

// rawModes: every derivation of raw modes, all values looked at again after
// each step.
func rawModes(c *vk.C, depth int) {
	type val struct {
		r  *model.RawMode
		on bool
	}
	first, err := model.NewRawMode("state")
	if err != nil {
		c.Fail("raw", err.Error(), nil)
		return
	}
	total := 0
	var walk func(all []val, left int, hist string)
	walk = func(all []val, left int, hist string) {
		total++
		for _, v := range all {
			if v.r.IsEnabled() != v.on || v.r.OriginalState() != "state" {
				c.Fail("raw", fmt.Sprintf("after %s a raw mode is %+v, enabled should be %v", hist, *v.r, v.on), hist)
				return
			}
		}
		if left == 0 {
			return
		}
		for i, v := range all {
			n := all[:len(all):len(all)]
			walk(append(n, val{v.r.Enable(), true}), left-1, fmt.Sprintf("%s; %d.Enable", hist, i))
			walk(append(n, val{v.r.Disable(), false}), left-1, fmt.Sprintf("%s; %d.Disable", hist, i))
			if c.Failed() {
				return
			}
		}
	}
	walk([]val{{first, false}}, depth, "NewRawMode")
	c.States.Add(int64(total))
	c.Evals.Add(int64(total))
	c.Part("%d histories of deriving up to %d raw modes", total, depth)
	c.Outcome("raw modes")
}

func main() {
	vk.Main("C21", "model_checking", 0, func(c *vk.C) {
		positions(c, 2)
		sizes(c)
		cells(c)
		capabilities(c)
		rawModes(c, vk.Pick(c, 5, 6))
		terminals(c, vk.Pick(c, 4, 5))
		c.Rule(fmt.Sprintf("all values built from %d small and extreme integers, all sequences of operations up to the stated length, against arithmetic in unbounded integers; one case per value or pair", len(ints)))
	})
}
