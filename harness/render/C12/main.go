// C12: an output that fails, or takes only part of the data, at every byte of
// every short history of frames and screen operations.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/phoenix-tui/phoenix/render"
	"github.com/phoenix-tui/phoenix/render/zzverif/rnd"
	"github.com/phoenix-tui/phoenix/render/zzverif/vk"
)

var errDisk = errors.New("the output is gone")

// faulty passes bytes on until one of its faults strikes.
type faulty struct {
	t      *vk.Term
	n      int   // bytes passed on
	at     []int // positions of faults, ascending
	kind   int   // what a fault is
	struck int
}

const (
	partThenError = iota // part of the data is taken, and an error reported
	partNoError          // part is taken, and no error reported
	allThenError         // all of it is taken, and an error reported
)

var kinds = []string{"an error", "a short write", "an error after taking all"}

func (f *faulty) Write(p []byte) (int, error) {
	if f.struck < len(f.at) && f.n+len(p) > f.at[f.struck] {
		k := max(f.at[f.struck]-f.n, 0)
		f.struck++
		if f.kind == allThenError {
			k = len(p)
		}
		f.t.Write(p[:k])
		f.n += k
		if f.kind == partNoError {
			return k, nil
		}
		return k, errDisk
	}
	f.n += len(p)
	return f.t.Write(p)
}

type sys struct {
	t    *vk.Term
	out  *faulty
	r    *render.Renderer
	want *rnd.Frame // nil: unknown
	hide int        // 0 shown, 1 hidden, -1 unknown
}

type op struct {
	name string
	do   func(s *sys) error
	ok   func(s *sys) // what follows from success
	bad  func(s *sys) // what follows from failure
}

func ch(s string, st rnd.Sty) rnd.Ch { return rnd.Ch{S: s, W: 1, St: st} }

func frames() []*rnd.Frame {
	red := rnd.Mk([]uint8{255, 0, 0}, nil, true, false, false, false)
	blue := rnd.Mk(nil, []uint8{0, 0, 255}, false, false, true, false)
	wide := rnd.Ch{S: "世", W: 2, St: blue}
	n := rnd.None
	return []*rnd.Frame{
		{W: 3, H: 2, Rows: [][]rnd.Ch{{ch("a", red), ch("b", n), ch("c", blue)}, {wide, ch("d", red)}}},
		{W: 3, H: 2, Rows: [][]rnd.Ch{{ch("a", red), wide}, {wide, ch("d", red)}}},
		{W: 3, H: 2, Rows: [][]rnd.Ch{{ch(" ", n), ch(" ", n), ch("e\u0301", n)}, {ch(" ", n), ch("y", blue), ch(" ", red)}}},
		{W: 2, H: 1, Rows: [][]rnd.Ch{{wide}}},
	}
}

func ops() (out []op) {
	lost := func(s *sys) { s.want = nil }
	for i, f := range frames() {
		out = append(out, op{fmt.Sprintf("Render(frame %d)", i), func(s *sys) error {
			if s.t.W != f.W || s.t.H != f.H {
				s.t.Resize(f.W, f.H)
				s.want = nil
			}
			return s.r.Render(f.Buffer())
		}, func(s *sys) { s.want = f }, lost})
	}
	out = append(out,
		op{"Clear", func(s *sys) error { return s.r.Clear() }, func(s *sys) { s.want = rnd.Blank(s.t.W, s.t.H) }, lost},
		op{"Resize(3,2)", func(s *sys) error {
			s.t.Resize(3, 2)
			return s.r.Resize(3, 2)
		}, func(s *sys) { s.want = rnd.Blank(3, 2) }, lost},
		op{"HideCursor", func(s *sys) error { return s.r.HideCursor() }, func(s *sys) { s.hide = 1 }, func(s *sys) { s.hide = -1; s.want = nil }},
		op{"ShowCursor", func(s *sys) error { return s.r.ShowCursor() }, func(s *sys) { s.hide = 0 }, func(s *sys) { s.hide = -1; s.want = nil }},
	)
	return
}

// bad compares the terminal with what is known about it.
func (s *sys) bad() string {
	if s.want != nil {
		if b := s.want.Shows(s.t); b != "" {
			return b
		}
	}
	if s.hide >= 0 && s.t.Visible != (s.hide == 0) {
		return fmt.Sprintf("the cursor is visible: %v", s.t.Visible)
	}
	return ""
}

func newSys(buffer, kind int, at []int) *sys {
	t := vk.NewTerm(3, 2)
	s := &sys{t: t, out: &faulty{t: t, at: at, kind: kind}, want: rnd.Blank(3, 2)}
	if buffer == 0 {
		s.r = render.New(3, 2, s.out)
	} else {
		s.r = render.WithBufferSize(3, 2, s.out, buffer)
	}
	return s
}

// run executes a history with faults; it returns how many bytes were passed on
// and what went wrong.
func run(hist []op, buffer, kind int, at []int) (int, string) {
	s := newSys(buffer, kind, at)
	step := func(name string, o op) string {
		before := s.out.struck
		var err error
		if p := vk.Guard(func() { err = o.do(s) }); p != "" {
			return name + ": " + p
		}
		hit := s.out.struck > before
		switch {
		case hit && err == nil:
			return name + " suffered a failed write and reported success"
		case hit && kind != partNoError && !errors.Is(err, errDisk), hit && kind == partNoError && !errors.Is(err, io.ErrShortWrite):
			return fmt.Sprintf("%s reported %q", name, err)
		case !hit && err != nil:
			return fmt.Sprintf("%s reported %q although its writes succeeded", name, err)
		case hit:
			o.bad(s)
			s.t.Scrollback = nil // half a character may have wrapped
		default:
			o.ok(s)
		}
		if b := s.bad(); b != "" {
			return "after " + name + ": " + b
		}
		return ""
	}
	for _, o := range hist {
		if b := step(o.name, o); b != "" {
			return s.out.n, b
		}
	}
	n := s.out.n
	// the output works again: the next frame shows, and so does the one after
	s.out.at = nil
	fs := frames()
	for i, f := range []*rnd.Frame{fs[2], fs[0], fs[0]} {
		m := s.out.n
		if s.t.W != f.W || s.t.H != f.H {
			s.t.Resize(f.W, f.H)
		}
		if b := step("a later Render", op{do: func(s *sys) error { return s.r.Render(f.Buffer()) }, ok: func(s *sys) { s.want = f }}); b != "" {
			return n, b
		}
		if i == 2 && s.out.n != m {
			return n, "rendering the unchanged frame again wrote something"
		}
	}
	if b := step("Close", op{do: func(s *sys) error { return s.r.Close() }, ok: func(s *sys) { s.hide = 0 }}); b != "" {
		return n, b
	}
	if s.t.Cur != (vk.Attr{}) {
		return n, "Close leaves a style behind"
	}
	return n, ""
}

func explore(c *vk.C, depth int, buffers, faultKinds []int, two bool) {
	all := ops()
	all = append(all, op{"Close", func(s *sys) error { return s.r.Close() }, func(s *sys) { s.hide = 0 }, func(s *sys) { s.hide = -1; s.want = nil }})
	n := 1
	for range depth {
		n *= len(all)
	}
	done := c.Parallel(n, func(i int) {
		var hist []op
		var names []string
		for k, x := 0, i; k < depth; k++ {
			hist = append(hist, all[x%len(all)])
			names = append(names, hist[k].name)
			x /= len(all)
		}
		fail := func(buffer, kind int, at []int, bad string) {
			c.Fail("fault", fmt.Sprintf("%s; output buffer %d, %s at byte %v of %s", bad, buffer, kinds[kind], at, strings.Join(names, " ; ")), map[string]any{"history": names, "at": at, "buffer": buffer})
		}
		for _, buffer := range buffers {
			for _, kind := range faultKinds {
				size, bad := run(hist, buffer, kind, nil)
				if bad != "" {
					fail(buffer, kind, nil, bad)
					return
				}
				forever := make([]int, 64)
				for at := range size {
					c.States.Add(1)
					c.Transitions.Add(int64(depth + 4))
					c.Evals.Add(1)
					c.Traces.Add(1)
					c.Nontrivial.Add(1)
					size2, bad := run(hist, buffer, kind, []int{at})
					if bad != "" {
						fail(buffer, kind, []int{at}, bad)
						return
					}
					// every write from here on fails
					for i := range forever {
						forever[i] = at
					}
					c.States.Add(1)
					c.Transitions.Add(int64(depth + 4))
					c.Evals.Add(1)
					c.Traces.Add(1)
					if _, bad := run(hist, buffer, kind, forever); bad != "" {
						fail(buffer, kind, []int{at, -1}, bad)
						return
					}
					if !two {
						continue
					}
					for at2 := at; at2 < size2; at2++ {
						c.States.Add(1)
						c.Transitions.Add(int64(depth + 4))
						c.Evals.Add(1)
						c.Traces.Add(1)
						if _, bad := run(hist, buffer, kind, []int{at, at2}); bad != "" {
							fail(buffer, kind, []int{at, at2}, bad)
							return
						}
					}
				}
			}
		}
	})
	faults := "one lasting or passing fault"
	if two {
		faults = "up to two faults or a lasting one"
	}
	c.Part("all histories of %d operations with %s at every byte, output buffers %v", depth, faults, buffers)
	if done < n {
		c.Partial("histories of %d", depth)
	}
	c.Outcome(fmt.Sprint(depth, faults))
}

// large: frames that fill a screen, with faults all over their output, and at
// every byte around the sizes that buffers like to have.
func large(c *vk.C) {
	red := rnd.Mk([]uint8{255, 0, 0}, nil, true, false, false, false)
	blue := rnd.Mk(nil, []uint8{0, 0, 255}, false, false, true, false)
	mk := func(w, h, k int) *rnd.Frame {
		f := &rnd.Frame{W: w, H: h}
		for y := 0; y < h; y++ {
			var row []rnd.Ch
			for x := 0; x < w; {
				g := ch(string(rune('a'+(x+y*k)%26)), []rnd.Sty{rnd.None, red, blue}[(x/(3+k)+y)%3])
				if (x+y)%(5+k) == 0 && x+2 <= w {
					g = rnd.Ch{S: "世", W: 2, St: g.St}
				}
				row = append(row, g)
				x += g.W
			}
			f.Rows = append(f.Rows, row)
		}
		return f
	}
	show := func(name string, f *rnd.Frame) op {
		return op{"Render(" + name + ")", func(s *sys) error {
			if s.t.W != f.W || s.t.H != f.H {
				s.t.Resize(f.W, f.H)
				s.want = nil
			}
			return s.r.Render(f.Buffer())
		}, func(s *sys) { s.want = f }, func(s *sys) { s.want = nil }}
	}
	for _, z := range [][2]int{{80, 24}, {132, 50}, {10, 101}} {
		hist := []op{show("one", mk(z[0], z[1], 1)), show("another", mk(z[0], z[1], 2)), show("one again", mk(z[0], z[1], 1))}
		for _, buffer := range []int{0, 16, 4096} {
			for kind := range kinds {
				size, bad := run(hist, buffer, kind, nil)
				if bad != "" {
					c.Fail("fault", fmt.Sprintf("%s; three frames of %dx%d, output buffer %d, no faults", bad, z[0], z[1], buffer), nil)
					return
				}
				var at []int
				for k := 0; k < 64; k++ {
					at = append(at, size*k/64)
				}
				for p := 256; p < size; p *= 2 {
					at = append(at, p-1, p, p+1)
				}
				c.Parallel(len(at)*2, func(i int) {
					where := []int{at[i/2]}
					for i%2 == 1 && len(where) < 4096 { // from here on
						where = append(where, at[i/2])
					}
					c.States.Add(1)
					c.Transitions.Add(7)
					c.Evals.Add(1)
					c.Traces.Add(1)
					c.Nontrivial.Add(1)
					if _, bad := run(hist, buffer, kind, where); bad != "" {
						c.Fail("fault", fmt.Sprintf("%s; three frames of %dx%d, output buffer %d, %s, %d faults from byte %d", bad, z[0], z[1], buffer, kinds[kind], len(where), at[i/2]), nil)
					}
				})
			}
		}
		c.Part("three frames of %dx%d with a fault at every 64th part and at powers of two", z[0], z[1])
	}
	c.Outcome("large")
}

func main() {
	vk.Main("C12", "model_checking", 0, func(c *vk.C) {
		large(c)
		explore(c, 1, []int{0, 1, 16}, []int{0, 1, 2}, true)
		explore(c, 2, []int{0, 1, 16}, []int{0, 1, 2}, true)
		explore(c, 3, []int{0, 1, 16}, []int{0, 1, 2}, false)
		if c.Thorough() {
			explore(c, 3, []int{16}, []int{0, 2}, true)
			explore(c, 4, []int{0}, []int{0, 2}, false)
		}
		c.Rule("all histories of frames and screen operations up to the stated length, the output failing (with an error after taking part or all of the data, or by taking only part of it) at every byte; after each call its result and the emulated screen are compared with what is known, and afterwards later frames have to show")
		c.Assume("an escape sequence or character that was cut off is abandoned by the terminal when the next escape sequence begins")
	})
}
