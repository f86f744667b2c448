// C08: everything the inline renderer writes is executed by a terminal
// emulator; after every step the emulator must show the prior content followed
// by the clipped last view, and nothing else.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/phoenix-tui/phoenix/tea/internal/infrastructure/renderer"
	"github.com/phoenix-tui/phoenix/tea/zzverif/vk"
)

// cl is one cluster of a line: what the emulator must put in a cell.
type cl struct {
	s string
	w int
	a vk.Attr
}

type line struct {
	raw string
	cls []cl
}

type tok struct {
	raw string
	s   string
	w   int
	a   vk.Attr
}

func mk(ts ...tok) line {
	var l line
	for _, t := range ts {
		l.raw += t.raw
		for _, r := range t.s {
			w := vk.RuneWidth(r)
			if w == 0 && len(l.cls) > 0 {
				l.cls[len(l.cls)-1].s += string(r)
				continue
			}
			l.cls = append(l.cls, cl{string(r), w, t.a})
		}
	}
	return l
}

func plain(s string) tok { return tok{raw: s, s: s} }

var (
	red  = vk.Attr{FG: "1"}
	bold = vk.Attr{Bold: true}
)

func styled(pre, s string, a vk.Attr) tok { return tok{raw: pre + s + "\x1b[0m", s: s, a: a} }

// row lays a line out in w columns: the clusters that fit, in order.
func row(l line, w, clip int) []vk.Cell {
	out := make([]vk.Cell, 0, w)
	used := 0
	for _, c := range l.cls {
		if clip > 0 && used+c.w > clip {
			break
		}
		used += c.w
		out = append(out, vk.Cell{S: c.s, W: c.w, A: c.a})
		if c.w == 2 {
			out = append(out, vk.Cell{A: c.a})
		}
	}
	for len(out) < w {
		out = append(out, vk.Cell{S: " ", W: 1})
	}
	return out
}

// sink is the terminal; it can be told to fail the next write.
type sink struct {
	t    *vk.Term
	fail bool
}

var errSink = errors.New("sink failed")

func (s *sink) Write(p []byte) (int, error) {
	if s.fail {
		s.fail = false
		return 0, errSink
	}
	return s.t.Write(p)
}

type view struct {
	name  string
	lines []line
}

func (v view) raw() string {
	var p []string
	for _, l := range v.lines {
		p = append(p, l.raw)
	}
	return strings.Join(p, "\n")
}

func mkview(ls ...line) view {
	v := view{lines: ls}
	v.name = fmt.Sprintf("render %q", v.raw())
	return v
}

// sys is the renderer, the terminal and what the terminal must show.
type sys struct {
	r     *renderer.InlineRenderer
	s     *sink
	prior [][]vk.Cell // rows above the program's area
	shown [][]vk.Cell // rows of the program's area
	w, h  int         // size the renderer was told
	last  view
	drawn bool
	dirty bool // the next render must bring the screen up to date
}

const emuW, emuH = 4, 5

func newSys(prior int, known bool) *sys {
	t := vk.NewTerm(emuW, emuH)
	t.LFOnly = true
	s := &sys{s: &sink{t: t}}
	for i := 0; i < prior; i++ {
		l := mk(plain(fmt.Sprintf("p%d", i)))
		t.WriteString(l.raw + "\r\n")
		s.prior = append(s.prior, row(l, emuW, 0))
	}
	if known {
		s.w, s.h = emuW, emuH
	}
	s.r = renderer.NewInlineRenderer(s.s, s.w, s.h)
	return s
}

type op struct {
	name string
	do   func(s *sys) string
}

func (s *sys) expect(v view) {
	ls := v.lines
	if s.h > 0 && len(ls) > s.h {
		ls = ls[len(ls)-s.h:]
	}
	s.shown = nil
	for _, l := range ls {
		s.shown = append(s.shown, row(l, s.s.t.W, s.w))
	}
	s.last, s.drawn = v, true
}

func render(v view) op {
	return op{v.name, func(s *sys) string {
		if err := s.r.Render(v.raw()); err != nil {
			return "Render failed: " + err.Error()
		}
		s.expect(v)
		return ""
	}}
}

func renderFail(v view) op {
	return op{v.name + " while the terminal fails", func(s *sys) string {
		s.s.fail = true
		err := s.r.Render(v.raw())
		if s.s.fail { // nothing was written: only right if the view is already shown
			s.s.fail = false
			if err != nil {
				return "Render failed without writing: " + err.Error()
			}
			s.expect(v)
			return ""
		}
		if !errors.Is(err, errSink) {
			return fmt.Sprintf("a failed write was reported as %v", err)
		}
		return ""
	}}
}

func resize(w, h int) op {
	return op{fmt.Sprintf("resize %dx%d", w, h), func(s *sys) string {
		s.r.Resize(w, h)
		s.w, s.h = w, h
		return ""
	}}
}

var repaint = op{"repaint", func(s *sys) string { s.r.Repaint(); return "" }}

// the output moves to another terminal with its own content (as after the
// program was given a new output); the old one must not change any more
var setOutput = op{"set output", func(s *sys) string {
	t := vk.NewTerm(emuW, emuH)
	t.LFOnly = true
	l := mk(plain("new"))
	t.WriteString(l.raw + "\r\n")
	s.s = &sink{t: t}
	s.prior, s.shown = [][]vk.Cell{row(l, emuW, 0)}, nil
	s.r.SetOutput(s.s)
	return ""
}}

func showRows(rows [][]vk.Cell) string {
	var p []string
	for _, r := range rows {
		s := ""
		for _, c := range r {
			s += c.S
			if c.A != (vk.Attr{}) {
				s += "{" + c.A.String() + "}"
			}
		}
		p = append(p, strings.TrimRight(s, " "))
	}
	return fmt.Sprintf("%q", p)
}

func (s *sys) check() string {
	t := s.s.t
	if t.InEscape() || len(t.Unknown) > 0 {
		return fmt.Sprintf("the terminal did not understand the output: %v", t.Unknown)
	}
	var got [][]vk.Cell
	got = append(got, t.Scrollback...)
	got = append(got, t.Cells...)
	want := append(append([][]vk.Cell(nil), s.prior...), s.shown...)
	for len(want) < len(got) {
		want = append(want, row(line{}, t.W, 0))
	}
	bad := len(want) != len(got)
	for y := 0; !bad && y < len(got); y++ {
		for x := range got[y] {
			if got[y][x] != want[y][x] {
				bad = true
			}
		}
	}
	if bad {
		return fmt.Sprintf("the terminal shows %s, should show %s", showRows(got), showRows(want))
	}
	if t.Cur != (vk.Attr{}) {
		return "a style is left on: " + t.Cur.String()
	}
	if s.shown != nil {
		if y := len(t.Scrollback) + t.Y; t.X != 0 || y != len(s.prior)+len(s.shown)-1 {
			return fmt.Sprintf("the cursor is at column %d of line %d, should be at the start of the last line %d of the view", t.X, y, len(s.prior)+len(s.shown)-1)
		}
	}
	return ""
}

// all explores every sequence of exactly n operations, from every start.
func all(c *vk.C, label string, ops []op, n int, priors []int) {
	var seqs int64 = 1
	for i := 0; i < n; i++ {
		seqs *= int64(len(ops))
	}
	type start struct {
		prior int
		known bool
	}
	var starts []start
	for _, p := range priors {
		starts = append(starts, start{p, true}, start{p, false})
	}
	const chunk = 512
	nch := int((seqs + chunk - 1) / chunk)
	done := c.Parallel(nch, func(ci int) {
		var tr, st int64
		for id := int64(ci) * chunk; id < min(seqs, int64(ci+1)*chunk); id++ {
			for _, sta := range starts {
				s := newSys(sta.prior, sta.known)
				var names []string
				x := id
				for k := 0; k < n; k++ {
					o := ops[x%int64(len(ops))]
					x /= int64(len(ops))
					names = append(names, o.name)
					bad, key := "", "shows"
					if p := vk.Guard(func() { bad = o.do(s) }); p != "" {
						bad, key = p, "panic"
					}
					if bad == "" {
						bad = s.check()
					} else if key != "panic" {
						key = "error"
					}
					tr++
					if bad != "" {
						c.Fail(label+"/"+key, fmt.Sprintf("%s; %d lines above, size known %v: %s", bad, sta.prior, sta.known, strings.Join(names, " ; ")), names)
						break
					}
				}
				st++
			}
		}
		c.Transitions.Add(tr)
		c.States.Add(tr)
		c.Traces.Add(st)
		c.Evals.Add(tr)
	})
	if done < nch {
		c.Partial("%s: %d of %d blocks of sequences", label, done, nch)
	}
	c.Part("%s: %d operations, all %d sequences of %d, from %d starts", label, len(ops), seqs, n, len(starts))
}

// sizes renders views of every number of lines on terminals of many sizes,
// with one line changed, lines added and removed, and a size change in between.
func sizes(c *vk.C) {
	ws := []int{1, 2, 3, 9, 10, 16, 33, 79, 80, 120, 200}
	hs := []int{1, 2, 3, 4, 6, 9, 10, 11, 16, 24, 40, 61}
	text := func(n, w, salt int) line {
		want := (n*7 + salt*5 + 3) % (w + 4)
		if n%4 == 3 {
			want = w
		}
		s := ""
		for i := 0; i < want; {
			if n%3 == 1 && i+2 <= want && i%5 != 0 {
				s += "中"
				i += 2
			} else {
				s += string(rune('a' + (n+i+salt)%26))
				i++
			}
		}
		if n%5 == 2 {
			return mk(plain("x"), styled("\x1b[31m", s, red))
		}
		return mk(plain(s))
	}
	type cs struct{ w, h int }
	var cases []cs
	for _, w := range ws {
		for _, h := range hs {
			if c.Thorough() || w*h <= 8000 {
				cases = append(cases, cs{w, h})
			}
		}
	}
	done := c.Parallel(len(cases), func(i int) {
		w, h := cases[i].w, cases[i].h
		numbered := func(n, salt int) view {
			v := view{name: fmt.Sprintf("%d lines (%d)", n, salt)}
			for k := 0; k < n; k++ {
				v.lines = append(v.lines, text(k, w, salt))
			}
			if n == 0 {
				v.lines = []line{{}}
			}
			return v
		}
		for n := 0; n <= h+3; n++ {
			var steps []op
			a := numbered(n, 0)
			steps = append(steps, render(a))
			for _, k := range []int{0, n / 2, n - 1, n - 2, h - 1, 9} {
				if k >= 0 && k < n {
					b := view{name: fmt.Sprintf("line %d of %d changed", k, n), lines: append([]line(nil), a.lines...)}
					b.lines[k] = text(k, w, 1)
					steps = append(steps, render(b), render(a))
				}
			}
			for _, m := range []int{n + 1, n - 1, 1, h, h + 1, n + h, 2} {
				if m >= 0 {
					steps = append(steps, render(numbered(m, 0)), render(a))
				}
			}
			steps = append(steps, resize(max(1, w-1), h), render(a), resize(w, max(1, h/2)), render(a), resize(w, h), render(a), render(numbered(n, 2)))
			t := vk.NewTerm(w, h)
			t.LFOnly = true
			s := &sys{s: &sink{t: t}, w: w, h: h}
			s.r = renderer.NewInlineRenderer(s.s, w, h)
			p := mk(plain("p"))
			t.WriteString(p.raw + "\r\n")
			s.prior = append(s.prior, row(p, w, 0))
			for j, o := range steps {
				bad := o.do(s)
				c.Evals.Add(1)
				c.Transitions.Add(1)
				if !strings.HasPrefix(o.name, "resize") && bad == "" {
					bad = s.check()
				}
				if bad != "" {
					c.Fail("sizes", fmt.Sprintf("%dx%d terminal, view of %d lines, step %d (%s): %.300s", w, h, n, j, o.name, bad), []int{w, h, n, j})
					return
				}
			}
			c.States.Add(1)
			c.Traces.Add(1)
		}
	})
	if done < len(cases) {
		c.Partial("sizes: %d of %d", done, len(cases))
	}
	c.Part("sizes: %d terminal sizes up to 200x61, views of 0 to height+3 lines, one line changed, other numbers of lines and other sizes in between", len(cases))
}

func main() {
	vk.Main("C08", "model_checking", 0, func(c *vk.C) {
		c.Rule("every sequence of frames, resizes, clears and printed lines up to the stated length over the listed views, executed on the real renderer and shown on an emulated terminal whose screen and scrollback are compared with the view after every step; all short lines of the token alphabet; one case per sequence or line")
		c.Bounds = fmt.Sprintf("emulated terminal of %dx%d; views of up to 7 lines; sequences as listed under parts", emuW, emuH)
		c.Assume("the terminal keeps its size (the renderer's size changes within it); views contain printable text, closed styles and line feeds; with unknown size the lines fit the terminal")
		L := map[string]line{
			"":      mk(),
			"a":     mk(plain("a")),
			"bc":    mk(plain("bc")),
			"full":  mk(plain("wxyz")),
			"over":  mk(plain("abcdef")),
			"wide":  mk(plain("中b")),
			"fit":   mk(plain("ab中c")),
			"cut":   mk(plain("abc中d")),
			"red":   mk(styled("\x1b[31m", "ab", red)),
			"redx":  mk(plain("x"), styled("\x1b[31m", "abcdef", red), plain("z")),
			"bold":  mk(styled("\x1b[1m", "a", bold), plain("b"), styled("\x1b[31m", "cd", red)),
			"comb":  mk(plain("e\u0301xy")),
			"emo":   mk(plain("ab✅")),
			"full2": mk(plain("wxy"), styled("\x1b[31m", "z", red)),
		}
		fits := func(l line) bool { // may be used while the size is unknown
			w := 0
			for _, x := range l.cls {
				w += x.w
			}
			return w <= emuW
		}
		// with the size unknown only lines that fit are in scope: such cases are skipped
		guard := func(o op, v view) op {
			do := o.do
			return op{o.name, func(s *sys) string {
				if s.w == 0 {
					for _, l := range v.lines {
						if !fits(l) {
							return ""
						}
					}
				}
				if s.h == 0 && len(v.lines) > emuH {
					return ""
				}
				return do(s)
			}}
		}
		rv := func(v view) op { return guard(render(v), v) }
		rf := func(v view) op { return guard(renderFail(v), v) }
		names := []string{"", "a", "bc", "full", "over", "wide", "fit", "cut", "red", "redx", "bold", "comb", "emo", "full2"}
		var views []view
		for _, a := range names {
			views = append(views, mkview(L[a]))
			for _, b := range names {
				views = append(views, mkview(L[a], L[b]))
			}
		}
		few := []string{"", "a", "full"}
		for _, a := range few {
			for _, b := range few {
				for _, d := range few {
					views = append(views, mkview(L[a], L[b], L[d]))
				}
			}
		}
		num := func(n int, ls ...string) view {
			v := view{}
			for i := 0; i < n; i++ {
				v.lines = append(v.lines, L[ls[i%len(ls)]])
			}
			v.name = fmt.Sprintf("render %q", v.raw())
			return v
		}
		seven := view{}
		for i := 0; i < 7; i++ {
			seven.lines = append(seven.lines, mk(plain(fmt.Sprintf("L%d", i))))
		}
		seven.name = fmt.Sprintf("render %q", seven.raw())
		five := view{lines: seven.lines[1:6]}
		five.name = fmt.Sprintf("render %q", five.raw())
		views = append(views, num(4, "a", ""), num(4, "", "bc"), num(5, "full", "a"), num(5, ""), num(6, "a", "bc"), seven, five)
		var ops []op
		for _, v := range views {
			ops = append(ops, rv(v))
		}
		all(c, "pairs of views", ops, 2, []int{0, 2, 4, 7})

		mid := []view{mkview(L[""]), mkview(L["a"]), mkview(L["over"]), mkview(L["cut"]), mkview(L["a"], L["full"]), mkview(L["full"], L["a"]), mkview(L[""], L[""]),
			mkview(L["red"], L["a"]), mkview(L["redx"], L["redx"]), mkview(L["wide"], L["red"]), mkview(L["a"], L["full"], L["a"]), mkview(L["a"], L["bc"], L["a"]), mkview(L["a"], L[""], L["bold"]),
			num(4, "full", "a"), five, seven}
		ops = nil
		for _, v := range mid {
			ops = append(ops, rv(v))
		}
		ops = append(ops, repaint, setOutput, resize(3, 2), resize(4, 5), resize(0, 0), resize(2, 0), resize(0, 3), resize(4, 1), rf(mid[1]), rf(mid[13]))
		all(c, "views, sizes, failures", ops, vk.Pick(c, 3, 4), []int{0, 2, 7})
		small := append([]op{rv(mid[0]), rv(mid[1]), rv(mid[3]), rv(mid[5]), rv(mid[8]), rv(mid[11]), rv(five), rv(seven)}, repaint, resize(3, 2), resize(4, 5), rf(mid[11]))
		all(c, "longer histories", small, vk.Pick(c, 5, 6), []int{0, 2})

		sizes(c)

		// every line made of a few tokens, at every width
		toks := []tok{plain("a"), plain("中"), plain("\u0301"), plain("✅"), styled("\x1b[31m", "b", red), styled("\x1b[1m", "中", bold), {raw: "\x1b[0m"}, {raw: "\x1b]8;;u\x1b\\"}, {raw: "\x1b]8;;u\x07"}, {raw: "\x1b=", s: ""}}
		depth := vk.Pick(c, 5, 6)
		n := 1
		for i := 0; i < depth; i++ {
			n *= len(toks)
		}
		const blk = 500
		done := c.Parallel((n+blk-1)/blk, func(ci int) {
			for id := ci * blk; id < min(n, (ci+1)*blk); id++ {
				var ts []tok
				x := id
				for k := 0; k < depth; k++ {
					t := toks[x%len(toks)]
					x /= len(toks)
					ts = append(ts, t)
				}
				if ts[0].s == "\u0301" { // a combining mark needs a base
					continue
				}
				l := mk(ts...)
				ok := true
				for _, q := range l.cls {
					if q.w == 0 {
						ok = false
					}
				}
				if !ok {
					continue
				}
				for w := 1; w <= 6; w++ {
					t := vk.NewTerm(8, 2)
					t.LFOnly = true
					s := &sys{s: &sink{t: t}, w: w, h: 2}
					s.r = renderer.NewInlineRenderer(s.s, w, 2)
					v := mkview(l)
					bad := render(v).do(s)
					if bad == "" {
						bad = s.check()
					}
					if bad != "" {
						c.Fail("truncation", fmt.Sprintf("%s: %s at width %d", bad, v.name, w), v.raw())
					}
				}
			}
			c.Evals.Add(blk * 6)
			c.States.Add(blk * 6)
			c.Traces.Add(blk * 6)
			c.Transitions.Add(blk * 6)
		})
		if done < (n+blk-1)/blk {
			c.Partial("truncation: %d of %d blocks", done, (n+blk-1)/blk)
		}
		c.Part("truncation: all lines of %d tokens out of %d, widths 1 to 6", depth, len(toks))

		// whatever the view holds, broken sequences and bytes included, drawing returns
		bytesOf := []string{"a", "\x1b", "[", "]", "\\", "m", "\a", "\xe4\xb8\xad", "\xe4", "\xff", "\x00", "\t", "\n"}
		bd := vk.Pick(c, 5, 6)
		n = 1
		for i := 0; i < bd; i++ {
			n *= len(bytesOf)
		}
		const bblk = 2000
		done = c.Parallel((n+bblk-1)/bblk, func(ci int) {
			for id := ci * bblk; id < min(n, (ci+1)*bblk); id++ {
				var v string
				x := id
				for k := 0; k < bd; k++ {
					v += bytesOf[x%len(bytesOf)]
					x /= len(bytesOf)
				}
				for w := 0; w <= 2; w++ {
					var err error
					if p := vk.Guard(func() { err = renderer.NewInlineRenderer(io.Discard, w, 2).Render(v) }); p != "" || err != nil {
						c.Fail("broken views", fmt.Sprintf("drawing %q at width %d: %s %v", v, w, p, err), v)
					}
				}
			}
			c.Evals.Add(bblk * 3)
			c.States.Add(bblk)
			c.Traces.Add(bblk)
			c.Transitions.Add(bblk * 3)
		})
		if done < (n+bblk-1)/bblk {
			c.Partial("broken views: %d of %d blocks", done, (n+bblk-1)/bblk)
		}
		c.Part("broken views: all %d views of %d pieces, unfinished sequences and invalid text among them, at three widths: drawing returns", n, bd)

		// every character whose width is beyond dispute
		skip := [][2]rune{{0x302a, 0x302d}, {0x3099, 0x309a}, {0x3248, 0x324f}, {0x1171e, 0x1171e}, {0x16fe4, 0x16fe4}, {0xd7b0, 0xd7ff}, {0x303f, 0x303f}, {0x4dc0, 0x4dff}, {0x1f004, 0x1f0cf}, {0x1f300, 0x1f9ff}, {0xfe00, 0xfe6f}}
		var runes []rune
		for r := rune(0x20); r < 0x31000; r++ {
			if r == 0x7f || vk.InRanges(vk.NotGraphic, r) || vk.InRanges(vk.EAWAmbiguous, r) {
				continue
			}
			out := false
			for _, s := range skip {
				out = out || (r >= s[0] && r <= s[1] && vk.RuneWidth(r) != 2)
			}
			if out || (r >= 0x1f3fb && r <= 0x1f3ff) {
				continue
			}
			runes = append(runes, r)
		}
		var nr int
		done = c.Parallel((len(runes)+blk-1)/blk, func(ci int) {
			for _, r := range runes[ci*blk : min(len(runes), (ci+1)*blk)] {
				for w := 2; w <= 4; w++ {
					for _, l := range []line{mk(plain("a" + string(r) + "b")), mk(plain("ab" + string(r) + string(r)))} {
						t := vk.NewTerm(w, 2)
						t.LFOnly = true
						s := &sys{s: &sink{t: t}, w: w, h: 2}
						s.r = renderer.NewInlineRenderer(s.s, w, 2)
						v := mkview(l)
						bad := render(v).do(s)
						if bad == "" {
							bad = s.check()
						}
						if bad != "" {
							c.Fail("character width", fmt.Sprintf("%s: U+%04X, %s at width %d", bad, r, v.name, w), v.raw())
						}
					}
				}
			}
			c.Evals.Add(blk * 6)
			c.States.Add(blk * 6)
			c.Traces.Add(blk * 6)
			c.Transitions.Add(blk * 6)
		})
		nr = len(runes)
		c.Part("characters: all %d graphic characters of undisputed width, in two lines at three widths", nr)
		_ = done
		c.Sample(map[string]any{"views": len(views), "example": seven.name})
	})
}
