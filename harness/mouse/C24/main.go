// C24: every code, modifier and position of the three encodings, and every
// short malformed report, against an independent decoder.
package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/phoenix-tui/phoenix/mouse"
	"github.com/phoenix-tui/phoenix/mouse/internal/infrastructure/parser"
	"github.com/phoenix-tui/phoenix/mouse/zzverif/vk"
)

type ev struct {
	typ    mouse.EventType
	button mouse.Button
	x, y   int
	mods   mouse.Modifiers
	free   bool // the action is not one the package can name: only button, place and modifiers are fixed
}

// decode is the reference: what a report with this code means.
func decode(enc string, code, x, y int, final byte) ev {
	e := ev{x: x - 1, y: y - 1, mods: mouse.NewModifiers(code&4 != 0, code&16 != 0, code&8 != 0), typ: mouse.EventPress}
	switch b := code &^ 28; {
	case b == 64:
		e.typ, e.button = mouse.EventScroll, mouse.ButtonWheelUp
	case b == 65:
		e.typ, e.button = mouse.EventScroll, mouse.ButtonWheelDown
	case b == 32 || b == 33 || b == 34 || b == 35:
		e.typ = mouse.EventMotion // the package names no button for movements
	case b <= 2:
		e.button = []mouse.Button{mouse.ButtonLeft, mouse.ButtonMiddle, mouse.ButtonRight}[b]
		if final == 'm' {
			e.typ = mouse.EventRelease
		}
	case b == 3 && enc != "SGR":
		e.typ = mouse.EventRelease
	default:
		e.free = true
	}
	return e
}

func same(m mouse.MouseEvent, e ev) bool {
	if m.Button() != e.button || m.Position().X() != e.x || m.Position().Y() != e.y || m.Modifiers() != e.mods {
		return false
	}
	return e.free && !m.IsClick() && !m.IsDrag() && !m.IsScroll() || !e.free && m.Type() == e.typ
}

func one(c *vk.C, enc, seq string, e ev) {
	c.Evals.Add(1)
	m := mouse.New()
	var evs []mouse.MouseEvent
	var err error
	if p := vk.Guard(func() { evs, err = m.ParseSequence(seq) }); p != "" {
		c.Fail("panic", fmt.Sprintf("%q: %s", seq, p), seq)
		return
	}
	if err != nil || len(evs) == 0 {
		c.Fail(enc+"/rejected", fmt.Sprintf("%q is well formed but gives %v, %v", seq, evs, err), seq)
		return
	}
	// the report itself comes last; only a click may come before it
	last := evs[len(evs)-1]
	if !same(last, e) {
		key := enc + "/decoded"
		if enc == "URxvt" && e.typ == mouse.EventMotion && !e.free {
			p := e
			p.typ = mouse.EventPress
			if same(last, p) {
				key = "urxvt-motion-is-press"
			}
		}
		c.Fail(key, fmt.Sprintf("%q decodes to %v, should be %+v", seq, last, e), seq)
	}
	for _, x := range evs[:len(evs)-1] {
		if !x.IsClick() || last.Type() != mouse.EventRelease {
			c.Fail(enc+"/extra", fmt.Sprintf("%q also gives %v", seq, x), seq)
		}
	}
}

var (
	reSGR = regexp.MustCompile(`^\x1b?\[?<([0-9]+);([0-9]+);([0-9]+)([Mm])$`)
	reURX = regexp.MustCompile(`^\x1b?\[?([0-9]+);([0-9]+);([0-9]+)M$`)
)

// judge says what any string means: "" if it is no report.
func judge(s string) (string, ev) {
	num := func(m []string) (code, x, y int, ok bool) {
		code, e1 := strconv.Atoi(m[1])
		x, e2 := strconv.Atoi(m[2])
		y, e3 := strconv.Atoi(m[3])
		return code, x, y, e1 == nil && e2 == nil && e3 == nil && x > 0 && y > 0
	}
	if m := reSGR.FindStringSubmatch(s); m != nil {
		if code, x, y, ok := num(m); ok {
			return "SGR", decode("SGR", code, x, y, m[4][0])
		}
		return "", ev{}
	}
	if b, ok := strings.CutPrefix(strings.TrimPrefix(strings.TrimPrefix(s, "\x1b"), "["), "M"); ok && len(b) == 3 {
		if b[0] >= 32 && b[1] > 32 && b[2] > 32 {
			return "X10", decode("X10", int(b[0])-32, int(b[1])-32, int(b[2])-32, 'M')
		}
		return "", ev{}
	}
	if m := reURX.FindStringSubmatch(s); m != nil {
		if code, x, y, ok := num(m); ok {
			return "URxvt", decode("URxvt", code, x, y, 'M')
		}
	}
	return "", ev{}
}

func any1(c *vk.C, s string, deep bool) {
	if enc, e := judge(s); enc != "" {
		one(c, enc, s, e)
		return
	}
	c.Evals.Add(1)
	m := mouse.New()
	before := ""
	if deep {
		m.ParseSequence("\x1b[<0;3;3M")
		before = vk.Dump(m)
	}
	var evs []mouse.MouseEvent
	var err error
	if p := vk.Guard(func() { evs, err = m.ParseSequence(s) }); p != "" {
		c.Fail("panic", fmt.Sprintf("%q: %s", s, p), s)
		return
	}
	if err == nil || len(evs) > 0 {
		c.Fail("malformed", fmt.Sprintf("%q is no mouse report but gives %v, %v", s, evs, err), s)
	}
	if deep && vk.Dump(m) != before {
		c.Fail("malformed-state", fmt.Sprintf("%q is no mouse report but changed the state of the gesture in progress", s), s)
	}
}

func main() {
	vk.Main("C24", "model_checking", 0, func(c *vk.C) {
		c.Rule("every button code 0-255 (which includes every modifier combination) at boundary positions in SGR (press and release) and URxvt, all 2^24 X10 reports, all strings over the protocol alphabet up to the stated length, and templates with every malformed field")
		pos := []int{1, 2, 3, 9, 10, 11, 80, 95, 96, 222, 223, 224, 256, 999, 1000, 9999, 32767, 65535, 65536, 1 << 30, 1<<31 - 1}
		pre := []string{"\x1b[", "[", ""}
		c.Parallel(256, func(code int) {
			for _, x := range pos {
				for _, y := range pos {
					for _, p := range pre {
						one(c, "SGR", fmt.Sprintf("%s<%d;%d;%dM", p, code, x, y), decode("SGR", code, x, y, 'M'))
						one(c, "SGR", fmt.Sprintf("%s<%d;%d;%dm", p, code, x, y), decode("SGR", code, x, y, 'm'))
						one(c, "URxvt", fmt.Sprintf("%s%d;%d;%dM", p, code, x, y), decode("URxvt", code, x, y, 'M'))
					}
				}
			}
		})
		c.Part("256 codes x %d positions x %d prefixes in SGR and URxvt", len(pos)*len(pos), len(pre))
		every := vk.Pick(c, 12000, 140000)
		c.Parallel(every/1000, func(k int) {
			for v := k*1000 + 1; v <= (k+1)*1000; v++ {
				for i, o := range []int{1, v, every - v + 1} {
					code := []int{0, 2, 16, 32, 35, 64, 65, 69}[(v+i)%8]
					for _, p := range [][2]int{{v, o}, {o, v}} {
						one(c, "SGR", fmt.Sprintf("\x1b[<%d;%d;%dM", code, p[0], p[1]), decode("SGR", code, p[0], p[1], 'M'))
						one(c, "URxvt", fmt.Sprintf("\x1b[%d;%d;%dM", code, p[0], p[1]), decode("URxvt", code, p[0], p[1], 'M'))
					}
				}
			}
		})
		c.Part("every coordinate up to %d in SGR and URxvt", every)
		done := c.Parallel(256, func(b0 int) {
			x10 := parser.NewX10Parser()
			for b1 := 0; b1 < 256; b1++ {
				for b2 := 0; b2 < 256; b2++ {
					data := []byte{byte(b0), byte(b1), byte(b2)}
					enc, e := judge("M" + string(data))
					// the decoder itself on all reports; the whole path on the boundary ones
					me, err := x10.Parse(data)
					if (err == nil) != (enc != "") || err == nil && !same(*me, e) {
						c.Fail("X10/decoded", fmt.Sprintf("X10 report %q decodes to %v, %v, should be %+v (well formed: %v)", data, me, err, e, enc != ""), data)
					}
					if b1 < 40 && b2 < 40 || b1 > 250 && b2 > 250 || b1 == 128 || b1 == b2 {
						any1(c, "\x1b[M"+string(data), false)
					}
				}
			}
			c.Evals.Add(65536)
		})
		if done < 256 {
			c.Partial("X10: %d of 256 first bytes", done)
		}
		c.Part("all 16777216 X10 reports through the decoder, boundary ones through ParseSequence")
		// all short strings
		alpha := []byte{0x1b, '[', '<', 'M', 'm', ';', '0', '1', '9', '-', '+', ' '}
		n := vk.Pick(c, 6, 7)
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		for l := 0; l <= 4; l++ {
			k := 1
			for i := 0; i < l; i++ {
				k *= len(alpha)
			}
			for id := 0; id < k; id++ {
				any1(c, word(alpha, id, l), true)
			}
		}
		const blk = 4096
		nb := (total + blk - 1) / blk
		done = c.Parallel(nb, func(b int) {
			for id := b * blk; id < min(total, (b+1)*blk); id++ {
				w := word(alpha, id, n)
				any1(c, w, false)
				any1(c, w[1:], false)
				any1(c, "\x1b[<"+w, false)
			}
		})
		if done < nb {
			c.Partial("short strings: %d of %d blocks", done, nb)
		}
		c.Part("all strings of %d bytes over %d, bare and after ESC[<", n, len(alpha))
		// templates
		fields := []string{"", "0", "1", "2", "-1", "+1", "01", "1 ", " 1", "a", "1a", "1.0", "0x1", "1e3", "99999999999999999999", "9223372036854775807", "9223372036854775808", "٣", "\x00", "32", "65", "128", "300"}
		pres := []string{"\x1b[<", "[<", "<", "\x1b<", "<<", "\x1b[<<", "\x1b\x1b[<", "\x1b[[<", "\x1b[", "[", "", "\x1b", "\x1bO", "\x1b[?", "\x1b[M", "M"}
		sufs := []string{"M", "m", "", "MM", "mm", "Mm", "mM", "x", " M", "M ", "M\x1b", ";M", "R"}
		c.Parallel(len(fields), func(i int) {
			for _, f2 := range fields {
				for _, f3 := range fields {
					for _, p := range pres {
						for _, s := range sufs {
							any1(c, p+fields[i]+";"+f2+";"+f3+s, i == 1)
						}
						any1(c, p+fields[i]+";"+f2+";"+f3+";1M", false)
						any1(c, p+fields[i]+";"+f2+"M", false)
					}
				}
			}
		})
		c.Part("%d field values in each place x %d prefixes x %d endings", len(fields), len(pres), len(sufs))
		// what the package formats decodes back
		sgr, urx, x10 := parser.NewSGRParser(), parser.NewURxvtParser(), parser.NewX10Parser()
		for b := mouse.ButtonNone; b <= mouse.ButtonWheelDown; b++ {
			for k := 0; k < 8; k++ {
				mods := mouse.NewModifiers(k&1 != 0, k&2 != 0, k&4 != 0)
				for _, x := range []int{0, 1, 9, 94, 221, 222} {
					for _, y := range []int{0, 7, 222} {
						for _, typ := range []mouse.EventType{mouse.EventPress, mouse.EventRelease} {
							want := ev{typ: typ, button: b, x: x, y: y, mods: mods}
							switch {
							case b == mouse.ButtonNone:
								want.typ = mouse.EventMotion
							case b >= mouse.ButtonWheelUp:
								want.typ = mouse.EventScroll
							}
							e := mouse.NewMouseEvent(typ, b, mouse.NewPosition(x, y), mods)
							one(c, "SGR", sgr.FormatSequence(e, typ == mouse.EventPress), want)
							if typ == mouse.EventPress {
								one(c, "X10", x10.FormatSequence(e), want)
								one(c, "URxvt", urx.FormatSequence(e), want)
							}
						}
					}
				}
			}
		}
		c.Part("every button, modifier and boundary position formatted and decoded again")
		c.States.Store(c.Evals.Load())
		c.Transitions.Store(c.Evals.Load())
		c.Traces.Store(c.Evals.Load())
		c.Sample("\x1b[<0;1;1M")
	})
}

func word(alpha []byte, id, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[id%len(alpha)]
		id /= len(alpha)
	}
	return string(b)
}
