// C26: all pointer paths up to a length over small arrangements of areas, and
// all cursor, menu and screen sizes up to a bound.
package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/phoenix-tui/phoenix/mouse"
	"github.com/phoenix-tui/phoenix/mouse/internal/domain/service"
	"github.com/phoenix-tui/phoenix/mouse/zzverif/vk"
)

type box struct{ x, y, w, h int }

func (b box) has(x, y int) bool {
	return in(b.x, b.w, x) && in(b.y, b.h, y)
}

// in: is p one of n cells from s on (computed without limits)?
func in(s, n, p int) bool {
	return n > 0 && s <= p && big.NewInt(0).Sub(big.NewInt(int64(p)), big.NewInt(int64(s))).Cmp(big.NewInt(int64(n))) < 0
}

type arrangement struct {
	name  string
	areas []mouse.ComponentArea
	boxes []box
	ids   []string
}

func (a arrangement) at(x, y int) string {
	for i, b := range a.boxes {
		if b.has(x, y) {
			return a.ids[i]
		}
	}
	return ""
}

func mk(ids []string, bs []box) arrangement {
	a := arrangement{boxes: bs, ids: ids, name: fmt.Sprint(ids, bs)}
	for i, b := range bs {
		a.areas = append(a.areas, mouse.ComponentArea{ID: ids[i], Area: mouse.NewBoundingBox(b.x, b.y, b.w, b.h)})
	}
	return a
}

// step is the reference: what is reported when the pointer goes to a place.
func step(cur, next string) (mouse.EventType, string) {
	switch {
	case next == "" && cur == "":
		return mouse.EventMotion, ""
	case next == "":
		return mouse.EventHoverLeave, ""
	case next == cur:
		return mouse.EventHoverMove, next
	}
	return mouse.EventHoverEnter, next
}

func main() {
	vk.Main("C26", "model_checking", 0, func(c *vk.C) {
		c.Rule("all pointer paths of the stated length over all arrangements of up to three areas from a list of boxes (adjacent, overlapping, nested, empty, negative), areas changing on the way, resets; all cursors, menu sizes and screens up to a bound")
		boxes := []box{{0, 0, 2, 2}, {2, 0, 1, 2}, {1, 1, 2, 2}, {0, 0, 3, 3}, {-1, -1, 2, 1}, {1, 0, 0, 2}, {1, 2, 2, -1}, {2, 2, 1, 1}}
		var arr []arrangement
		arr = append(arr, mk(nil, nil))
		for _, a := range boxes {
			arr = append(arr, mk([]string{"a"}, []box{a}))
			for _, b := range boxes {
				arr = append(arr, mk([]string{"a", "b"}, []box{a, b}))
			}
		}
		for i, a := range boxes {
			b, d := boxes[(i+1)%len(boxes)], boxes[(i+3)%len(boxes)]
			arr = append(arr, mk([]string{"a", "b", "c"}, []box{a, b, d}), mk([]string{"a", "b", "a"}, []box{a, b, d}))
		}
		type pt struct{ x, y int }
		var pts []pt
		for x := -1; x <= 3; x++ {
			for y := -1; y <= 3; y++ {
				pts = append(pts, pt{x, y})
			}
		}
		check := func(m *mouse.Mouse, cur *string, a arrangement, p pt, name func() any) bool {
			want, next := step(*cur, a.at(p.x, p.y))
			got := m.ProcessHover(mouse.NewPosition(p.x, p.y), a.areas)
			*cur = next
			if got != want || m.IsHovering() != (next != "") || m.CurrentHoverComponent() != next {
				c.Fail("hover", fmt.Sprintf("%v reported (hovering %v over %q), should be %v over %q: %v", got, m.IsHovering(), m.CurrentHoverComponent(), want, next, name()), nil)
				return false
			}
			return true
		}
		depth := 3
		n := len(pts) * len(pts) * len(pts)
		c.Parallel(len(arr), func(i int) {
			a := arr[i]
			for id := 0; id < n; id++ {
				m := mouse.New()
				cur := ""
				x := id
				for k := 0; k < depth; k++ {
					p := pts[x%len(pts)]
					x /= len(pts)
					if !check(m, &cur, a, p, func() any { return fmt.Sprintf("step %d of path %d among %s", k, id, a.name) }) {
						break
					}
				}
				m.Reset()
				if m.IsHovering() || m.CurrentHoverComponent() != "" {
					c.Fail("reset", "still hovering after Reset", nil)
				}
			}
			c.Evals.Add(int64(n * depth))
		})
		c.Part("%d arrangements, all %d paths of %d steps over %d places", len(arr), n, depth, len(pts))
		// areas that change while the pointer moves or rests, and resets in between
		few := []pt{{0, 0}, {2, 1}, {1, 1}, {3, 3}}
		c.Parallel(len(arr), func(i int) {
			for j := range arr {
				for id := 0; id < 64; id++ {
					for rst := 0; rst < 3; rst++ {
						m := mouse.New()
						cur := ""
						as := []arrangement{arr[i], arr[j], arr[i]}
						for k := 0; k < 3; k++ {
							if rst == k && k > 0 {
								m.Reset()
								cur = ""
							}
							if !check(m, &cur, as[k], few[(id>>(2*k))&3], func() any {
								return fmt.Sprintf("places %v, areas %s then %s, reset at %d", id, arr[i].name, arr[j].name, rst)
							}) {
								break
							}
						}
					}
				}
			}
			c.Evals.Add(int64(len(arr) * 64 * 9))
		})
		c.Part("areas changing between steps: all pairs of arrangements, %d places, three steps", len(few))
		// bounding boxes are sets of cells
		lim := []int{-2, -1, 0, 1, 2, 3}
		sz := []int{-1, 0, 1, 2, 3}
		var bs []box
		for _, x := range lim {
			for _, y := range lim {
				for _, w := range sz {
					for _, h := range sz {
						bs = append(bs, box{x, y, w, h})
					}
				}
			}
		}
		c.Parallel(len(bs), func(i int) {
			a := bs[i]
			ba := mouse.NewBoundingBox(a.x, a.y, a.w, a.h)
			cells := 0
			for x := -4; x < 8; x++ {
				for y := -4; y < 8; y++ {
					in := a.has(x, y)
					if in {
						cells++
					}
					if ba.Contains(mouse.NewPosition(x, y)) != in {
						c.Fail("box", fmt.Sprintf("%v contains (%d,%d): %v", a, x, y, !in), a)
					}
				}
			}
			if ba.Area() != cells || ba.IsEmpty() != (cells == 0) {
				c.Fail("box", fmt.Sprintf("%v: area %d empty %v, should be %d", a, ba.Area(), ba.IsEmpty(), cells), a)
			}
			for _, b := range bs {
				both := false
				for x := a.x; x < a.x+a.w; x++ {
					for y := a.y; y < a.y+a.h; y++ {
						both = both || b.has(x, y)
					}
				}
				if ba.Overlaps(mouse.NewBoundingBox(b.x, b.y, b.w, b.h)) != both {
					c.Fail("box", fmt.Sprintf("%v overlaps %v: %v", a, b, !both), a)
				}
			}
			c.Evals.Add(int64(len(bs)))
		})
		c.Part("%d boxes as sets of cells", len(bs))
		// boxes of every size up to a screen, and far from the corner: every cell on and next to the edge
		edge := []int{1, 2, 7, 8, 15, 16, 31, 64, 79, 80, 99, 100, 127, 128, 132, 200, 255, 256, 300, 1000}
		offs := []int{-100, -1, 0, 1, 94, 222, 255, 1000, 32767, 65535, 1 << 20}
		c.Parallel(len(edge), func(i int) {
			w := edge[i]
			for _, h := range edge {
				for _, x := range offs {
					y := offs[(i+h)%len(offs)]
					a := box{x, y, w, h}
					ba := mouse.NewBoundingBox(x, y, w, h)
					if ba.Area() != w*h || ba.IsEmpty() {
						c.Fail("box", fmt.Sprintf("%v: area %d empty %v", a, ba.Area(), ba.IsEmpty()), a)
					}
					for _, px := range []int{x - 1, x, x + 1, x + w/2, x + w - 2, x + w - 1, x + w, x + 2*w} {
						for _, py := range []int{y - 1, y, y + 1, y + h/2, y + h - 2, y + h - 1, y + h, y + 2*h} {
							if ba.Contains(mouse.NewPosition(px, py)) != a.has(px, py) {
								c.Fail("box", fmt.Sprintf("%v contains (%d,%d): %v", a, px, py, !a.has(px, py)), a)
							}
							o := box{px, py, h, w}
							both := px < x+w && x < px+h && py < y+h && y < py+w
							if ba.Overlaps(mouse.NewBoundingBox(px, py, h, w)) != both {
								c.Fail("box", fmt.Sprintf("%v overlaps %v: %v", a, o, !both), a)
							}
						}
					}
					c.Evals.Add(64)
				}
			}
		})
		c.Part("boxes of %dx%d sizes at %d places", len(edge), len(edge), len(offs))
		// screens of many areas: a grid of areas with gaps, some on top of others, and a
		// pointer that visits every place in several orders
		grids := [][4]int{{5, 5, 3, 2}, {10, 10, 8, 3}, {16, 8, 10, 4}, {20, 15, 6, 3}, {4, 64, 20, 1}}
		c.Parallel(len(grids)*4, func(i int) {
			g := grids[i/4]
			var ids []string
			var bx []box
			for r := 0; r < g[1]; r++ {
				for q := 0; q < g[0]; q++ {
					if (q+r*3+i)%11 == 0 {
						continue
					}
					ids = append(ids, fmt.Sprintf("area %d-%d", q, r))
					bx = append(bx, box{q * g[2], r * g[3], g[2] - (q+i)%2, max(1, g[3]-(r+i)%2)})
					if (q+r)%7 == 3 { // a wide one, behind those before it
						ids = append(ids, fmt.Sprintf("bar %d-%d", q, r))
						bx = append(bx, box{q*g[2] - 2, r * g[3], g[2] * 3, g[3]})
					}
				}
			}
			a := mk(ids, bx)
			W, H := g[0]*g[2]+2, g[1]*g[3]+2
			for _, step := range []int{1, W, 7, W + 1, 101} {
				if (W*H)%step == 0 && step != 1 {
					step++
				}
				m := mouse.New()
				cur := ""
				x := 0
				for k := 0; k < W*H; k++ {
					p := pt{x%W - 1, x/W - 1}
					x = (x + step) % (W * H)
					if !check(m, &cur, a, p, func() any { return fmt.Sprintf("%d areas, step %d of a walk by %d places", len(ids), k, step) }) {
						break
					}
					c.Evals.Add(1)
				}
			}
		})
		c.Part("%d screens of up to 300 areas, walks over every place", len(grids)*4)
		// menus
		top := vk.Pick(c, 9, 14)
		mp := service.NewMenuPositioner()
		c.Parallel(top+3, func(i int) {
			sw := i - 2
			m := mouse.New()
			for sh := -2; sh <= top; sh++ {
				for mw := -2; mw <= top+1; mw++ {
					for mh := -2; mh <= top+1; mh++ {
						for cx := -3; cx <= top+3; cx++ {
							for cy := -3; cy <= top+3; cy++ {
								p := m.CalculateMenuPosition(mouse.NewPosition(cx, cy), mw, mh, sw, sh)
								W, H, w, h := max(sw, 0), max(sh, 0), max(mw, 0), max(mh, 0)
								wx, wy := 0, 0
								if w <= W && h <= H {
									wx, wy = max(0, min(cx, W-w)), max(0, min(cy, H-h))
								}
								if p.X() != wx || p.Y() != wy {
									c.Fail("menu", fmt.Sprintf("a %dx%d menu at (%d,%d) on a %dx%d screen is placed at %v, should be at (%d,%d)", mw, mh, cx, cy, sw, sh, p, wx, wy), []int{cx, cy, mw, mh, sw, sh})
								}
								if mw >= 0 && mh >= 0 && sw >= 0 && sh >= 0 {
									r, b := mp.WouldOverflow(mouse.NewPosition(cx, cy), mw, mh, sw, sh)
									if r != (cx+mw > sw) || b != (cy+mh > sh) || mp.FitsOnScreen(mw, mh, sw, sh) != (mw <= sw && mh <= sh) {
										c.Fail("menu-fits", fmt.Sprintf("%dx%d at (%d,%d) on %dx%d: overflow %v %v", mw, mh, cx, cy, sw, sh, r, b), nil)
									}
								}
							}
						}
					}
				}
			}
			c.Evals.Add(int64((top + 3) * (top + 4) * (top + 4) * (top + 7) * (top + 7)))
		})
		// the ends of the range: boxes, pointers, menus, cursors
		ext := []int{math.MinInt, math.MinInt + 1, -(1 << 62), -1, 0, 1, 1 << 31, 1 << 62, math.MaxInt - 1, math.MaxInt}
		var eb []box
		for _, x := range ext {
			for _, w := range ext {
				eb = append(eb, box{x, 0, w, 2}, box{0, x, 2, w}, box{x, x, w, w})
			}
		}
		c.Parallel(len(eb), func(i int) {
			a := eb[i]
			ba := mouse.NewBoundingBox(a.x, a.y, a.w, a.h)
			ar := mk([]string{"a", "b"}, []box{a, eb[(i*7+3)%len(eb)]})
			m, cur := mouse.New(), ""
			for _, x := range ext {
				for _, y := range ext {
					if got := ba.Contains(mouse.NewPosition(x, y)); got != a.has(x, y) {
						c.Fail("box", fmt.Sprintf("%v contains (%d,%d): %v", a, x, y, got), a)
					}
					if !check(m, &cur, ar, pt{x, y}, func() any { return ar.name }) {
						return
					}
				}
			}
			if ba.IsEmpty() != (a.w <= 0 || a.h <= 0) {
				c.Fail("box", fmt.Sprintf("%v: empty %v", a, ba.IsEmpty()), a)
			}
			for _, b := range eb {
				both := a.w > 0 && a.h > 0 && b.w > 0 && b.h > 0 && (in(a.x, a.w, b.x) || in(b.x, b.w, a.x)) && (in(a.y, a.h, b.y) || in(b.y, b.h, a.y))
				if ba.Overlaps(mouse.NewBoundingBox(b.x, b.y, b.w, b.h)) != both {
					c.Fail("box", fmt.Sprintf("%v overlaps %v: %v", a, b, !both), a)
				}
			}
			for _, mw := range ext {
				for _, sw := range ext {
					for _, v := range []int{a.x, a.w} {
						p := m.CalculateMenuPosition(mouse.NewPosition(v, 3), mw, 2, sw, 10)
						q := m.CalculateMenuPosition(mouse.NewPosition(3, v), 2, mw, 10, sw)
						W, w := max(sw, 0), max(mw, 0)
						want, other := 0, 3
						if w <= W {
							want = max(0, min(v, W-w))
						} else {
							other = 0
						}
						if p != mouse.NewPosition(want, other) || q != mouse.NewPosition(other, want) {
							c.Fail("menu", fmt.Sprintf("a menu %d wide at column %d of %d is placed at %v, one %d high at row %d of %d at %v, should be at %d", mw, v, sw, p, mw, v, sw, q, want), nil)
						}
						if w := mp; mw >= 0 && sw >= 0 {
							r, b := w.WouldOverflow(mouse.NewPosition(v, v), mw, mw, sw, sw)
							if over := v > sw-mw; r != over || b != over {
								c.Fail("menu-fits", fmt.Sprintf("%d at %d on %d: overflow %v %v", mw, v, sw, r, b), nil)
							}
						}
					}
				}
			}
			c.Evals.Add(int64(len(ext)*len(ext)*3 + len(eb)))
		})
		c.Part("the ends of the range of int: %d boxes, %d places, menus and cursors", len(eb), len(ext)*len(ext))
		for _, big := range []int{79, 80, 99, 100, 101, 127, 128, 132, 200, 255, 256, 257, 1000, 65535} {
			sizes := []int{1, 20, 60, 64, 99, 100, 101, 128, big / 2, big - 1, big, big + 1}
			for _, h := range sizes {
				for _, cy := range []int{-1, 0, big - h - 1, big - h, big - h + 1, big - 1, big, big + 5} {
					for _, w := range sizes {
						for _, cx := range []int{-3, 0, 1, big/2 - w, big - w - 1, big - w, big - w + 1, big - 1, big, 2 * big} {
							p := mouse.New().CalculateMenuPosition(mouse.NewPosition(cx, cy), w, h, big, big)
							wx, wy := max(0, min(cx, big-w)), max(0, min(cy, big-h))
							if w > big || h > big {
								wx, wy = 0, 0
							}
							c.Evals.Add(1)
							if p.X() != wx || p.Y() != wy {
								c.Fail("menu", fmt.Sprintf("a %dx%d menu at (%d,%d) on a %dx%d screen is placed at %v, should be at (%d,%d)", w, h, cx, cy, big, big, p, wx, wy), nil)
							}
						}
					}
				}
			}
			if big > 1000 {
				continue
			}
			for _, mw := range []int{1, 20, big - 1, big, big + 1} {
				for cx := -1; cx <= big+1; cx++ {
					p := mouse.New().CalculateMenuPosition(mouse.NewPosition(cx, cx/2), mw, 5, big, 24)
					wx, wy := max(0, min(cx, big-mw)), max(0, min(cx/2, 19))
					if mw > big {
						wx, wy = 0, 0
					}
					if p.X() != wx || p.Y() != wy {
						c.Fail("menu", fmt.Sprintf("menu of width %d at column %d of %d is placed at %v", mw, cx, big, p), nil)
					}
				}
			}
		}
		c.Part("menus: screens and menus up to %dx%d, every cursor", top, top)
		c.States.Store(c.Evals.Load())
		c.Transitions.Store(c.Evals.Load())
		c.Traces.Store(c.Evals.Load())
	})
}
