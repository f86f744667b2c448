package main

import (
	"fmt"
	"reflect"

	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/style/zzverif/vk"
)

// rt is what a theme must be: its five parts.
type rt struct {
	name string
	c    style.ColorPalette
	b    style.BorderStyles
	s    style.SpacingScale
	t    style.Typography
}

func (r rt) differs(t *style.Theme) string {
	switch {
	case t == nil:
		return "no theme"
	case t.Name() != r.name:
		return fmt.Sprintf("the name is %q, not %q", t.Name(), r.name)
	case t.Colors() != r.c:
		return fmt.Sprintf("the colours are %v, not %v", t.Colors(), r.c)
	case t.Borders() != r.b:
		return fmt.Sprintf("the borders are %v, not %v", t.Borders(), r.b)
	case t.Spacing() != r.s:
		return fmt.Sprintf("the spacing is %v, not %v", t.Spacing(), r.s)
	case t.Typography() != r.t:
		return fmt.Sprintf("the typography is %v, not %v", t.Typography(), r.t)
	}
	return ""
}

func of(t *style.Theme) rt { return rt{t.Name(), t.Colors(), t.Borders(), t.Spacing(), t.Typography()} }

// overlay replaces the fields of base that are set in o.
func overlay[T any](base, o T) T {
	v, w := reflect.ValueOf(&base).Elem(), reflect.ValueOf(o)
	for i := 0; i < v.NumField(); i++ {
		switch x := w.Field(i).Interface().(type) {
		case style.Color:
			if x == style.RGB(0, 0, 0) {
				continue
			}
		case style.Border:
			if x == (style.Border{}) {
				continue
			}
		case int:
			if x == 0 {
				continue
			}
		}
		v.Field(i).Set(w.Field(i))
	}
	return base
}

func (r rt) merge(o rt) rt {
	return rt{o.name, overlay(r.c, o.c), overlay(r.b, o.b), overlay(r.s, o.s), overlay(r.t, o.t)}
}

// parts are the values the themes are made of: made by the constructors, and
// as they must come out. The first ones set everything, the others little.
func parts(c *vk.C) (cs []style.ColorPalette, bs []style.BorderStyles, ss []style.SpacingScale, ts []style.Typography) {
	k := func(n uint8) style.Color { return style.RGB(n, 0, 1) }
	p := style.NewColorPalette(k(1), k(2), k(3), k(4), k(5), k(6), k(7), k(8), k(9), k(10), k(11), k(12), k(13))
	if want := (style.ColorPalette{Primary: k(1), Secondary: k(2), Background: k(3), Surface: k(4), Text: k(5), TextMuted: k(6),
		Error: k(7), Warning: k(8), Success: k(9), Info: k(10), Border: k(11), Focus: k(12), Disabled: k(13)}); p != want {
		c.Fail("palette", fmt.Sprintf("NewColorPalette gives %v, not %v", p, want), nil)
	}
	b := style.NewBorderStyles(style.RoundedBorder, style.ThickBorder, style.DoubleBorder, style.ASCIIBorder, style.NormalBorder)
	if want := (style.BorderStyles{Default: style.RoundedBorder, Input: style.ThickBorder, Modal: style.DoubleBorder, Table: style.ASCIIBorder, Panel: style.NormalBorder}); b != want {
		c.Fail("borders", fmt.Sprintf("NewBorderStyles gives %v, not %v", b, want), nil)
	}
	s := style.NewSpacingScale(9, 7, 5, 3, 1)
	if want := (style.SpacingScale{XS: 9, SM: 7, MD: 5, LG: 3, XL: 1}); s != want {
		c.Fail("spacing", fmt.Sprintf("NewSpacingScale gives %v, not %v", s, want), nil)
	}
	t := style.NewTypography(k(21), k(22), k(23), k(24))
	if want := (style.Typography{PlaceholderColor: k(21), CodeColor: k(22), LinkColor: k(23), HeadingColor: k(24)}); t != want {
		c.Fail("typography", fmt.Sprintf("NewTypography gives %v, not %v", t, want), nil)
	}
	one := style.RGB(0, 0, 1) // the darkest colour that is one
	return []style.ColorPalette{p, {}, {Primary: one, Border: one}, {Text: k(40), Disabled: k(41), Info: k(9)}},
		[]style.BorderStyles{b, {}, {Input: style.NormalBorder}},
		[]style.SpacingScale{s, {}, {XS: 1}, {SM: 1, XL: 100}, style.NewSpacingScale(1, 1, 1, 1, 1)},
		[]style.Typography{t, {}, {LinkColor: one}}
}

// values: every theme made of the parts, by every short sequence of calls.
func values(c *vk.C) {
	cs, bs, ss, ts := parts(c)
	type node struct {
		t *style.Theme
		r rt
	}
	mkr := func(r rt) *style.Theme { return style.NewTheme(r.name, r.c, r.b, r.s, r.t) }
	var ops []vk.Op[node]
	op := func(name string, f func(t *style.Theme) *style.Theme, g func(r rt) rt) {
		ops = append(ops, vk.Op[node]{Name: name, Do: func(n node) (node, bool, string, string) {
			nx := node{f(n.t), g(n.r)}
			if d := n.r.differs(n.t); d != "" {
				return nx, true, "mutated", "the call changed the theme it was made on: " + d
			}
			return nx, true, "", ""
		}})
	}
	for _, n := range []string{"mine", "", "Default", "dark"} {
		op("name "+n, func(t *style.Theme) *style.Theme { return t.WithName(n) }, func(r rt) rt { r.name = n; return r })
	}
	for i, v := range cs {
		op(fmt.Sprint("colours ", i), func(t *style.Theme) *style.Theme { return t.WithColors(v) }, func(r rt) rt { r.c = v; return r })
	}
	for i, v := range bs {
		op(fmt.Sprint("borders ", i), func(t *style.Theme) *style.Theme { return t.WithBorders(v) }, func(r rt) rt { r.b = v; return r })
	}
	for i, v := range ss {
		op(fmt.Sprint("spacing ", i), func(t *style.Theme) *style.Theme { return t.WithSpacing(v) }, func(r rt) rt { r.s = v; return r })
	}
	for i, v := range ts {
		op(fmt.Sprint("typography ", i), func(t *style.Theme) *style.Theme { return t.WithTypography(v) }, func(r rt) rt { r.t = v; return r })
	}
	overs := []rt{{"o1", cs[0], bs[1], ss[2], ts[1]}, {"o2", cs[1], bs[2], ss[1], ts[0]}, {"o3", cs[2], bs[0], ss[3], ts[2]}, {"o4", cs[3], bs[1], ss[0], ts[1]}, of(style.LightTheme())}
	for _, o := range overs {
		ot := mkr(o)
		op("merge "+o.name, func(t *style.Theme) *style.Theme { return t.Merge(ot) }, func(r rt) rt { return r.merge(o) })
	}
	var init []vk.Named[node]
	for _, r := range append([]rt{{}, {"full", cs[0], bs[0], ss[0], ts[0]}}, of(style.DefaultTheme()), of(style.DarkTheme()), of(style.HighContrastTheme())) {
		init = append(init, vk.Named[node]{Name: fmt.Sprintf("theme %q", r.name), N: node{mkr(r), r}})
	}
	check := func(n node) (string, string) {
		if d := n.r.differs(n.t); d != "" {
			return "theme", d
		}
		return "", ""
	}
	key := func(n node) string { return fmt.Sprintf("%#v", n.r) }
	s := vk.Space[node]{Label: "themes", Init: init, Ops: ops, Check: check, Key: key, Depth: vk.Pick(c, 3, 5), Max: vk.Pick(c, 100000, 500000), Sample: 3000}
	s.Run(c)

	// the manager on one thread, with themes called like the presets
	type mop struct {
		name string
		f    func(m *style.ThemeManager, r rt) (rt, string)
	}
	var mops []mop
	set := func(name string, t *style.Theme) {
		mops = append(mops, mop{name, func(m *style.ThemeManager, r rt) (rt, string) {
			prev := m.SetTheme(t)
			if d := r.differs(prev); d != "" {
				return r, "SetTheme returned another theme than the previous one: " + d
			}
			if t == nil {
				return r, ""
			}
			return of(t), ""
		}})
	}
	set("set full", mkr(rt{"full", cs[0], bs[0], ss[0], ts[0]}))
	set("set one called Default", mkr(rt{"Default", cs[0], bs[0], ss[0], ts[0]}))
	set("set one called Dark", mkr(rt{"Dark", cs[3], bs[0], ss[0], ts[0]}))
	set("set an empty one", mkr(rt{}))
	set("set none", nil)
	for _, o := range overs {
		ot := mkr(o)
		mops = append(mops, mop{"merge " + o.name, func(m *style.ThemeManager, r rt) (rt, string) { m.MergeTheme(ot); return r.merge(o), "" }})
	}
	for i, n := range []string{"Default", "dark", "HIGHCONTRAST", "none"} {
		t := []*style.Theme{style.DefaultTheme(), style.DarkTheme(), style.HighContrastTheme(), nil}[i]
		mops = append(mops, mop{"preset " + n, func(m *style.ThemeManager, r rt) (rt, string) {
			if ok := m.SetPreset(n); ok != (t != nil) {
				return r, fmt.Sprint("SetPreset said ", ok)
			}
			if t == nil {
				return r, ""
			}
			return of(t), ""
		}})
	}
	mops = append(mops, mop{"merge none", func(m *style.ThemeManager, r rt) (rt, string) { m.MergeTheme(nil); return r, "" }},
		mop{"reset", func(m *style.ThemeManager, r rt) (rt, string) { m.Reset(); return of(style.DefaultTheme()), "" }})
	depth := vk.Pick(c, 4, 5)
	var walk func(path []int)
	runs := 0
	walk = func(path []int) {
		if len(path) == depth {
			runs++
			m, r := style.NewThemeManager(nil), of(style.DefaultTheme())
			for i, o := range path {
				var bad string
				r, bad = mops[o].f(m, r)
				if bad == "" {
					bad = r.differs(m.Current())
				}
				c.Transitions.Add(1)
				if bad != "" {
					var names []string
					for _, o := range path[:i+1] {
						names = append(names, mops[o].name)
					}
					c.Fail("manager", fmt.Sprintf("after %q: %s", names, bad), names)
					return
				}
			}
			c.Traces.Add(1)
			return
		}
		for o := range mops {
			walk(append(path[:len(path):len(path)], o))
		}
	}
	walk(nil)
	c.Part(fmt.Sprintf("themes made of every combination of parts by calls in every order; %d sequences of %d calls on a manager", runs, depth))
}
