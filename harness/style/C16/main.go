// C16: all trees of derivations of styles and themes up to a size; after every
// step every value made so far must be what it was when it was made, and what
// the same calls give without the other values.
package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/style/internal/domain/value"
	"github.com/phoenix-tui/phoenix/style/zzverif/vk"
)

type op struct {
	name string
	do   func(s style.Style) style.Style
}

// ops lists the builder calls; those of the second list repeat one of the
// first with another value.
func ops() (out, second []op) {
	again := func(name string, f func(s style.Style) style.Style) { second = append(second, op{name + "*", f}) }
	add := func(name string, f func(s style.Style) style.Style) { out = append(out, op{name, f}) }
	for i, c := range []style.Color{style.Red, style.RGB(1, 2, 3)} {
		add(fmt.Sprintf("Foreground(%d)", i), func(s style.Style) style.Style { return s.Foreground(c) })
		add(fmt.Sprintf("Background(%d)", i), func(s style.Style) style.Style { return s.Background(c) })
		add(fmt.Sprintf("BorderColor(%d)", i), func(s style.Style) style.Style { return s.BorderColor(c) })
	}
	add("Border(normal)", func(s style.Style) style.Style { return s.Border(style.NormalBorder) })
	add("Border(ascii)", func(s style.Style) style.Style { return s.Border(style.ASCIIBorder) })
	for name, f := range map[string]func(style.Style, bool) style.Style{
		"BorderTop": style.Style.BorderTop, "BorderRight": style.Style.BorderRight, "BorderBottom": style.Style.BorderBottom, "BorderLeft": style.Style.BorderLeft,
		"Bold": style.Style.Bold, "Italic": style.Style.Italic, "Underline": style.Style.Underline, "Strikethrough": style.Style.Strikethrough,
	} {
		if strings.HasPrefix(name, "Border") {
			add(name+"(false)", func(s style.Style) style.Style { return f(s, false) })
		}
		add(name+"(true)", func(s style.Style) style.Style { return f(s, true) })
	}
	for name, f := range map[string]func(style.Style, int) style.Style{
		"PaddingTop": style.Style.PaddingTop, "PaddingRight": style.Style.PaddingRight, "PaddingBottom": style.Style.PaddingBottom, "PaddingLeft": style.Style.PaddingLeft,
		"PaddingAll": style.Style.PaddingAll, "PaddingHorizontal": style.Style.PaddingHorizontal, "PaddingVertical": style.Style.PaddingVertical,
		"MarginTop": style.Style.MarginTop, "MarginRight": style.Style.MarginRight, "MarginBottom": style.Style.MarginBottom, "MarginLeft": style.Style.MarginLeft,
		"MarginAll": style.Style.MarginAll, "MarginHorizontal": style.Style.MarginHorizontal, "MarginVertical": style.Style.MarginVertical,
		"Width": style.Style.Width, "Height": style.Style.Height, "MinWidth": style.Style.MinWidth, "MaxWidth": style.Style.MaxWidth, "MinHeight": style.Style.MinHeight, "MaxHeight": style.Style.MaxHeight,
	} {
		n := 2
		if strings.HasPrefix(name, "Max") || strings.HasSuffix(name, "th") && !strings.HasPrefix(name, "M") {
			n = 9
		}
		add(fmt.Sprintf("%s(%d)", name, n), func(s style.Style) style.Style { return f(s, n) })
		again(fmt.Sprintf("%s(%d)", name, n-1), func(s style.Style) style.Style { return f(s, n-1) })
	}
	add("Padding", func(s style.Style) style.Style { return s.Padding(style.NewPadding(1, 0, 2, 3)) })
	add("Margin", func(s style.Style) style.Style { return s.Margin(style.NewMargin(3, 2, 0, 1)) })
	add("Align", func(s style.Style) style.Style {
		return s.Align(style.NewAlignment(style.AlignRight, style.AlignBottom))
	})
	add("AlignHorizontal", func(s style.Style) style.Style { return s.AlignHorizontal(value.AlignCenter) })
	add("AlignVertical", func(s style.Style) style.Style { return s.AlignVertical(value.AlignMiddle) })
	add("TerminalCapability", func(s style.Style) style.Style { return s.TerminalCapability(value.ANSI16) })
	again("Padding", func(s style.Style) style.Style { return s.Padding(style.NewPadding(0, 1, 1, 1)) })
	again("Margin", func(s style.Style) style.Style { return s.Margin(style.NewMargin(0, 1, 1, 1)) })
	again("Align", func(s style.Style) style.Style {
		return s.Align(style.NewAlignment(style.AlignCenter, style.AlignTop))
	})
	again("AlignHorizontal", func(s style.Style) style.Style { return s.AlignHorizontal(value.AlignRight) })
	again("AlignVertical", func(s style.Style) style.Style { return s.AlignVertical(value.AlignBottom) })
	again("TerminalCapability", func(s style.Style) style.Style { return s.TerminalCapability(value.NoColor) })
	add("Render", func(s style.Style) style.Style { style.Render(s, "qq\nr"); return s })
	return out, second
}

// print is all that can be seen of a style.
func print(s style.Style) string {
	var b strings.Builder
	show := func(v any, ok bool) { fmt.Fprint(&b, ok, v, ";") }
	b.WriteString(style.Render(s, "ab\nc"))
	fg, ok := s.GetForeground()
	show(fg, ok)
	bg, ok := s.GetBackground()
	show(bg, ok)
	bo, ok := s.GetBorder()
	show(bo, ok)
	bc, ok := s.GetBorderColor()
	show(bc, ok)
	pad, ok := s.GetPadding()
	show(pad, ok)
	mar, ok := s.GetMargin()
	show(mar, ok)
	size, ok := s.GetSize()
	show(size, ok)
	al, ok := s.GetAlignment()
	show(al, ok)
	fmt.Fprint(&b, s.GetBorderTop(), s.GetBorderRight(), s.GetBorderBottom(), s.GetBorderLeft(), s.GetBold(), s.GetItalic(), s.GetUnderline(), s.GetStrikethrough(), s.GetTerminalCapability())
	return b.String()
}

type node struct {
	s     style.Style
	was   string
	calls string
}

func styles(c *vk.C, ops []op, depth int) {
	n := len(ops)
	// what a chain of calls gives on its own
	var alone sync.Map
	bases := []struct {
		name string
		s    func() style.Style
	}{
		{"New()", style.New},
		{"DefaultStyle", func() style.Style { return style.DefaultStyle }},
		{"BoldStyle", func() style.Style { return style.BoldStyle }},
	}
	var walk func(tree []node, left int)
	walk = func(tree []node, left int) {
		for from := range tree {
			for _, o := range ops {
				p := tree[from]
				d := node{s: o.do(p.s), calls: p.calls + "." + o.name}
				d.was = print(d.s)
				c.Transitions.Add(1)
				if want, seen := alone.LoadOrStore(d.calls, d.was); seen && want != d.was {
					c.Fail("influence", fmt.Sprintf("%s gives %q next to %v, but %q elsewhere", d.calls, d.was, names(tree), want), d.calls)
				}
				for _, k := range tree {
					c.Evals.Add(1)
					if now := print(k.s); now != k.was {
						c.Fail("changed", fmt.Sprintf("%s was %q; after %s it is %q", k.calls, k.was, d.calls, now), d.calls)
						return
					}
				}
				c.States.Add(1)
				if left > 1 {
					walk(append(tree[:len(tree):len(tree)], d), left-1)
				}
			}
		}
	}
	total := len(bases) * n
	done := c.Parallel(total, func(i int) {
		b := bases[i%len(bases)]
		root := node{s: b.s(), calls: b.name}
		root.was = print(root.s)
		o := ops[i/len(bases)]
		d := node{s: o.do(root.s), calls: root.calls + "." + o.name}
		d.was = print(d.s)
		if print(root.s) != root.was {
			c.Fail("changed", fmt.Sprintf("%s changed its origin", d.calls), d.calls)
			return
		}
		alone.LoadOrStore(d.calls, d.was)
		walk([]node{root, d}, depth-1)
	})
	c.Part("all trees of %d derivations by %d builder calls from %d origins", depth, n, len(bases))
	if done < total {
		c.Partial("trees of %d styles", depth)
	}
	c.Outcome("styles")
}

func names(tree []node) []string {
	var out []string
	for _, k := range tree {
		out = append(out, k.calls)
	}
	return out
}

// themes

type tnode struct {
	t     *style.Theme
	was   string
	calls string
}

type top struct {
	name string
	do   func(t *style.Theme) *style.Theme
}

func tprint(t *style.Theme) string {
	return fmt.Sprintf("%s %v %v %v %v", t.Name(), t.Colors(), t.Borders(), t.Spacing(), t.Typography())
}

func themes(c *vk.C, depth int) {
	red := style.Red
	pal := style.NewColorPalette(red, red, red, red, red, red, red, red, red, red, red, red, red)
	part := style.ColorPalette{Primary: style.Blue}
	bs := style.NewBorderStyles(style.ASCIIBorder, style.ThickBorder, style.ASCIIBorder, style.ThickBorder, style.DoubleBorder)
	ops := []top{
		{"WithColors", func(t *style.Theme) *style.Theme { return t.WithColors(pal) }},
		{"WithColors(part)", func(t *style.Theme) *style.Theme { return t.WithColors(part) }},
		{"WithBorders", func(t *style.Theme) *style.Theme { return t.WithBorders(bs) }},
		{"WithSpacing", func(t *style.Theme) *style.Theme { return t.WithSpacing(style.NewSpacingScale(9, 8, 7, 6, 5)) }},
		{"WithTypography", func(t *style.Theme) *style.Theme {
			return t.WithTypography(style.NewTypography(red, style.Blue, red, style.Green))
		}},
		{"WithName", func(t *style.Theme) *style.Theme { return t.WithName("n") }},
		{"manager", func(t *style.Theme) *style.Theme {
			tm := style.NewThemeManager(t)
			tm.MergeTheme(style.NewTheme("m", part, style.BorderStyles{}, style.SpacingScale{MD: 77}, style.Typography{}))
			return tm.Current()
		}},
		{"manager reset", func(t *style.Theme) *style.Theme {
			tm := style.NewThemeManager(t)
			tm.Reset()
			tm.SetTheme(t)
			tm.SetPreset("Dark")
			return tm.Current()
		}},
	}
	origins := []tnode{
		{t: style.DefaultTheme(), calls: "DefaultTheme"}, {t: style.HighContrastTheme(), calls: "HighContrastTheme"},
		{t: style.NewTheme("", part, style.BorderStyles{}, style.SpacingScale{}, style.Typography{}), calls: "NewTheme"},
	}
	for i := range origins {
		origins[i].was = tprint(origins[i].t)
	}
	var alone sync.Map
	var walk func(tree []tnode, left int)
	walk = func(tree []tnode, left int) {
		try := func(d tnode) {
			c.Transitions.Add(1)
			d.was = tprint(d.t)
			if want, seen := alone.LoadOrStore(d.calls, d.was); seen && want != d.was {
				c.Fail("theme-influence", fmt.Sprintf("%s is %q or %q", d.calls, d.was, want), d.calls)
				return
			}
			for _, k := range tree {
				c.Evals.Add(1)
				if now := tprint(k.t); now != k.was {
					c.Fail("theme-changed", fmt.Sprintf("%s was %q; after %s it is %q", k.calls, k.was, d.calls, now), d.calls)
					return
				}
			}
			c.States.Add(1)
			if left > 1 {
				walk(append(tree[:len(tree):len(tree)], d), left-1)
			}
		}
		for _, p := range tree {
			for _, o := range ops {
				try(tnode{t: o.do(p.t), calls: p.calls + "." + o.name})
			}
			for _, q := range tree {
				try(tnode{t: p.t.Merge(q.t), calls: p.calls + ".Merge(" + q.calls + ")"})
			}
		}
	}
	done := c.Parallel(len(ops)*len(origins), func(i int) {
		p, o := origins[i%len(origins)], ops[i/len(origins)]
		d := tnode{t: o.do(p.t), calls: p.calls + "." + o.name}
		d.was = tprint(d.t)
		walk(append(origins[:len(origins):len(origins)], d), depth-1)
	})
	c.Part("all trees of %d derivations of themes from %d origins by %d operations and merging any two", depth, len(origins), len(ops))
	if done < len(ops)*len(origins) {
		c.Partial("trees of %d themes", depth)
	}
	// the presets are what they were
	c.Evals.Add(4)
	all := style.AllThemes()
	all[0] = nil
	for i, t := range style.AllThemes() {
		if t == nil || tprint(t) != presets[i] || tprint(style.ThemeByName(t.Name())) != presets[i] {
			c.Fail("preset-changed", fmt.Sprintf("preset %d is not what it was: %v", i, t), i)
		}
	}
	c.Outcome("themes")
}

var presets = func() (out []string) {
	for _, t := range style.AllThemes() {
		out = append(out, tprint(t))
	}
	return
}()

func globals() string {
	return fmt.Sprint(style.NormalBorder, style.RoundedBorder, style.ThickBorder, style.DoubleBorder, style.ASCIIBorder, style.Red, style.Blue, style.Gray,
		print(style.DefaultStyle), print(style.BoldStyle), print(style.ItalicStyle), print(style.UnderlineStyle), print(style.StrikethroughStyle))
}

func main() {
	vk.Main("C16", "model_checking", 0, func(c *vk.C) {
		was := globals()
		first, second := ops()
		all := append(first[:len(first):len(first)], second...)
		// calls on the same property, with two values each
		for _, fam := range []string{"Padding", "Margin", "Width Height", "Align", "Border"} {
			var of []op
			for _, o := range all {
				for _, w := range strings.Fields(fam) {
					if strings.Contains(o.name, w) {
						of = append(of, o)
					}
				}
			}
			styles(c, of, vk.Pick(c, 3, 4))
		}
		styles(c, all, vk.Pick(c, 2, 3))
		styles(c, first, 3)
		themes(c, vk.Pick(c, 3, 4))
		if now := globals(); now != was {
			c.Fail("globals", "the predefined styles, borders or colours changed", nil)
		}
		c.Rule("all trees of derivations: every step applies every operation to every value made so far; one case per step, all earlier values compared with what they were")
	})
}
