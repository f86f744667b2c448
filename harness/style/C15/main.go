// C15: every interleaving of small programs using one theme manager is
// explored on the real code; each history of calls and results must have a
// linearization in the sequential theme-manager model.
package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/style"
	"github.com/phoenix-tui/phoenix/style/zzverif/vk"
	"github.com/phoenix-tui/phoenix/style/zzverif/vsched"
)

func digest(t *style.Theme) string {
	if t == nil {
		return "nil"
	}
	c := t.Colors()
	return fmt.Sprintf("%s/%v/%v/%d", t.Name(), c.Primary, c.Text, t.Spacing().XS)
}

func mk(name string, primary, text style.Color, xs int) *style.Theme {
	return style.NewTheme(name, style.ColorPalette{Primary: primary, Text: text}, style.BorderStyles{}, style.SpacingScale{XS: xs}, style.Typography{})
}

var (
	themeA = mk("A", style.RGB(1, 1, 1), style.RGB(2, 2, 2), 1)
	themeB = mk("B", style.RGB(3, 3, 3), style.RGB(4, 4, 4), 2)
	over   = mk("O", style.RGB(9, 9, 9), style.Color{}, 0) // overrides only name and primary colour
)

type op struct {
	name string
	run  func(tm *style.ThemeManager) string
}

var ops = []op{
	{"current", func(tm *style.ThemeManager) string { return digest(tm.Current()) }},
	{"setA", func(tm *style.ThemeManager) string { return digest(tm.SetTheme(themeA)) }},
	{"setB", func(tm *style.ThemeManager) string { return digest(tm.SetTheme(themeB)) }},
	{"merge", func(tm *style.ThemeManager) string { tm.MergeTheme(over); return "" }},
	{"reset", func(tm *style.ThemeManager) string { tm.Reset(); return "" }},
	{"preset", func(tm *style.ThemeManager) string { return fmt.Sprint(tm.SetPreset("Dark")) }},
	{"nopreset", func(tm *style.ThemeManager) string { return fmt.Sprint(tm.SetPreset("Nope")) }},
	{"mergenil", func(tm *style.ThemeManager) string { tm.MergeTheme(nil); return "" }},
	{"setnil", func(tm *style.ThemeManager) string { return digest(tm.SetTheme(nil)) }},
}

// the sequential model
func step(st, o string) (string, string) {
	switch o {
	case "current", "setnil":
		return st, st
	case "setA":
		return digest(themeA), st
	case "setB":
		return digest(themeB), st
	case "mergenil":
		return st, ""
	case "merge":
		p := strings.Split(st, "/")
		return strings.Join([]string{"O", fmt.Sprint(style.RGB(9, 9, 9)), p[2], p[3]}, "/"), ""
	case "reset":
		return digest(style.DefaultTheme()), ""
	case "preset":
		return digest(style.DarkTheme()), "true"
	case "nopreset":
		return st, "false"
	}
	panic(o)
}

// scenario: threads x perThread operations drawn from set; the variant number
// encodes the program.
func scenario(name string, threads, per int, set []int, bound int) *vsched.Scenario {
	n := 1
	for i := 0; i < threads*per; i++ {
		n *= len(set)
	}
	return &vsched.Scenario{Name: name, Variants: n, Bound: bound, Races: true, AccYield: true, Body: func(x *vsched.X) {
		tm := style.NewThemeManager(themeB)
		init := digest(themeB)
		clock := 0
		var hist []vk.LinOp
		code := x.Variant
		done := 0
		for th := 0; th < threads; th++ {
			var prog []op
			for k := 0; k < per; k++ {
				prog = append(prog, ops[set[code%len(set)]])
				code /= len(set)
			}
			vsched.GoName("T"+string(rune('A'+th)), func() {
				for _, o := range prog {
					h := vk.LinOp{Thread: th, Op: o.name}
					clock++
					h.Call = clock
					h.Out = o.run(tm)
					clock++
					h.Ret = clock
					hist = append(hist, h)
				}
				done++
			})
		}
		vsched.Await("all done", func() bool { return done == threads })
		last := digest(tm.Current())
		if !vk.Linearizable(hist, init, step, func(st string) bool { return st == last }) {
			x.Fail("not-linearizable", "no order of the calls explains the results, final theme "+last+":"+vk.History(hist))
		}
		x.Nontrivial()
		x.Outcome(last)
	}}
}

func scenarios(thorough bool) []*vsched.Scenario {
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
	main := []int{0, 1, 3, 4}
	b := 2
	if thorough {
		b = 4
	}
	return []*vsched.Scenario{
		scenario("two threads, two calls each", 2, 2, all, b),
		scenario("three threads, one call each", 3, 1, all, b+1),
		scenario("three threads, two calls each", 3, 2, main, b-1),
	}
}

func sequential(c *vk.C) {
	// merging overrides exactly the fields set: each field of a theme alone, and all
	base := reflect.ValueOf(style.DefaultTheme().Colors())
	for i := 0; i < base.NumField(); i++ {
		pal := style.ColorPalette{}
		reflect.ValueOf(&pal).Elem().Field(i).Set(reflect.ValueOf(style.RGB(7, 8, 9)))
		tm := style.NewThemeManager(nil)
		tm.MergeTheme(style.NewTheme("x", pal, style.BorderStyles{}, style.SpacingScale{}, style.Typography{}))
		got := reflect.ValueOf(tm.Current().Colors())
		for j := 0; j < base.NumField(); j++ {
			want := base.Field(j).Interface()
			if i == j {
				want = style.RGB(7, 8, 9)
			}
			c.Evals.Add(1)
			if got.Field(j).Interface() != want {
				c.Fail("merge-colour", fmt.Sprintf("overriding %s changed %s to %v", base.Type().Field(i).Name, base.Type().Field(j).Name, got.Field(j)), nil)
			}
		}
	}
	bb := reflect.ValueOf(style.DefaultTheme().Borders())
	for i := 0; i < bb.NumField(); i++ {
		br := style.BorderStyles{}
		reflect.ValueOf(&br).Elem().Field(i).Set(reflect.ValueOf(style.DoubleBorder))
		tm := style.NewThemeManager(nil)
		tm.MergeTheme(style.NewTheme("x", style.ColorPalette{}, br, style.SpacingScale{}, style.Typography{}))
		got := reflect.ValueOf(tm.Current().Borders())
		for j := 0; j < bb.NumField(); j++ {
			want := bb.Field(j).Interface()
			if i == j {
				want = style.DoubleBorder
			}
			if got.Field(j).Interface() != want {
				c.Fail("merge-border", fmt.Sprintf("overriding %s changed %s", bb.Type().Field(i).Name, bb.Type().Field(j).Name), nil)
			}
		}
	}
	sp := reflect.ValueOf(style.DefaultTheme().Spacing())
	for i := 0; i < sp.NumField(); i++ {
		o := style.SpacingScale{}
		reflect.ValueOf(&o).Elem().Field(i).SetInt(77)
		tm := style.NewThemeManager(nil)
		tm.MergeTheme(style.NewTheme("x", style.ColorPalette{}, style.BorderStyles{}, o, style.Typography{}))
		got := reflect.ValueOf(tm.Current().Spacing())
		for j := 0; j < sp.NumField(); j++ {
			want := sp.Field(j).Int()
			if i == j {
				want = 77
			}
			if got.Field(j).Int() != want {
				c.Fail("merge-spacing", fmt.Sprintf("overriding %s changed %s", sp.Type().Field(i).Name, sp.Type().Field(j).Name), nil)
			}
		}
	}
	ty := reflect.ValueOf(style.DefaultTheme().Typography())
	for i := 0; i < ty.NumField(); i++ {
		o := style.Typography{}
		reflect.ValueOf(&o).Elem().Field(i).Set(reflect.ValueOf(style.RGB(7, 8, 9)))
		tm := style.NewThemeManager(nil)
		tm.MergeTheme(style.NewTheme("x", style.ColorPalette{}, style.BorderStyles{}, style.SpacingScale{}, o))
		got := reflect.ValueOf(tm.Current().Typography())
		for j := 0; j < ty.NumField(); j++ {
			want := ty.Field(j).Interface()
			if i == j {
				want = style.RGB(7, 8, 9)
			}
			if got.Field(j).Interface() != want {
				c.Fail("merge-typography", fmt.Sprintf("overriding %s changed %s", ty.Type().Field(i).Name, ty.Type().Field(j).Name), nil)
			}
		}
	}
	// every advertised preset can be set and is then the current theme
	for _, name := range style.NewThemeManager(nil).AvailablePresets() {
		tm := style.NewThemeManager(themeA)
		want := style.ThemeByName(name)
		if !tm.SetPreset(name) || want == nil || !reflect.DeepEqual(tm.Current(), want) {
			c.Fail("preset", "preset "+name+" cannot be set or gives another theme", nil)
		}
	}
	// the presets by constructor, by name in any case and in the list of all
	all := style.AllThemes()
	if len(all) != 4 {
		c.Fail("presets", fmt.Sprintf("%d presets", len(all)), nil)
	}
	for i, p := range []struct {
		name string
		mk   func() *style.Theme
	}{{"Default", style.DefaultTheme}, {"Dark", style.DarkTheme}, {"Light", style.LightTheme}, {"HighContrast", style.HighContrastTheme}} {
		want := p.mk()
		if want.Name() != p.name || i < len(all) && !reflect.DeepEqual(all[i], want) {
			c.Fail("presets", fmt.Sprintf("preset %s is called %s or is not number %d of all themes", p.name, want.Name(), i), nil)
		}
		for j, q := range []*style.Theme{style.DefaultTheme(), style.DarkTheme(), style.LightTheme(), style.HighContrastTheme()} {
			if (i == j) != reflect.DeepEqual(q.Colors(), want.Colors()) {
				c.Fail("presets", fmt.Sprintf("the colours of the presets %s and %s", p.name, q.Name()), nil)
			}
		}
		for _, n := range []string{p.name, strings.ToLower(p.name), strings.ToUpper(p.name)} {
			if !reflect.DeepEqual(style.ThemeByName(n), want) {
				c.Fail("presets", "no or another theme by the name of "+n, nil)
			}
			tm := style.NewThemeManager(themeA)
			if !tm.SetPreset(n) || !reflect.DeepEqual(tm.Current(), want) {
				c.Fail("presets", "preset "+n+" cannot be set or gives another theme", nil)
			}
		}
	}
	for _, n := range []string{"", "Darkest", "Dark ", "themeA"} {
		if style.ThemeByName(n) != nil {
			c.Fail("presets", fmt.Sprintf("there is a preset by the name of %q", n), nil)
		}
	}
	c.Part("merging: every single field of a theme overridden alone; every preset by constructor and name")
}

func main() {
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C15", "model_checking", 0, func(c *vk.C) {
		sequential(c)
		values(c)
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 60*time.Second, 10*time.Minute))
		c.Sched(rep, err)
		c.Rule("one case per schedule: all programs of 2 threads x 2 calls (8 calls), 3 threads x 1 call, 3 threads x 2 calls (4 calls), all schedules up to the deviation bound, accesses to the manager's fields and lock operations as scheduling points")
	})
}
