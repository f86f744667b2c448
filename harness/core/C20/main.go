// C20: the complete product of the values of every environment variable the
// detector consults, on every platform, against the documented precedence.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/core/internal/domain/service"
	"github.com/phoenix-tui/phoenix/core/internal/domain/value"
	"github.com/phoenix-tui/phoenix/core/zzverif/vk"
)

const unset = "\x00"

type variable struct {
	name   string
	values []string
}

var variables = []variable{
	{"NO_COLOR", []string{unset, "", "1", "0", "false"}},
	{"FORCE_COLOR", []string{unset, "", "0", "1", "2", "3", "true", "always"}},
	{"COLORTERM", []string{unset, "", "truecolor", "24bit", "TrueColor", "24BIT", "256color", "yes"}},
	{"TERM_PROGRAM", []string{unset, "", "iTerm.app", "vscode", "Hyper", "WarpTerminal", "Apple_Terminal", "tmux"}},
	{"TERM", []string{unset, "", "dumb", "xterm", "xterm-color", "xterm-256color", "screen.xterm-256color", "xterm-256color-italic", "256color", "dumb-emacs-ansi", "xterm-direct", "linux", "vt100"}},
	{"WT_SESSION", []string{unset, "", "abc"}},
}

type environment struct {
	vals     map[string]string
	platform string
}

func (e environment) Get(k string) string { return e.vals[k] }
func (e environment) Platform() string    { return e.platform }

// caps is a set of capabilities in a comparable form.
type caps struct {
	ansi               bool
	depth              int
	mouse, alt, cursor bool
}

func (c caps) String() string {
	return fmt.Sprintf("ansi=%v depth=%d mouse=%v alt=%v cursor=%v", c.ansi, c.depth, c.mouse, c.alt, c.cursor)
}

// expected is the documented precedence: no colour, forced colour, platform,
// COLORTERM, TERM_PROGRAM, TERM, conservative default.
func expected(e environment) caps {
	none := caps{}
	full := func(d int) caps { return caps{true, d, true, true, true} }
	g := e.Get
	if g("NO_COLOR") != "" {
		return none
	}
	switch g("FORCE_COLOR") {
	case "":
	case "0":
		return none
	case "1":
		return full(8)
	case "2":
		return full(256)
	default:
		return full(1 << 24)
	}
	if e.platform == "windows" {
		if g("WT_SESSION") != "" || g("TERM_PROGRAM") == "vscode" {
			return full(1 << 24)
		}
		c := full(8)
		c.mouse = false
		return c
	}
	term := g("TERM")
	if e.platform != "darwin" && (term == "" || term == "dumb") {
		return none
	}
	depth := 8
	switch {
	case strings.EqualFold(g("COLORTERM"), "truecolor") || strings.EqualFold(g("COLORTERM"), "24bit"):
		depth = 1 << 24
	case g("TERM_PROGRAM") == "Apple_Terminal":
		depth = 256
	case strings.Contains(" iTerm.app vscode Hyper WarpTerminal ", " "+g("TERM_PROGRAM")+" ") && g("TERM_PROGRAM") != "":
		depth = 1 << 24
	case strings.Contains(term, "256color"):
		depth = 256
	case term == "" || term == "dumb":
		depth = 0
	}
	if e.platform == "darwin" && g("TERM_PROGRAM") == "Apple_Terminal" && depth > 256 {
		depth = 256
	}
	return full(depth)
}

func internalCaps(c *value.Capabilities) caps {
	return caps{c.SupportsANSI(), int(c.ColorDepth()), c.SupportsMouse(), c.SupportsAltScreen(), c.SupportsCursorControl()}
}

func publicCaps(c *core.Capabilities) caps {
	return caps{c.SupportsANSI(), int(c.ColorDepth()), c.SupportsMouse(), c.SupportsAltScreen(), c.SupportsCursorControl()}
}

func (e environment) String() string {
	var l []string
	for _, v := range variables {
		if x, ok := e.vals[v.name]; ok {
			l = append(l, fmt.Sprintf("%s=%q", v.name, x))
		}
	}
	return e.platform + ": " + strings.Join(l, " ")
}

func build(code int, platform string) environment {
	e := environment{map[string]string{}, platform}
	for _, v := range variables {
		if x := v.values[code%len(v.values)]; x != unset {
			e.vals[v.name] = x
		}
		code /= len(v.values)
	}
	return e
}

func main() {
	vk.Main("C20", "model_checking", 0, func(c *vk.C) {
		total := 1
		for _, v := range variables {
			total *= len(v.values)
		}
		order := map[int]int{0: 0, 8: 1, 256: 2, 1 << 24: 3}
		for _, platform := range []string{"unix", "linux", "darwin", "windows", "plan9", ""} {
			const block = 1024
			done := c.Parallel((total+block-1)/block, func(b int) {
				for code := b * block; code < total && code < (b+1)*block; code++ {
					e := build(code, platform)
					c.Evals.Add(1)
					var got caps
					if p := vk.Guard(func() { got = internalCaps(service.NewCapabilitiesDetector(e).Detect()) }); p != "" {
						c.Fail("panic", e.String()+": "+p, e.String())
						continue
					}
					if want := expected(e); got != want {
						c.Fail("detected", fmt.Sprintf("%s: %s, should be %s", e, got, want), e.String())
					}
					if _, ok := order[got.depth]; !ok || !got.ansi && (got.mouse || got.alt || got.cursor) {
						c.Fail("inconsistent", fmt.Sprintf("%s: %s", e, got), e.String())
					}
				}
			})
			c.States.Add(int64(total))
			c.Part("%d environments on platform %q", total, platform)
			if done < (total+block-1)/block {
				c.Partial("platform %q", platform)
			}
			c.Outcome(platform)
		}
		// the real environment, through the public function
		for code := 0; code < total; code++ {
			e := build(code, "unix")
			for _, v := range variables {
				if x, ok := e.vals[v.name]; ok {
					os.Setenv(v.name, x)
				} else {
					os.Unsetenv(v.name)
				}
			}
			c.Evals.Add(1)
			c.Traces.Add(1)
			var t *core.Terminal
			if p := vk.Guard(func() { t = core.AutoDetect() }); p != "" {
				c.Fail("panic", e.String()+": "+p, e.String())
				break
			}
			k := t.Capabilities()
			if got, want := publicCaps(k), expected(e); got != want {
				c.Fail("auto-detect", fmt.Sprintf("%s: %s, should be %s", e, got, want), e.String())
			}
			if k.SupportsColor() != (k.ColorDepth() > 0) || k.SupportsTrueColor() != (k.ColorDepth() == core.ColorDepthTrueColor) || t.Size() != core.NewSize(80, 24) || t.IsRawModeEnabled() {
				c.Fail("inconsistent", fmt.Sprintf("%s: colour %v, true colour %v, size %v, raw %v", e, k.SupportsColor(), k.SupportsTrueColor(), t.Size(), t.IsRawModeEnabled()), e.String())
			}
		}
		c.Part("%d settings of the process's own environment through the public function", total)
		c.Rule("the complete product of the listed values of NO_COLOR, FORCE_COLOR, COLORTERM, TERM_PROGRAM, TERM and WT_SESSION, unset included, on six platforms; one case per environment")
	})
}
