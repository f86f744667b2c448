// C09: all sequences of enabling and disabling mouse tracking, with a terminal
// that may refuse, against the modes of an emulated terminal.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/phoenix-tui/phoenix/mouse"
	"github.com/phoenix-tui/phoenix/mouse/internal/infrastructure/ansi"
	"github.com/phoenix-tui/phoenix/mouse/internal/infrastructure/platform"
	"github.com/phoenix-tui/phoenix/mouse/zzverif/vk"
)

type handle interface {
	Enable() error
	Disable() error
	IsEnabled() bool
}

type low struct{ *platform.TerminalMode }

func (l low) Enable() error  { return l.EnableAll() }
func (l low) Disable() error { return l.DisableAll() }

type op struct {
	name string
	mode ansi.MouseMode // of Enable(mode); 0: the plain one
	on   bool
	fail bool
}

// wanted are the modes that a terminal needs for a mode.
func wanted(m ansi.MouseMode) []int {
	if m == 0 || m == ansi.ModeSGR {
		return []int{1002, 1006}
	}
	return []int{int(m)}
}

func main() {
	vk.Main("C09", "model_checking", 0, func(c *vk.C) {
		c.Rule("all sequences of enabling (every mode) and disabling, each with the terminal accepting or refusing the output; the output is executed by a terminal emulator whose tracking modes are compared after every step")
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			fmt.Println("cannot open /dev/full:", err)
			os.Exit(2)
		}
		dir, err := os.MkdirTemp("", "c09")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		defer os.RemoveAll(dir)
		out, err := os.Create(filepath.Join(dir, "tty"))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		real := os.Stdout
		defer func() { os.Stdout = real }()
		explore := func(label string, make func() (handle, *platform.TerminalMode), ops []op, n int) {
			total := 1
			for i := 0; i < n; i++ {
				total *= len(ops)
			}
			for id := 0; id < total; id++ {
				if c.Expired() {
					c.Partial("%s: %d of %d", label, id, total)
					break
				}
				h, tm := make()
				t := vk.NewTerm(4, 2)
				var on []int // modes that must be on
				want := false
				var names []string
				x := id
				for k := 0; k < n; k++ {
					o := ops[x%len(ops)]
					x /= len(ops)
					names = append(names, o.name)
					out.Truncate(0)
					out.Seek(0, io.SeekStart)
					os.Stdout = out
					if o.fail {
						os.Stdout = full
					}
					var err error
					p := vk.Guard(func() {
						switch {
						case o.on && o.mode != 0:
							err = tm.Enable(o.mode)
						case o.on:
							err = h.Enable()
						case tm != nil && (o.mode != 0 || tm.Mode() != ansi.ModeSGR):
							err = tm.Disable() // DisableAll goes with EnableAll
						default:
							err = h.Disable()
						}
					})
					os.Stdout = real
					b, _ := os.ReadFile(out.Name())
					t.Write(b)
					c.Evals.Add(1)
					bad := p
					// a refusal must be reported if something had to be said
					must := o.on || want
					switch {
					case o.fail && must && err == nil:
						bad = "the terminal refused, but no error was returned"
					case !(o.fail && must) && err != nil:
						bad = "error " + err.Error()
					case o.fail:
					case o.on:
						want, on = true, wanted(o.mode)
					default:
						want, on = false, nil
					}
					if bad == "" && h.IsEnabled() != want {
						bad = fmt.Sprintf("IsEnabled is %v", h.IsEnabled())
					}
					var got []string
					for _, m := range []string{"9", "1000", "1001", "1002", "1003", "1004", "1005", "1006", "1015", "1016"} {
						if t.Modes[m] {
							got = append(got, m)
						}
					}
					var exp []string
					for _, m := range on {
						exp = append(exp, fmt.Sprint(m))
					}
					if bad == "" && strings.Join(got, " ") != strings.Join(exp, " ") {
						bad = fmt.Sprintf("the terminal has the modes %v on, should have %v", got, exp)
					}
					if bad == "" && (len(t.Unknown) > 0 || t.Row(0) != "" || t.InEscape()) {
						bad = fmt.Sprintf("the terminal did not understand %q", b)
					}
					if bad != "" {
						c.Fail(label, fmt.Sprintf("%s after %s", bad, strings.Join(names, "; ")), names)
						break
					}
				}
			}
			c.Part("%s: %d operations, all %d sequences of %d", label, len(ops), total, n)
		}
		both := func(o op) []op {
			f := o
			f.fail, f.name = true, o.name+" (refused)"
			return []op{o, f}
		}
		plain := append(both(op{name: "Enable", on: true}), both(op{name: "Disable"})...)
		explore("mouse", func() (handle, *platform.TerminalMode) { return mouse.New(), nil }, plain, vk.Pick(c, 6, 8))
		ops := append([]op(nil), plain...)
		for _, m := range []ansi.MouseMode{ansi.ModeX10, ansi.ModeButtonMotion, ansi.ModeAnyMotion, ansi.ModeSGR, ansi.ModeURxvt, ansi.ModeSGRPixels} {
			ops = append(ops, both(op{name: fmt.Sprintf("Enable(%d)", m), mode: m, on: true})...)
		}
		ops = append(ops, both(op{name: "TerminalMode.Disable", mode: 1})...)
		explore("terminal-mode", func() (handle, *platform.TerminalMode) {
			tm := platform.NewTerminalMode()
			return low{tm}, tm
		}, ops, vk.Pick(c, 3, 4))
		c.States.Store(c.Evals.Load())
		c.Transitions.Store(c.Evals.Load())
		c.Traces.Store(c.Evals.Load())
	})
}
