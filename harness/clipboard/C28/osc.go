package main

import (
	"encoding/base64"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/clipboard"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
	"github.com/phoenix-tui/phoenix/clipboard/internal/infrastructure/osc52"
	"github.com/phoenix-tui/phoenix/clipboard/zzverif/vk"
	"github.com/phoenix-tui/phoenix/clipboard/zzverif/vsched"

	"syscall"
	"unsafe"
)

// pty makes a pseudo-terminal.
func pty() (m, s *os.File, err error) {
	m, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	var n, u uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&u))); e != 0 {
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		return nil, nil, e
	}
	s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	return
}

var whole = regexp.MustCompile(`^\x1b\]52;c;([A-Za-z0-9+/]*=*)(?:\x1b\\|\a)$`)

// decoded is the text of a single OSC 52 sequence.
func decoded(out string) (string, error) {
	m := whole.FindStringSubmatch(out)
	if m == nil {
		return "", fmt.Errorf("not exactly one well-formed sequence")
	}
	b, err := base64.StdEncoding.DecodeString(m[1])
	return string(b), err
}

func short(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%.100q... (%d bytes)", s, len(s))
	}
	return fmt.Sprintf("%q", s)
}

// escapes writes every text through the provider and decodes what came out.
func escapes(c *vk.C, ts []string) {
	sink := func(label string, r, w *os.File, ts []string) {
		got := make(chan string)
		req := make(chan int)
		go func() {
			for n := range req {
				b := make([]byte, n)
				k, _ := io.ReadFull(r, b)
				got <- string(b[:k])
			}
		}()
		p := osc52.NewProvider(20 * time.Second).WithOutput(w)
		for _, t := range ts {
			c.Evals.Add(1)
			n := 7 + base64.StdEncoding.EncodedLen(len(t)) + 2
			req <- n
			content, _ := model.NewTextContent(t)
			var err error
			if pn := vk.Guard(func() { err = p.Write(content) }); pn != "" {
				c.Fail("panic", fmt.Sprintf("%s, text %s: %s", label, short(t), pn), t)
				return
			}
			if err != nil {
				c.Fail("osc-error", fmt.Sprintf("%s: writing %s: %v", label, short(t), err), t)
				return
			}
			var out string
			select {
			case out = <-got:
			case <-time.After(10 * time.Second):
				c.Fail("osc-bytes", fmt.Sprintf("%s: writing %s put out too little", label, short(t)), t)
				return
			}
			if d, err := decoded(out); err != nil || d != t {
				c.Fail("osc-bytes", fmt.Sprintf("%s: writing %s put out %s, which decodes to %s, %v", label, short(t), short(out), short(d), err), t)
				return
			}
			c.States.Add(1)
		}
		c.Outcome(label)
		c.Part("%d texts through the escape sequence to a %s", len(ts), label)
	}
	r, w, err := os.Pipe()
	if err != nil {
		c.Fail("setup", err.Error(), nil)
		return
	}
	sink("pipe", r, w, ts)
	_ = w.Close()
	if rest, _ := io.ReadAll(r); len(rest) > 0 {
		c.Fail("osc-bytes", fmt.Sprintf("more than one sequence was put out: %s is left over", short(string(rest))), nil)
	}
	_ = r.Close()
	if m, s, err := pty(); err == nil {
		sink("terminal", m, s, ts[:len(alphabet)*(len(alphabet)+1)])
		sink("terminal, long", m, s, ts[len(ts)-12:])
		_, _ = m.Close(), s.Close()
	} else {
		c.Partial("no pseudo-terminal: %v", err)
	}
	dir, _ := os.MkdirTemp("", "c28-")
	defer os.RemoveAll(dir)
	for i, t := range append(ts[:len(alphabet)], ts[len(ts)-12:]...) {
		f, err := os.Create(filepath.Join(dir, fmt.Sprint(i)))
		if err != nil {
			c.Fail("setup", err.Error(), nil)
			return
		}
		content, _ := model.NewTextContent(t)
		werr := osc52.NewProvider(20 * time.Second).WithOutput(f).Write(content)
		b, _ := os.ReadFile(f.Name())
		if d, err := decoded(string(b)); err != nil || d != t || werr != nil {
			c.Fail("osc-bytes", fmt.Sprintf("file: writing %s gave %v and %s", short(t), werr, short(string(b))), t)
		}
		_ = f.Close()
		c.Evals.Add(1)
	}
	oscFaults(c)
}

// oscFaults: every way the output can refuse must be reported.
func oscFaults(c *vk.C) {
	content, _ := model.NewTextContent("text")
	must := func(label string, f func() error) {
		c.Evals.Add(1)
		ch := make(chan error, 1)
		go func() {
			var err error
			if p := vk.Guard(func() { err = f() }); p != "" {
				err = nil
				c.Fail("panic", label+": "+p, label)
				ch <- fmt.Errorf("panic")
				return
			}
			ch <- err
		}()
		select {
		case err := <-ch:
			if err == nil {
				c.Fail("osc-fault", "no error although the text cannot be written: "+label, label)
			}
			c.Outcome("refused: " + label)
		case <-time.After(20 * time.Second):
			c.Fail("osc-hang", "the write never came back: "+label, label)
		}
	}
	closed, _ := os.CreateTemp("", "c28-")
	defer os.Remove(closed.Name())
	ro, _ := os.Open(closed.Name())
	defer ro.Close()
	_ = closed.Close()
	r, w, _ := os.Pipe()
	_ = r.Close()
	fr, fw, _ := os.Pipe() // nobody reads
	defer fr.Close()
	full, _ := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	big, _ := model.NewTextContent(strings.Repeat("x", 1<<20))
	must("closed file", func() error { return osc52.NewProvider(5 * time.Second).WithOutput(closed).Write(content) })
	must("file opened for reading", func() error { return osc52.NewProvider(5 * time.Second).WithOutput(ro).Write(content) })
	must("pipe without reader", func() error { return osc52.NewProvider(5 * time.Second).WithOutput(w).Write(content) })
	must("nothing to write to", func() error { return osc52.NewProvider(5 * time.Second).WithOutput(nil).Write(content) })
	must("no content", func() error { return osc52.NewProvider(5 * time.Second).WithOutput(os.Stdout).Write(nil) })
	must("output that does not drain", func() error { return osc52.NewProvider(50 * time.Millisecond).WithOutput(fw).Write(big) })
	if m, sl, err := pty(); err == nil {
		// the time limit of the public builder: 100 ms on a terminal that takes
		// nothing more, and the default is not shorter than a slow terminal
		old := os.Stdout
		os.Setenv("SSH_TTY", "/dev/x")
		must("terminal that does not drain", func() error {
			os.Stdout = sl
			cl, err := clipboard.NewBuilder().WithNative(false).WithOSC52Timeout(100 * time.Millisecond).Build()
			os.Stdout = old
			if err != nil {
				return nil
			}
			t := time.Now()
			err = cl.Write(strings.Repeat("x", 1<<20))
			if e := time.Since(t); e > 4*time.Second {
				c.Fail("osc-timeout", fmt.Sprintf("the time limit of 0.1 s took %v", e), nil)
			}
			return err
		})
		m2, sl2, _ := pty()
		os.Stdout = sl2
		cl, err := clipboard.NewBuilder().WithNative(false).WithOSC52Timeout(20 * time.Second).Build()
		os.Stdout = old
		got := make(chan error, 1)
		go func() { got <- cl.Write(strings.Repeat("x", 1<<16)) }()
		time.Sleep(300 * time.Millisecond)
		go io.Copy(io.Discard, m2)
		select {
		case werr := <-got:
			if err != nil || werr != nil {
				c.Fail("osc-timeout", fmt.Sprintf("a terminal that takes the text after 0.3 s, time limit 20 s: %v %v", err, werr), nil)
			}
		case <-time.After(30 * time.Second):
			c.Fail("osc-hang", "the write to a slow terminal never came back", nil)
		}
		os.Unsetenv("SSH_TTY")
		_, _, _, _ = m.Close(), sl.Close(), m2.Close(), sl2.Close()
	}
	if full != nil {
		must("full device", func() error { return osc52.NewProvider(5 * time.Second).WithOutput(full).Write(content) })
		_ = full.Close()
	}
	must("reading", func() error { _, err := osc52.NewProvider(5 * time.Second).WithOutput(os.Stdout).Read(); return err })
	_ = fw.Close()
}

// environments: which provider is chosen, for every combination of session,
// terminal and installed tools.
func environments(c *vk.C) {
	m, s, err := pty()
	if err != nil {
		c.Partial("no pseudo-terminal: %v", err)
		return
	}
	defer m.Close()
	defer s.Close()
	dir, err := os.MkdirTemp("", "c28-")
	if err != nil {
		c.Fail("setup", err.Error(), nil)
		return
	}
	defer os.RemoveAll(dir)
	file, _ := os.Create(filepath.Join(dir, "out"))
	pr, pw, _ := os.Pipe()
	shut, _ := os.Create(filepath.Join(dir, "shut"))
	_ = shut.Close()
	tools := toolDirs(dir)
	oldPath, oldOut := os.Getenv("PATH"), os.Stdout
	defer func() { os.Setenv("PATH", oldPath); os.Stdout = oldOut }()
	ssh := []string{"SSH_TTY", "SSH_CLIENT", "SSH_CONNECTION"}
	terms := map[string]bool{"": false, "dumb": false, "xterm": true, "xterm-256color": true, "screen": true, "tmux": true, "tmux-256color": true}
	n := 0
	for mask := 0; mask < 8; mask++ {
		for i, v := range ssh {
			os.Unsetenv(v)
			if mask>>i&1 == 1 {
				os.Setenv(v, "1.2.3.4 5 6")
			} else if mask == 0 {
				os.Setenv(v, "") // set, but empty: not a remote session
			}
		}
		for term, known := range terms {
			os.Setenv("TERM", term)
			for label, out := range map[string]*os.File{"terminal": s, "file": file, "pipe": pw, "closed file": shut} {
				tty := out == s
				osc := tty && (mask > 0 || known)
				for set, d := range tools {
					os.Setenv("PATH", d)
					os.Stdout = out
					var gotOSC, ssh bool
					var cl *clipboard.Clipboard
					var err error
					p := vk.Guard(func() {
						gotOSC = osc52.NewProvider(time.Second).IsAvailable()
						cl, err = clipboard.New()
					})
					name, avail := "", false
					if p == "" && err == nil {
						p = vk.Guard(func() { name, avail, ssh = cl.GetProviderName(), cl.IsAvailable(), cl.IsSSH() })
					}
					os.Stdout = oldOut
					where := fmt.Sprintf("remote session variables %03b, TERM=%q, output is a %s, tools %q", mask, term, label, set)
					want := "none"
					switch nat := toolFor(set); {
					case mask > 0 && tty:
						want = "OSC52"
					case nat != "":
						want = nat
					case osc:
						want = "OSC52"
					}
					n++
					c.Evals.Add(1)
					c.States.Add(1)
					switch {
					case p != "" || err != nil:
						c.Fail("environment", fmt.Sprintf("%s: %v %s", where, err, p), where)
					case gotOSC != osc:
						c.Fail("environment", fmt.Sprintf("%s: the escape-sequence provider says available=%v", where, gotOSC), where)
					case ssh != (mask > 0):
						c.Fail("environment", fmt.Sprintf("%s: IsSSH is %v", where, ssh), where)
					case avail != (want != "none") || !strings.Contains(name, want):
						c.Fail("environment", fmt.Sprintf("%s: provider %q, available=%v, should be %s", where, name, avail, want), where)
					}
				}
			}
		}
	}
	for _, v := range append(ssh, "TERM") {
		os.Unsetenv(v)
	}
	_, _, _ = file.Close(), pr.Close(), pw.Close()
	c.Part("%d environments: remote session variables, terminal names, kinds of output, installed tools", n)
	c.Outcome("environments")
}

// ---- schedules of the write and its time limit

func scenarios(thorough bool) []*vsched.Scenario {
	b := 3
	if thorough {
		b = 5
	}
	mk := func(name string, writers int, timeout time.Duration) *vsched.Scenario {
		return &vsched.Scenario{Name: name, Bound: b, TimerDev: true, Races: true, After: func(x *vsched.X) {
			if len(x.Stuck) > 0 {
				x.Fail("leak", "left behind after the writes: "+strings.Join(x.Stuck, "; "))
			}
		}, Body: func(x *vsched.X) {
			r, w, err := os.Pipe()
			if err != nil {
				x.Fail("setup", err.Error())
				return
			}
			defer r.Close()
			p := osc52.NewProvider(timeout).WithOutput(w)
			oks, done := map[string]bool{}, 0
			for i := 0; i < writers; i++ {
				t := "text" + string(rune('0'+i))
				content, _ := model.NewTextContent(t)
				vsched.GoName(t, func() {
					if err := p.Write(content); err == nil {
						oks[t] = true
					}
					done++
				})
			}
			vsched.Await("all done", func() bool { return done == writers })
			nOK := len(oks)
			vsched.WaitIdle()
			_ = w.Close()
			b, _ := io.ReadAll(r)
			seen := map[string]int{}
			for _, part := range strings.SplitAfter(string(b), "\x1b\\") {
				if part == "" {
					continue
				}
				d, err := decoded(part)
				if err != nil {
					x.Fail("osc-bytes", fmt.Sprintf("%v: %q", err, part))
				}
				seen[d]++
			}
			for t := range oks {
				if seen[t] != 1 {
					x.Fail("osc-lost", fmt.Sprintf("the write of %q returned no error, but %q was put out", t, b))
				}
			}
			for t, k := range seen {
				if k > 1 {
					x.Fail("osc-twice", fmt.Sprintf("%q was put out %d times", t, k))
				}
			}
			x.Nontrivial()
			x.Outcome(fmt.Sprintf("%d of %d accepted, %d put out", nOK, writers, len(seen)))
		}}
	}
	return []*vsched.Scenario{mk("one write", 1, time.Second), mk("two writes", 2, time.Second), mk("three writes", 3, 2*time.Second), mk("no time", 1, 0)}
}
