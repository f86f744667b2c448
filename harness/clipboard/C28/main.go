// C28: every sequence of calls and faults on every chain of providers, every
// short text through the escape-sequence provider and the native one (whose
// external tools are stand-ins), every environment, small images.
package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/clipboard"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
	"github.com/phoenix-tui/phoenix/clipboard/zzverif/vk"
	"github.com/phoenix-tui/phoenix/clipboard/zzverif/vsched"
)

// texts are all strings of up to n letters of the alphabet, without the empty one.
func texts(alphabet []string, n int) []string {
	out, last := []string{}, []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, l := range last {
			for _, a := range alphabet {
				next = append(next, l+a)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

var alphabet = []string{"a", "é", "世", "😀", "e\u0301", "\n", "\r", "\t", "\x1b", "\a", "\\", ";", "\x00", " ", "\xff", "\xc3"}

func long() []string {
	var l []string
	for _, n := range []int{100, 255, 256, 1000, 4095, 4096, 4097, 49150, 65535, 65536, 65537, 300000} {
		l = append(l, strings.Repeat("xyz é\n世", n/10)+strings.Repeat("q", n%10))
	}
	return l
}

// ---- the chain of providers

// prov is a provider of the chain.
type prov struct {
	name             string
	avail, badR, bad bool
	text             string
	reads, writes    int
}

func (p *prov) Read() (*model.ClipboardContent, error) {
	p.reads++
	if p.badR {
		return nil, errors.New("cannot read")
	}
	return model.NewTextContent(p.text)
}
func (p *prov) Write(c *model.ClipboardContent) error {
	p.writes++
	if p.bad {
		return errors.New("cannot write")
	}
	t, err := c.Text()
	if err != nil {
		return err
	}
	p.text = t
	return nil
}
func (p *prov) IsAvailable() bool { return p.avail }
func (p *prov) Name() string      { return p.name }

type chain struct {
	c    *clipboard.Clipboard
	ps   []*prov
	want []string // text each provider should hold
}

func newChain(n, code int) *chain {
	b := clipboard.NewBuilder().WithOSC52(false).WithNative(false)
	s := &chain{}
	for i := 0; i < n; i++ {
		p := &prov{name: string(rune('A' + i)), avail: code&1 == 0, bad: code&2 != 0, badR: code&4 != 0, text: "old" + string(rune('A'+i))}
		code >>= 3
		s.ps = append(s.ps, p)
		s.want = append(s.want, p.text)
		b = b.WithProvider(p)
	}
	c, err := b.Build()
	if err != nil {
		panic(err)
	}
	s.c = c
	return s
}

func (s *chain) first() int {
	for i, p := range s.ps {
		if p.avail {
			return i
		}
	}
	return -1
}

type cop struct {
	name string
	do   func(s *chain) string
}

func (s *chain) counts() (r, w []int) {
	for _, p := range s.ps {
		r, w = append(r, p.reads), append(w, p.writes)
	}
	return
}

// touched says whether exactly the named provider was used, at least once.
func touched(before, after []int, only int) bool {
	for i := range before {
		if (after[i] > before[i]) != (i == only) {
			return false
		}
	}
	return true
}

func writing(name, text string, f func(c *clipboard.Clipboard, t string) error) cop {
	return cop{fmt.Sprintf("%s(%q)", name, text), func(s *chain) string {
		i := s.first()
		_, w := s.counts()
		err := f(s.c, text)
		_, w2 := s.counts()
		if text == "" {
			i = -1
		}
		if !touched(w, w2, i) {
			return fmt.Sprintf("provider writes were %v, now %v; only provider %d should be written", w, w2, i)
		}
		ok := i >= 0 && !s.ps[i].bad
		if ok {
			s.want[i] = text
		}
		if (err == nil) != ok {
			return fmt.Sprintf("returned %v although the text was delivered: %v", err, ok)
		}
		return ""
	}}
}

func reading(name string, f func(c *clipboard.Clipboard) (string, error)) cop {
	return cop{name, func(s *chain) string {
		i := s.first()
		r, _ := s.counts()
		t, err := f(s.c)
		r2, _ := s.counts()
		if !touched(r, r2, i) {
			return fmt.Sprintf("provider reads were %v, now %v; only provider %d should be read", r, r2, i)
		}
		if i < 0 || s.ps[i].badR {
			if err == nil || t != "" {
				return fmt.Sprintf("nothing can be read, but %q, %v was returned", t, err)
			}
			return ""
		}
		if err != nil || t != s.want[i] {
			return fmt.Sprintf("read %q, %v, the clipboard holds %q", t, err, s.want[i])
		}
		return ""
	}}
}

func chainOps(n int) []cop {
	ops := []cop{
		writing("Write", "a\n\x00é", (*clipboard.Clipboard).Write),
		writing("Write", "", (*clipboard.Clipboard).Write),
		writing("WriteHTML", "<b>x&amp;</b> ", (*clipboard.Clipboard).WriteHTML),
		writing("WriteRTF", "{\\rtf1 \\b x}", (*clipboard.Clipboard).WriteRTF),
		reading("Read", (*clipboard.Clipboard).Read),
		reading("ReadHTML", (*clipboard.Clipboard).ReadHTML),
		reading("ReadRTF", (*clipboard.Clipboard).ReadRTF),
		{"images", func(s *chain) string {
			r, w := s.counts()
			for _, e := range []error{s.c.WriteImage([]byte("x"), "image/png"), s.c.WriteImagePNG([]byte("x")), s.c.WriteImageJPEG([]byte("x"))} {
				_, w2 := s.counts()
				if e == nil && touched(w, w2, -1) {
					return "an image was accepted and given to no provider"
				}
			}
			for _, f := range []func() ([]byte, error){s.c.ReadImagePNG, s.c.ReadImageJPEG, func() ([]byte, error) { d, _, err := s.c.ReadImage(); return d, err }} {
				d, err := f()
				if r2, _ := s.counts(); err == nil && (touched(r, r2, -1) || len(d) == 0) {
					return fmt.Sprintf("an image %q was read from nowhere", d)
				}
			}
			return ""
		}},
	}
	for i := 0; i < n; i++ {
		ops = append(ops,
			cop{fmt.Sprintf("provider %d comes or goes", i), func(s *chain) string { s.ps[i].avail = !s.ps[i].avail; return "" }},
			cop{fmt.Sprintf("provider %d accepts writes or not", i), func(s *chain) string { s.ps[i].bad = !s.ps[i].bad; return "" }},
			cop{fmt.Sprintf("provider %d can be read or not", i), func(s *chain) string { s.ps[i].badR = !s.ps[i].badR; return "" }})
	}
	return ops
}

func (s *chain) check() string {
	for i, p := range s.ps {
		if p.text != s.want[i] {
			return fmt.Sprintf("provider %d holds %q, should hold %q", i, p.text, s.want[i])
		}
	}
	i := s.first()
	name := "none"
	if i >= 0 {
		name = s.ps[i].name
	}
	if g := s.c.GetProviderName(); g != name {
		return fmt.Sprintf("provider name %q, should be %q", g, name)
	}
	if g := s.c.IsAvailable(); g != (i >= 0) {
		return fmt.Sprintf("IsAvailable is %v", g)
	}
	return ""
}

func chains(c *vk.C, n, depth int) {
	ops := chainOps(n)
	total := 1
	for i := 0; i < depth; i++ {
		total *= len(ops)
	}
	inits := 1 << (3 * n)
	done := c.Parallel(inits, func(init int) {
		for code := 0; code < total; code++ {
			s := newChain(n, init)
			var names []string
			for v, i := code, 0; i < depth; i, v = i+1, v/len(ops) {
				o := ops[v%len(ops)]
				names = append(names, o.name)
				var bad string
				if p := vk.Guard(func() {
					if bad = o.do(s); bad == "" {
						bad = s.check()
					}
				}); p != "" {
					bad = p
				}
				c.Transitions.Add(1)
				if bad != "" {
					c.Fail("chain", fmt.Sprintf("%d providers, configuration %03o: %s after %s", n, init, bad, strings.Join(names, "; ")), names)
					return
				}
			}
			c.Evals.Add(1)
		}
		c.States.Add(int64(total))
	})
	c.Part("all sequences of %d of %d calls and faults on chains of %d providers from %d of %d initial configurations", depth, len(ops), n, done, inits)
	if done < inits {
		c.Partial("chains of %d providers", n)
	}
	c.Outcome(fmt.Sprintf("chain of %d", n))
}

func chainTexts(c *vk.C, ts []string) {
	for _, t := range ts {
		s := newChain(2, 1)
		ops := []cop{writing("Write", t, (*clipboard.Clipboard).Write), reading("Read", (*clipboard.Clipboard).Read), reading("ReadHTML", (*clipboard.Clipboard).ReadHTML), reading("ReadRTF", (*clipboard.Clipboard).ReadRTF)}
		for _, o := range ops {
			bad := o.do(s)
			if bad == "" {
				bad = s.check()
			}
			if bad != "" {
				c.Fail("text", fmt.Sprintf("%s: %s", o.name, bad), t)
			}
		}
		c.Evals.Add(1)
	}
	c.Part("%d texts written and read back through a chain", len(ts))
}

func main() {
	if tool(filepath.Base(os.Args[0])) {
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-global" {
		global(os.Args[2:])
		return
	}
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C28", "model_checking", 0, func(c *vk.C) {
		for _, v := range []string{"SSH_TTY", "SSH_CLIENT", "SSH_CONNECTION", "DISPLAY", "WAYLAND_DISPLAY", "TERM"} {
			os.Unsetenv(v)
		}
		for n := 1; n <= 3; n++ {
			chains(c, n, vk.Pick(c, 3, 4))
		}
		if _, err := clipboard.NewBuilder().WithOSC52(false).WithNative(false).Build(); err == nil {
			c.Fail("no-provider", "a clipboard without any provider was built", nil)
		}
		ts := append(texts(alphabet, vk.Pick(c, 3, 4)), long()...)
		chainTexts(c, ts)
		escapes(c, ts)
		environments(c)
		nativeTools(c)
		images(c)
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 60*time.Second, 6*time.Minute))
		c.Sched(rep, err)
		c.Rule("every sequence of calls and faults up to the stated length on every configuration of one to three providers; every text of the alphabet up to the stated length, and twelve long ones, through a pipe and a terminal; every environment; every set of installed tools and every failing one; one case per sequence, text or environment")
	})
}
