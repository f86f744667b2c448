// C27: all operation sequences on the clipboard history, with a virtual clock,
// against a reference list; and all interleavings of small concurrent programs,
// each history of which must be linearizable.
package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/phoenix-tui/phoenix/clipboard"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/service"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
	"github.com/phoenix-tui/phoenix/clipboard/zzverif/vk"
	"github.com/phoenix-tui/phoenix/clipboard/zzverif/vsched"
)

// memory is a clipboard provider that keeps its text.
type memory struct {
	text string
	fail bool
}

func (m *memory) Read() (*model.ClipboardContent, error) {
	if m.fail {
		return nil, errors.New("refused")
	}
	return model.NewTextContent(m.text)
}
func (m *memory) Write(c *model.ClipboardContent) error {
	if m.fail {
		return errors.New("refused")
	}
	m.text = string(c.Data())
	return nil
}
func (m *memory) IsAvailable() bool { return true }
func (m *memory) Name() string      { return "memory" }

// entry is one entry of the reference list, oldest first.
type entry struct {
	id, text, mime string
	at             time.Time
}

type ref struct {
	on   bool
	list []entry
	max  int
	age  time.Duration
	gone []string // identifiers of entries that were removed
}

func (r *ref) drop(n int) {
	for _, e := range r.list[:n] {
		r.gone = append(r.gone, e.id)
	}
	r.list = append([]entry(nil), r.list[n:]...)
}

func (r *ref) add(text, mime string, at time.Time) {
	if !r.on {
		return
	}
	r.list = append(r.list, entry{text: text, mime: mime, at: at})
	if r.max > 0 && len(r.list) > r.max {
		r.drop(len(r.list) - r.max)
	}
}

func (r *ref) enable(max int, age time.Duration) {
	r.drop(len(r.list))
	r.on, r.max, r.age = true, max, age
	r.normalise()
}

func (r *ref) normalise() {
	if r.max < 0 {
		r.max = 0
	}
	if r.age < 0 {
		r.age = 0
	}
}

func (r *ref) expire(now time.Time) int {
	n := 0
	var keep []entry
	for _, e := range r.list {
		if r.age > 0 && now.Sub(e.at) > r.age {
			n++
			r.gone = append(r.gone, e.id)
		} else {
			keep = append(keep, e)
		}
	}
	r.list = keep
	return n
}

// sys is what both levels offer; ok tells whether a call was accepted.
type sys struct {
	r    ref
	p    *memory
	c    *clipboard.Clipboard
	h    *service.ClipboardHistory
	note string
}

type op struct {
	name string
	do   func(s *sys) (bad string)
}

func want(cond bool, format string, a ...any) string {
	if cond {
		return ""
	}
	return fmt.Sprintf(format, a...)
}

func write(name, text, mime string) op {
	return op{name, func(s *sys) string {
		var err error
		switch mime {
		case "text/html":
			err = s.c.WriteHTML(text)
		case "text/rtf":
			err = s.c.WriteRTF(text)
		default:
			err = s.c.Write(text)
		}
		if s.p.fail || text == "" {
			return want(err != nil, "the write failed but no error was returned")
		}
		s.r.add(text, mime, vsched.Now())
		return want(err == nil, "error %v", err)
	}}
}

func sleep(d time.Duration) op {
	return op{fmt.Sprint("wait ", d), func(s *sys) string { vsched.Sleep(d); return "" }}
}

func enable(max int, age time.Duration) op {
	return op{fmt.Sprintf("EnableHistory(%d, %v)", max, age), func(s *sys) string {
		s.c.EnableHistory(max, age)
		s.r.enable(max, age)
		return ""
	}}
}

func restore(which int) op {
	return op{fmt.Sprintf("RestoreFromHistory(%d)", which), func(s *sys) string {
		id, text, mime := "nothing", "", ""
		if which < 0 && len(s.r.gone) > 0 {
			id = s.r.gone[len(s.r.gone)-1]
		}
		if which >= 0 && which < len(s.r.list) {
			e := s.r.list[which]
			id, text, mime = e.id, e.text, e.mime
		}
		err := s.c.RestoreFromHistory(id)
		if text == "" || s.p.fail {
			return want(err != nil, "restoring what is not there gave no error")
		}
		s.r.add(text, mime, vsched.Now())
		return want(err == nil && s.p.text == text, "restoring %q gave %v and put %q on the clipboard", text, err, s.p.text)
	}}
}

var publicOps = []op{
	write("Write a", "a", "text/plain"),
	write("Write bb", "bb", "text/plain"),
	write("WriteHTML", "<b>é</b>", "text/html"),
	write("WriteRTF", "{\\rtf1 x}", "text/rtf"),
	write("Write nothing", "", "text/plain"),
	sleep(10 * time.Second), sleep(21 * time.Second),
	{"RemoveExpiredHistory", func(s *sys) string {
		w := s.r.expire(vsched.Now())
		g := s.c.RemoveExpiredHistory()
		return want(g == w, "removed %d, should remove %d", g, w)
	}},
	{"ClearHistory", func(s *sys) string { s.c.ClearHistory(); s.r.drop(len(s.r.list)); return "" }},
	restore(0), restore(1), restore(-1),
	enable(2, 30*time.Second), enable(0, 0), enable(1, -time.Second), enable(-3, 20*time.Second), enable(math.MaxInt, math.MaxInt64),
	{"DisableHistory", func(s *sys) string { s.c.DisableHistory(); s.r.drop(len(s.r.list)); s.r.on = false; return "" }},
	{"provider fails / works again", func(s *sys) string { s.p.fail = !s.p.fail; return "" }},
}

func add(text, mime string) op {
	return op{fmt.Sprintf("Add(%q, %s)", text, mime), func(s *sys) string {
		b := []byte(text)
		err := s.h.Add(b, value.MIMEType(mime))
		for i := range b {
			b[i] = '#' // the caller's bytes are its own again
		}
		if text == "" || mime == "" {
			return want(err != nil, "no error")
		}
		s.r.add(text, mime, vsched.Now())
		return want(err == nil, "error %v", err)
	}}
}

func setMax(n int) op {
	return op{fmt.Sprintf("SetMaxSize(%d)", n), func(s *sys) string {
		s.h.SetMaxSize(n)
		s.r.max = n
		s.r.normalise()
		if s.r.max > 0 && len(s.r.list) > s.r.max {
			s.r.drop(len(s.r.list) - s.r.max)
		}
		return ""
	}}
}

func setAge(d time.Duration) op {
	return op{fmt.Sprintf("SetMaxAge(%v)", d), func(s *sys) string {
		s.h.SetMaxAge(d)
		s.r.age = d
		s.r.normalise()
		return ""
	}}
}

var serviceOps = []op{
	add("a", "text/plain"), add("bb", "text/html"), add("\x00\xff", "image/png"), add("", "text/plain"), add("x", ""),
	sleep(10 * time.Second), sleep(21 * time.Second),
	{"RemoveExpired", func(s *sys) string {
		w := s.r.expire(vsched.Now())
		g := s.h.RemoveExpired()
		return want(g == w, "removed %d, should remove %d", g, w)
	}},
	{"Clear", func(s *sys) string { s.h.Clear(); s.r.drop(len(s.r.list)); return "" }},
	setMax(0), setMax(1), setMax(2), setMax(-1), setAge(0), setAge(20 * time.Second), setAge(-1),
}

var coreOps = []op{serviceOps[0], serviceOps[1], serviceOps[5], serviceOps[6], serviceOps[7], setMax(2)}

// got is an entry as either level shows it.
type got struct {
	id, text, mime string
	at             time.Time
	size           int
}

func (s *sys) all(list func() []got, label string, want []entry) string {
	g := list()
	if len(g) != len(want) {
		return fmt.Sprintf("%s has %d entries, should have %d", label, len(g), len(want))
	}
	for i, x := range g {
		w := want[len(want)-1-i] // newest first
		if x.text != w.text || x.mime != w.mime || !x.at.Equal(w.at) || x.size != len(w.text) || w.id != "" && x.id != w.id {
			return fmt.Sprintf("%s: entry %d is %+v, should be %+v", label, i, x, w)
		}
	}
	return ""
}

func fromPublic(es []clipboard.HistoryEntry) (g []got) {
	for i, e := range es {
		g = append(g, got{e.ID, string(e.Content), e.MIMEType, e.Timestamp, e.Size})
		for j := range e.Content {
			es[i].Content[j] = '#' // what is returned is the caller's
		}
		es[i] = clipboard.HistoryEntry{}
	}
	return
}

func fromService(es []*model.HistoryEntry) (g []got) {
	for i, e := range es {
		b := e.Content()
		g = append(g, got{e.ID(), string(b), e.MIMEType().String(), e.Timestamp(), e.Size()})
		for j := range b {
			b[j] = '#'
		}
		es[i] = nil
	}
	return
}

func last(l []entry, n int) []entry {
	if n <= 0 || n > len(l) {
		return l
	}
	return l[len(l)-n:]
}

// check compares everything that can be asked with the reference.
func (s *sys) check() string {
	r := &s.r
	total := 0
	for _, e := range r.list {
		total += len(e.text)
	}
	ids := map[string]bool{}
	learn := func(g []got) string {
		for i, x := range g {
			if x.id == "" || ids[x.id] {
				return fmt.Sprintf("identifier %q is not unique", x.id)
			}
			ids[x.id] = true
			if e := &r.list[len(r.list)-1-i]; e.id == "" {
				e.id = x.id
				for _, o := range r.gone {
					if o == x.id {
						return fmt.Sprintf("identifier %q is used again", x.id)
					}
				}
			}
		}
		return ""
	}
	if s.c != nil {
		if s.c.IsHistoryEnabled() != r.on {
			return fmt.Sprintf("IsHistoryEnabled is %v", !r.on)
		}
		g := fromPublic(s.c.GetHistory())
		if b := s.all(func() []got { return g }, "GetHistory", r.list); b != "" {
			return b
		}
		if b := learn(g); b != "" {
			return b
		}
		for _, n := range []int{-1, 0, 1, 2, 3, 100} {
			if b := s.all(func() []got { return fromPublic(s.c.GetRecentHistory(n)) }, fmt.Sprintf("GetRecentHistory(%d)", n), last(r.list, n)); b != "" {
				return b
			}
		}
		if g, t := s.c.GetHistorySize(), s.c.GetHistoryTotalSize(); g != len(r.list) || t != total {
			return fmt.Sprintf("size %d, total %d, should be %d, %d", g, t, len(r.list), total)
		}
		for _, e := range r.list {
			x, err := s.c.GetHistoryEntry(e.id)
			if err != nil {
				return fmt.Sprintf("GetHistoryEntry: %v", err)
			}
			if b := s.all(func() []got { return fromPublic([]clipboard.HistoryEntry{x}) }, "GetHistoryEntry", []entry{e}); b != "" {
				return b
			}
		}
		for _, id := range append([]string{"", "x"}, r.gone...) {
			if x, err := s.c.GetHistoryEntry(id); err == nil {
				return fmt.Sprintf("GetHistoryEntry of a removed or unknown entry gives %+v", x)
			}
		}
		return ""
	}
	g := fromService(s.h.GetAll())
	if b := s.all(func() []got { return g }, "GetAll", r.list); b != "" {
		return b
	}
	if b := learn(g); b != "" {
		return b
	}
	for _, n := range []int{-1, 0, 1, 2, 3, 100} {
		if b := s.all(func() []got { return fromService(s.h.GetRecent(n)) }, fmt.Sprintf("GetRecent(%d)", n), last(r.list, n)); b != "" {
			return b
		}
	}
	for _, m := range []string{"text/plain", "text/html", "image/png", "text/rtf", ""} {
		var of []entry
		for _, e := range r.list {
			if e.mime == m {
				of = append(of, e)
			}
		}
		if b := s.all(func() []got { return fromService(s.h.GetByMIMEType(value.MIMEType(m))) }, "GetByMIMEType "+m, of); b != "" {
			return b
		}
	}
	if g, t, e := s.h.Size(), s.h.TotalSize(), s.h.IsEmpty(); g != len(r.list) || t != total || e != (len(r.list) == 0) {
		return fmt.Sprintf("size %d, total %d, empty %v, should be %d, %d", g, t, e, len(r.list), total)
	}
	if m, a := s.h.MaxSize(), s.h.MaxAge(); m != r.max || a != r.age {
		return fmt.Sprintf("limits %d, %v, should be %d, %v", m, a, r.max, r.age)
	}
	for _, e := range r.list {
		x, err := s.h.Get(e.id)
		if err != nil || !s.h.Contains(e.id) {
			return fmt.Sprintf("Get: %v, Contains %v", err, s.h.Contains(e.id))
		}
		if b := s.all(func() []got { return fromService([]*model.HistoryEntry{x}) }, "Get", []entry{e}); b != "" {
			return b
		}
	}
	for _, id := range append([]string{"", "x"}, r.gone...) {
		if x, err := s.h.Get(id); err == nil || x != nil || s.h.Contains(id) {
			return fmt.Sprintf("Get of a removed or unknown entry gives %+v", x)
		}
	}
	return ""
}

// sequences: variant = the first two operations; the body goes through all
// continuations.
func sequences(name string, ops []op, depth int, make func() *sys) *vsched.Scenario {
	return &vsched.Scenario{Name: name, Variants: len(ops) * len(ops), Bound: 0, MaxSteps: 1 << 40, MaxTime: 200 * 365 * 24 * time.Hour, Body: func(x *vsched.X) {
		n := 1
		for i := 2; i < depth; i++ {
			n *= len(ops)
		}
		for code := 0; code < n; code++ {
			s := make()
			var names []string
			v := x.Variant
			for i := 0; i < depth; i++ {
				o := ops[v%len(ops)]
				if v /= len(ops); i == 1 {
					v = code
				}
				names = append(names, o.name)
				var bad string
				if p := vk.Guard(func() { bad = o.do(s) }); p != "" {
					bad = p
				}
				if bad == "" {
					if p := vk.Guard(func() { bad = s.check() }); p != "" {
						bad = p
					}
				}
				if bad != "" {
					x.Fail("list", fmt.Sprintf("%s after %s", bad, strings.Join(names, "; ")))
					break
				}
			}
		}
		x.Nontrivial()
		x.Outcome(fmt.Sprint(n, " sequences"))
	}}
}

// long: histories of many entries. Every limit, with and without an age, is
// filled well beyond the limit, one entry at a time with a pause between, and
// everything is compared after every step around the interesting sizes.
func long(thorough bool) *vsched.Scenario {
	limits := []int{0, 1, 9, 10, 16, 50, 64, 99, 100, 101, 128, 150}
	ages := []time.Duration{0, time.Second, 90 * time.Second, time.Hour}
	return &vsched.Scenario{Name: "long histories", Variants: len(limits) * len(ages) * 2, Bound: 0, MaxSteps: 1 << 40, MaxTime: 200 * 365 * 24 * time.Hour, Body: func(x *vsched.X) {
		max, age := limits[x.Variant%len(limits)], ages[x.Variant/len(limits)%len(ages)]
		var s *sys
		srvLevel := x.Variant/len(limits)/len(ages) == 1
		var seq []op
		if srvLevel {
			s = srv(max, age)()
		} else {
			s = public()
			seq = append(seq, enable(max, age))
		}
		n := 160
		if thorough {
			n = 420
		}
		mimes := []string{"text/plain", "text/html", "text/rtf"}
		for i := 0; i < n; i++ {
			text := strings.Repeat(fmt.Sprint(i, "é "), 1+i%5*i%17)
			if i == 40 || i == 155 { // a big one
				text = strings.Repeat("ü big", 9000+i*400)
			}
			if srvLevel {
				seq = append(seq, add(text, mimes[i%3]))
			} else {
				seq = append(seq, write(fmt.Sprintf("write %d", i), text, mimes[i%3]))
			}
			if i%2 == 0 {
				seq = append(seq, sleep(time.Duration(1+i%3)*time.Second))
			}
			if i%37 == 36 {
				if srvLevel {
					seq = append(seq, serviceOps[7])
				} else {
					seq = append(seq, publicOps[7], restore(0), restore(i/2), restore(-1))
				}
			}
			if i == 130 && srvLevel {
				seq = append(seq, setMax(77), setMax(120), setAge(50*time.Second), serviceOps[7])
			}
		}
		for i, o := range seq {
			bad := ""
			if p := vk.Guard(func() { bad = o.do(s) }); p != "" {
				bad = p
			}
			m := len(s.r.list)
			if bad == "" && (i%5 == 0 || m == max || m+1 == max || len(s.r.gone) < 3 || i+1 == len(seq)) {
				if p := vk.Guard(func() { bad = s.check() }); p != "" {
					bad = p
				}
			}
			if bad != "" {
				x.Fail("list", fmt.Sprintf("limits %d, %v: %s after %d steps, the last one %s", max, age, bad, i+1, o.name))
				break
			}
		}
		x.Nontrivial()
		x.Outcome(fmt.Sprint(len(s.r.list), " entries"))
	}}
}

func public() *sys {
	p := &memory{}
	c, err := clipboard.NewBuilder().WithOSC52(false).WithNative(false).WithProvider(p).Build()
	if err != nil {
		panic(err)
	}
	s := &sys{p: p, c: c}
	return s
}

func public2() *sys {
	s := public()
	s.c.EnableHistory(2, 30*time.Second)
	s.r.enable(2, 30*time.Second)
	return s
}

func srv(max int, age time.Duration) func() *sys {
	return func() *sys {
		s := &sys{h: service.NewClipboardHistory(max, age)}
		s.r.enable(max, age)
		return s
	}
}

// ---- concurrent use

type cop struct {
	name string
	run  func(h *service.ClipboardHistory, old string, uniq string) string
}

func labels(es []*model.HistoryEntry) string {
	var l []string
	for _, e := range es {
		l = append(l, string(e.Content()))
	}
	return strings.Join(l, ",")
}

var cops = []cop{
	{"add", func(h *service.ClipboardHistory, _, u string) string {
		return fmt.Sprint(h.Add([]byte(u), value.MIMETypePlainText))
	}},
	{"all", func(h *service.ClipboardHistory, _, _ string) string { return labels(h.GetAll()) }},
	{"clear", func(h *service.ClipboardHistory, _, _ string) string { h.Clear(); return "" }},
	{"expire", func(h *service.ClipboardHistory, _, _ string) string { return fmt.Sprint(h.RemoveExpired()) }},
	{"max1", func(h *service.ClipboardHistory, _, _ string) string { h.SetMaxSize(1); return "" }},
	{"get", func(h *service.ClipboardHistory, old, _ string) string {
		e, err := h.Get(old)
		if err != nil {
			return "none"
		}
		return string(e.Content())
	}},
	{"recent", func(h *service.ClipboardHistory, _, _ string) string { return labels(h.GetRecent(1)) }},
	{"size", func(h *service.ClipboardHistory, _, _ string) string { return fmt.Sprint(h.Size()) }},
	{"total", func(h *service.ClipboardHistory, _, _ string) string { return fmt.Sprint(h.TotalSize()) }},
	{"html", func(h *service.ClipboardHistory, _, _ string) string {
		return labels(h.GetByMIMEType(value.MIMETypeHTML))
	}},
	{"has", func(h *service.ClipboardHistory, old, _ string) string {
		return fmt.Sprint(h.Contains(old), h.IsEmpty() && false)
	}},
	{"age0", func(h *service.ClipboardHistory, _, _ string) string { h.SetMaxAge(0); return "" }},
}

// state of the sequential model: "max/age/" + entries, newest first
func step(st, o string) (string, string) {
	p := strings.SplitN(st, "/", 3)
	max, age := p[0], p[1]
	var l []string
	if p[2] != "" {
		l = strings.Split(p[2], ",")
	}
	lim := func() {
		if n := int(max[0] - '0'); n > 0 && len(l) > n {
			l = l[:n]
		}
	}
	has := false
	for _, e := range l {
		has = has || e == "old"
	}
	out := ""
	switch k, u, _ := strings.Cut(o, " "); k {
	case "add":
		l = append([]string{u}, l...)
		lim()
		out = "<nil>"
	case "all":
		out = strings.Join(l, ",")
	case "clear":
		l = nil
	case "expire":
		out = "0"
		if age == "30" && has {
			out = "1"
			var k []string
			for _, e := range l {
				if e != "old" {
					k = append(k, e)
				}
			}
			l = k
		}
	case "max1":
		max = "1"
		lim()
	case "age0":
		age = "0"
	case "get":
		out = "none"
		if has {
			out = "old"
		}
	case "recent":
		if len(l) > 0 {
			out = l[0]
		}
	case "size":
		out = fmt.Sprint(len(l))
	case "total":
		out = fmt.Sprint(len(strings.Join(l, "")))
	case "html":
		for _, e := range l {
			if e == "html" {
				out = "html"
			}
		}
	case "has":
		out = fmt.Sprint(has, false)
	}
	return max + "/" + age + "/" + strings.Join(l, ","), out
}

func concurrent(name string, threads, per int, set []int, bound int) *vsched.Scenario {
	n := 1
	for i := 0; i < threads*per; i++ {
		n *= len(set)
	}
	return &vsched.Scenario{Name: name, Variants: n, Bound: bound, Races: true, AccYield: true, Body: func(x *vsched.X) {
		h := service.NewClipboardHistory(3, 30*time.Second)
		_ = h.Add([]byte("old"), value.MIMETypePlainText)
		old := h.GetAll()[0].ID()
		vsched.Sleep(40 * time.Second)
		_ = h.Add([]byte("html"), value.MIMETypeHTML)
		clock, done, code := 0, 0, x.Variant
		var hist []vk.LinOp
		for th := 0; th < threads; th++ {
			var prog []cop
			for k := 0; k < per; k++ {
				prog = append(prog, cops[set[code%len(set)]])
				code /= len(set)
			}
			vsched.GoName("T"+string(rune('A'+th)), func() {
				for k, o := range prog {
					u := fmt.Sprintf("n%c%d", 'A'+th, k)
					l := vk.LinOp{Thread: th, Op: o.name + " " + u}
					clock++
					l.Call = clock
					l.Out = o.run(h, old, u)
					clock++
					l.Ret = clock
					hist = append(hist, l)
				}
				done++
			})
		}
		vsched.Await("all done", func() bool { return done == threads })
		fin := fmt.Sprintf("%d/%d/%s", h.MaxSize(), h.MaxAge()/time.Second, labels(h.GetAll()))
		if !vk.Linearizable(hist, "3/30/html,old", step, func(st string) bool { return st == fin }) {
			x.Fail("not-linearizable", "no order of the calls explains the results, final state "+fin+":"+vk.History(hist))
		}
		x.Nontrivial()
		x.Outcome(fin)
	}}
}

// shared: a clipboard with history used by several goroutines.
func shared(threads, per, bound int) *vsched.Scenario {
	names := []string{"write", "history", "size", "recent", "clear"}
	n := 1
	for i := 0; i < threads*per; i++ {
		n *= len(names)
	}
	return &vsched.Scenario{Name: fmt.Sprintf("clipboard shared by %d threads", threads), Variants: n, Bound: bound, Races: true, AccYield: true, Body: func(x *vsched.X) {
		s := public()
		s.c.EnableHistory(2, 0)
		clock, done, code := 0, 0, x.Variant
		var hist []vk.LinOp
		show := func(es []clipboard.HistoryEntry) string {
			var l []string
			for _, e := range es {
				l = append(l, string(e.Content))
			}
			return strings.Join(l, ",")
		}
		for th := 0; th < threads; th++ {
			var prog []string
			for k := 0; k < per; k++ {
				prog = append(prog, names[code%len(names)])
				code /= len(names)
			}
			vsched.GoName("T"+string(rune('A'+th)), func() {
				for k, o := range prog {
					u := fmt.Sprintf("n%c%d", 'A'+th, k)
					l := vk.LinOp{Thread: th, Op: o + " " + u}
					clock++
					l.Call = clock
					switch o {
					case "write":
						l.Op = "add " + u
						l.Out = fmt.Sprint(s.c.Write(u))
					case "history":
						l.Op = "all"
						l.Out = show(s.c.GetHistory())
					case "size":
						l.Out = fmt.Sprint(s.c.GetHistorySize())
					case "recent":
						l.Out = show(s.c.GetRecentHistory(1))
					case "clear":
						s.c.ClearHistory()
					}
					clock++
					l.Ret = clock
					hist = append(hist, l)
				}
				done++
			})
		}
		vsched.Await("all done", func() bool { return done == threads })
		fin := "2/0/" + show(s.c.GetHistory())
		if !vk.Linearizable(hist, "2/0/", step, func(st string) bool { return st == fin }) {
			x.Fail("not-linearizable", "no order of the calls explains the results, final state "+fin+":"+vk.History(hist))
		}
		x.Nontrivial()
		x.Outcome(fin)
	}}
}

func scenarios(thorough bool) []*vsched.Scenario {
	d, b := 4, 2 // bound 3 for three threads multiplies the schedules by five: thorough only
	if thorough {
		d, b = 5, 3
	}
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
	most := []int{0, 1, 2, 3, 4, 5, 6}
	return []*vsched.Scenario{
		sequences("sequences", publicOps, d, public2),
		sequences("sequences from disabled", publicOps, d-1, public),
		sequences("service sequences", serviceOps, d, srv(2, 30*time.Second)),
		sequences("service sequences, no limits", serviceOps, d-1, srv(0, 0)),
		sequences("service sequences, core", coreOps, d+1, srv(3, 30*time.Second)),
		long(thorough),
		concurrent("two threads, two calls each", 2, 2, most, b),
		concurrent("three threads, one call each", 3, 1, all, b),
		concurrent("three threads, two calls each", 3, 2, most[:4], b-1),
		shared(2, 2, b), shared(3, 1, b),
	}
}

func main() {
	if vsched.Worker(scenarios) {
		return
	}
	vk.Main("C27", "model_checking", 0, func(c *vk.C) {
		rep, err := vsched.Explore(scenarios(c.Thorough()), vk.Pick(c, 100*time.Second, 13*time.Minute))
		c.Sched(rep, err)
		d := vk.Pick(c, 4, 5)
		c.Rule(fmt.Sprintf("all sequences of %d of %d operations of a clipboard with history and of %d operations of the history itself, in virtual time, everything observable compared after every step; all programs of 2-3 threads with 1-2 calls each, one case per schedule up to the deviation bound", d, len(publicOps), len(serviceOps)))
	})
}
