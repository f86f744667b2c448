package vsched

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"syscall"
	"time"
)

type timer struct {
	when, period int64
	seq          int
	fire         func()
	active       bool
}

var epoch = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)

func (s *sched) addTimer(d time.Duration, period int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{when: s.now + int64(d), period: period, seq: s.tseq, fire: fire, active: true}
	s.timers = append(s.timers, t)
	return t
}

func (s *sched) delTimer(t *timer) bool {
	was := t.active
	t.active = false
	for i, u := range s.timers {
		if u == t {
			s.timers = append(append([]*timer(nil), s.timers[:i]...), s.timers[i+1:]...)
			break
		}
	}
	return was
}

func (s *sched) nextDue() int64 {
	m := int64(-1)
	for _, t := range s.timers {
		if m < 0 || t.when < m {
			m = t.when
		}
	}
	return m
}

// fireNext advances the clock to the earliest timer and fires it.
func (s *sched) fireNext() bool {
	var b *timer
	for _, t := range s.timers {
		if b == nil || t.when < b.when || t.when == b.when && t.seq < b.seq {
			b = t
		}
	}
	if b == nil || b.when > s.maxTime {
		return false
	}
	if b.when > s.now {
		s.now = b.when
	}
	if b.period > 0 {
		b.when = s.now + b.period
		s.tseq++
		b.seq = s.tseq
	} else {
		s.delTimer(b)
	}
	if s.tracing {
		s.logf("(time %v)", time.Duration(s.now))
	}
	b.fire()
	return true
}

// Now is time.Now.
func Now() time.Time {
	if s == nil {
		return time.Now()
	}
	return epoch.Add(time.Duration(s.now))
}

// Elapsed is the virtual time since the execution started.
func Elapsed() time.Duration { return time.Duration(s.now) }

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if s == nil {
		time.Sleep(d)
		return
	}
	s.point("sleep")
	if d <= 0 {
		return
	}
	fired := false
	s.addTimer(d, 0, func() { fired = true })
	s.park("sleep", func() bool { return fired })
}

func (s *sched) tickInto(c chan time.Time) func() {
	return func() {
		st := s.ch(*(*ptr)(ptr(&c)), cap(c))
		if w := pop(&st.recvq); w != nil {
			s.complete(w, Now(), true)
		} else if len(st.buf) < st.cap {
			st.buf = append(st.buf, Now())
		}
	}
}

func After(d time.Duration) <-chan time.Time {
	if s == nil {
		return time.After(d)
	}
	check()
	c := make(chan time.Time, 1)
	s.addTimer(d, 0, s.tickInto(c))
	return c
}

func Tick(d time.Duration) <-chan time.Time {
	if s == nil {
		return time.Tick(d)
	}
	return NewTicker(d).C
}

var (
	timersOf  = map[*time.Timer]*timer{}
	tickersOf = map[*time.Ticker]*timer{}
)

func NewTimer(d time.Duration) *time.Timer {
	if s == nil {
		return time.NewTimer(d)
	}
	check()
	c := make(chan time.Time, 1)
	t := &time.Timer{C: c}
	timersOf[t] = s.addTimer(d, 0, s.tickInto(c))
	return t
}

func AfterFunc(d time.Duration, f func()) *time.Timer {
	if s == nil {
		return time.AfterFunc(d, f)
	}
	check()
	t := &time.Timer{}
	timersOf[t] = s.addTimer(d, 0, func() { s.spawn("AfterFunc", f) })
	return t
}

func TimerStop(t *time.Timer) bool {
	if s == nil {
		return t.Stop()
	}
	s.point("timer.Stop")
	x := timersOf[t]
	if x == nil {
		return false
	}
	return s.delTimer(x)
}

func TimerReset(t *time.Timer, d time.Duration) bool {
	if s == nil {
		return t.Reset(d)
	}
	s.point("timer.Reset")
	x := timersOf[t]
	was := s.delTimer(x)
	y := s.addTimer(d, 0, x.fire)
	timersOf[t] = y
	return was
}

func NewTicker(d time.Duration) *time.Ticker {
	if s == nil {
		return time.NewTicker(d)
	}
	check()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	tickersOf[t] = s.addTimer(d, int64(d), s.tickInto(c))
	return t
}

func TickerStop(t *time.Ticker) {
	if s == nil {
		t.Stop()
		return
	}
	check()
	if x := tickersOf[t]; x != nil {
		s.delTimer(x)
	}
}

func TickerReset(t *time.Ticker, d time.Duration) {
	if s == nil {
		t.Reset(d)
		return
	}
	check()
	if x := tickersOf[t]; x != nil {
		s.delTimer(x)
		tickersOf[t] = s.addTimer(d, int64(d), x.fire)
	}
}

// ---- context ----

type vctx struct {
	context.Context
	done     chan struct{}
	err      error
	children []*vctx
	parent   *vctx
	deadline time.Time
	hasDL    bool
}

func (c *vctx) Done() <-chan struct{} { return c.done }
func (c *vctx) Err() error {
	if s != nil {
		s.point("ctx.Err")
	}
	return c.err
}
func (c *vctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.Context.Deadline()
}
func (c *vctx) Value(k any) any { return c.Context.Value(k) }

type vctxKey struct{}

func (c *vctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	st := s.ch(*(*ptr)(ptr(&c.done)), 0)
	if !st.closed {
		st.closed = true
		s.hb(&st.vc)
		for w := pop(&st.recvq); w != nil; w = pop(&st.recvq) {
			s.complete(w, nil, false)
		}
	}
	for _, k := range c.children {
		k.cancel(err)
	}
}

func newCtx(parent context.Context) *vctx {
	c := &vctx{Context: parent, done: make(chan struct{})}
	for p := parent; p != nil; {
		if v, ok := p.(*vctx); ok {
			v.children = append(v.children, c)
			if v.err != nil {
				c.cancel(v.err)
			}
			break
		}
		if v, ok := p.(*valCtx); ok {
			p = v.Context
			continue
		}
		break
	}
	return c
}

type valCtx struct {
	context.Context
	k, v any
}

func (c *valCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func CtxWithValue(p context.Context, k, v any) context.Context {
	if s == nil {
		return context.WithValue(p, k, v)
	}
	return &valCtx{p, k, v}
}

func CtxWithCancel(p context.Context) (context.Context, context.CancelFunc) {
	if s == nil {
		return context.WithCancel(p)
	}
	check()
	c := newCtx(p)
	return c, func() {
		if s == nil {
			return
		}
		s.point("cancel")
		c.cancel(context.Canceled)
	}
}

func CtxWithDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return CtxWithTimeout(p, Until(t))
}

func CtxWithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if s == nil {
		return context.WithTimeout(p, d)
	}
	check()
	c := newCtx(p)
	c.deadline, c.hasDL = Now().Add(d), true
	tm := s.addTimer(d, 0, func() { c.cancel(context.DeadlineExceeded) })
	return c, func() {
		s.point("cancel")
		s.delTimer(tm)
		c.cancel(context.Canceled)
	}
}

// ---- files and pipes ----

type fileState struct {
	buf      []byte
	cap      int
	wclosed  bool
	rclosed  bool
	eof      bool
	deadline int64 // -1: none
	noDL     bool  // deadlines not supported
	vc       []int32
	other    *fileState // for a write end: the read end
	reads    int
	err      error
}

// FileLog is called for every byte string read from a fed file, if set.
func Pipe() (*os.File, *os.File, error) {
	if s == nil {
		return os.Pipe()
	}
	check()
	if s.x.PipeErr != nil {
		return nil, nil, s.x.PipeErr
	}
	r, w := new(os.File), new(os.File)
	rs := &fileState{cap: 65536, deadline: -1}
	s.files[ptr(r)] = rs
	s.files[ptr(w)] = &fileState{other: rs}
	s.x.keep = append(s.x.keep, r, w)
	return r, w, nil
}

// NewTTY makes a file whose input the harness feeds; deadlines says whether
// it supports read deadlines.
func NewTTY(deadlines bool) *os.File {
	f := new(os.File)
	s.files[ptr(f)] = &fileState{cap: 1 << 30, deadline: -1, noDL: !deadlines}
	s.x.keep = append(s.x.keep, f)
	return f
}

// Feed makes data available on a file made by NewTTY.
func Feed(f *os.File, data string) {
	s.point("feed")
	st := s.files[ptr(f)]
	st.buf = append(st.buf, data...)
}

// FeedEOF ends the input of a file made by NewTTY.
func FeedEOF(f *os.File) {
	s.point("feed eof")
	s.files[ptr(f)].eof = true
}

// Unread returns the bytes fed but not read.
func Unread(f *os.File) string { return string(s.files[ptr(f)].buf) }

// Reading reports whether a thread is blocked reading the file.
func Reading(f *os.File) int { return s.files[ptr(f)].reads }

func file(f *os.File) *fileState {
	if s == nil || f == nil {
		return nil
	}
	return s.files[ptr(f)]
}

func FileRead(f *os.File, b []byte) (int, error) {
	st := file(f)
	if st == nil {
		if s != nil {
			return 0, fmt.Errorf("vsched: read of a real file under the scheduler")
		}
		return f.Read(b)
	}
	if len(b) == 0 {
		return 0, nil
	}
	expired := func() bool { return st.deadline >= 0 && s.now >= st.deadline }
	st.reads++
	rd := true
	defer func() {
		if rd {
			st.reads--
		}
	}()
	s.await("file.Read", func() bool {
		return st.rclosed || st.wclosed || st.eof || len(st.buf) > 0 || expired()
	})
	st.reads--
	rd = false
	s.hb(&st.vc)
	if st.rclosed {
		return 0, os.ErrClosed
	}
	if expired() {
		return 0, os.ErrDeadlineExceeded
	}
	if len(st.buf) > 0 {
		n := copy(b, st.buf)
		st.buf = append([]byte(nil), st.buf[n:]...)
		s.logf("  read %q", b[:n])
		return n, nil
	}
	return 0, io.EOF
}

func FileWrite(f *os.File, b []byte) (int, error) {
	st := file(f)
	if st == nil {
		return f.Write(b)
	}
	if st.other == nil {
		return 0, errors.New("vsched: write to a read-only file")
	}
	n := 0
	for {
		s.await("file.Write", func() bool {
			return st.wclosed || st.other.rclosed || len(st.other.buf) < st.other.cap
		})
		s.hb(&st.other.vc)
		if st.wclosed {
			return n, os.ErrClosed
		}
		if st.other.rclosed {
			return n, syscall.EPIPE
		}
		k := st.other.cap - len(st.other.buf)
		if k > len(b) {
			k = len(b)
		}
		st.other.buf = append(st.other.buf, b[:k]...)
		n += k
		b = b[k:]
		if len(b) == 0 {
			return n, nil
		}
	}
}

func FileWriteString(f *os.File, b string) (int, error) { return FileWrite(f, []byte(b)) }

func FileClose(f *os.File) error {
	st := file(f)
	if st == nil {
		if s != nil && s.over {
			check()
		}
		return f.Close()
	}
	s.point("file.Close")
	if st.other != nil {
		if st.wclosed {
			return os.ErrClosed
		}
		st.wclosed = true
		st.other.wclosed = true
		s.hb(&st.other.vc)
		return nil
	}
	if st.rclosed {
		return os.ErrClosed
	}
	st.rclosed = true
	return nil
}

func FileSetReadDeadline(f *os.File, t time.Time) error {
	st := file(f)
	if st == nil {
		return f.SetReadDeadline(t)
	}
	s.point("file.SetReadDeadline")
	if st.noDL {
		return os.ErrNoDeadline
	}
	if t.IsZero() {
		st.deadline = -1
		return nil
	}
	st.deadline = int64(t.Sub(epoch))
	if st.deadline > s.now {
		s.addTimer(time.Duration(st.deadline-s.now), 0, func() {})
	}
	return nil
}

func FileSetDeadline(f *os.File, t time.Time) error { return FileSetReadDeadline(f, t) }

// IORead is a call of Read through an interface.
func IORead(r io.Reader, b []byte) (int, error) {
	if f, ok := r.(*os.File); ok && file(f) != nil {
		return FileRead(f, b)
	}
	return r.Read(b)
}

// ---- processes ----

// Hooks are the harness's stand-ins for external processes.
type Hooks struct {
	Run   func(c *exec.Cmd) error
	Start func(c *exec.Cmd) error
	Wait  func(c *exec.Cmd) error
	Kill  func(p *os.Process) error
	Sys   func(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno)
}

var errNoHook = errors.New("vsched: no stand-in for this call")

func CmdRun(c *exec.Cmd) error {
	if s == nil {
		return c.Run()
	}
	s.point("cmd.Run")
	if h := s.x.Hooks.Run; h != nil {
		return h(c)
	}
	return errNoHook
}

func CmdStart(c *exec.Cmd) error {
	if s == nil {
		return c.Start()
	}
	s.point("cmd.Start")
	if h := s.x.Hooks.Start; h != nil {
		return h(c)
	}
	return errNoHook
}

func CmdWait(c *exec.Cmd) error {
	if s == nil {
		return c.Wait()
	}
	s.point("cmd.Wait")
	if h := s.x.Hooks.Wait; h != nil {
		return h(c)
	}
	return errNoHook
}

func ProcKill(p *os.Process) error {
	if s == nil {
		return p.Kill()
	}
	s.point("process.Kill")
	if h := s.x.Hooks.Kill; h != nil {
		return h(p)
	}
	return errNoHook
}

func ProcSignal(p *os.Process, g os.Signal) error {
	if s == nil {
		return p.Signal(g)
	}
	return ProcKill(p)
}

//go:uintptrescapes
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	if s == nil {
		return syscall.Syscall(trap, a1, a2, a3)
	}
	s.point("syscall")
	if h := s.x.Hooks.Sys; h != nil {
		return h(trap, a1, a2, a3)
	}
	return 0, 0, syscall.ENOTTY
}

// SignalNop stands for os/signal functions.
func SignalNop(sig ...os.Signal) {
	if s != nil {
		s.point("signal")
	}
}
