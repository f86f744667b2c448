package vsched

import (
	"fmt"
	"unsafe"
)

type ptr = unsafe.Pointer

type waiter struct {
	sel  *selState
	idx  int
	val  any
	send bool
}

type selState struct {
	t      *thread
	done   bool
	I      int
	val    any
	OK     bool
	panics bool
}

type chanState struct {
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     []int32
	ref    any
}

func chanPtr[T any](ch <-chan T) ptr { return *(*ptr)(unsafe.Pointer(&ch)) }

func (s *sched) ch(p ptr, c int) *chanState {
	st := s.chans[p]
	if st == nil {
		st = &chanState{cap: c}
		s.chans[p] = st
	}
	return st
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.done {
			return true
		}
	}
	return false
}

func (s *sched) complete(w *waiter, val any, ok bool) {
	w.sel.done = true
	w.sel.I = w.idx
	w.sel.val = val
	w.sel.OK = ok
	t := w.sel.t
	if t.state == parked {
		t.state = ready
		t.cond = nil
	}
}

func (c *chanState) canSend() bool {
	return c.closed || len(c.buf) < c.cap || live(c.recvq)
}

func (c *chanState) canRecv() bool {
	return c.closed || len(c.buf) > 0 || live(c.sendq)
}

func (s *sched) doSend(c *chanState, v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq); w != nil {
		s.hb(&c.vc)
		s.hbT(&c.vc, w.sel.t)
		s.complete(w, v, true)
		return
	}
	c.buf = append(c.buf, v)
	s.hb(&c.vc)
}

func (s *sched) doRecv(c *chanState) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]any(nil), c.buf[1:]...)
		if w := pop(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			s.complete(w, nil, true)
		}
		s.hb(&c.vc)
		return v, true
	}
	if w := pop(&c.sendq); w != nil {
		v := w.val
		s.hbT(&c.vc, w.sel.t)
		s.hb(&c.vc)
		s.complete(w, nil, true)
		return v, true
	}
	s.hb(&c.vc)
	return nil, false // closed
}

func as[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if s == nil {
			ch <- v
			return
		}
		SelectN(false, SSend(ch)(v))
	}
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is the two-value <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	r := SelectN(false, SRecv(ch))
	return as[T](r.val), r.OK
}

// Case is one case of a select.
type Case struct {
	p    ptr
	cap  int
	send bool
	val  any
	name string
	real func(bool) (any, bool, bool)
}

// SSend makes a send case.
func SSend[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		return Case{p: *(*ptr)(unsafe.Pointer(&ch)), cap: cap(ch), send: true, val: v, name: name[T]("send "),
			real: func(bool) (any, bool, bool) {
				select {
				case ch <- v:
					return nil, true, true
				default:
					return nil, false, false
				}
			}}
	}
}

// SRecv makes a receive case.
func SRecv[T any](ch <-chan T) Case {
	return Case{p: chanPtr(ch), cap: cap(ch), name: name[T]("recv "),
		real: func(bool) (any, bool, bool) {
			select {
			case v, ok := <-ch:
				return v, ok, true
			default:
				return nil, false, false
			}
		}}
}

func name[T any](pre string) string {
	if s != nil && s.tracing {
		var z *T
		return pre + fmt.Sprintf("%T", z)[1:]
	}
	return pre
}

// RV extracts the received value of a select result.
func RV[T any](ch <-chan T, r Result) T { return as[T](r.val) }

// Result is what a select chose.
type Result struct {
	I   int
	val any
	OK  bool
}

// SelectN is select; I is -1 for the default case.
func SelectN(hasDefault bool, cases ...Case) Result {
	if s == nil {
		for {
			for i, c := range cases {
				if c.p == nil {
					continue
				}
				if v, ok, did := c.real(true); did {
					return Result{i, v, ok}
				}
			}
			if hasDefault {
				return Result{I: -1}
			}
		}
	}
	desc := ""
	if len(cases) == 1 && !hasDefault {
		desc = cases[0].name
	} else {
		desc = "select"
		if s.tracing {
			for _, c := range cases {
				desc += " [" + c.name + "]"
			}
			if hasDefault {
				desc += " [default]"
			}
		}
	}
	s.point(desc)
	var rd [16]int
	n := 0
	for i, c := range cases {
		if c.p == nil {
			continue
		}
		st := s.ch(c.p, c.cap)
		if c.send && st.canSend() || !c.send && st.canRecv() {
			rd[n] = i
			n++
		}
	}
	if n > 0 {
		k := 0
		if n > 1 {
			k = s.decide(n)
		}
		i := rd[k]
		c := cases[i]
		st := s.ch(c.p, c.cap)
		if s.tracing && len(cases) > 1 {
			s.logf("  -> %s", c.name)
		}
		if c.send {
			s.doSend(st, c.val)
			return Result{I: i, OK: true}
		}
		v, ok := s.doRecv(st)
		return Result{i, v, ok}
	}
	if hasDefault {
		if s.tracing {
			s.logf("  -> default")
		}
		return Result{I: -1}
	}
	sel := &selState{t: s.cur}
	for i, c := range cases {
		if c.p == nil {
			continue
		}
		st := s.ch(c.p, c.cap)
		w := &waiter{sel: sel, idx: i, val: c.val, send: c.send}
		if c.send {
			st.sendq = append(st.sendq, w)
		} else {
			st.recvq = append(st.recvq, w)
		}
	}
	s.park(desc, nil)
	if sel.panics {
		panic("send on closed channel")
	}
	if s.races { // acquire what the completing thread released
		c := cases[sel.I]
		s.hb(&s.ch(c.p, c.cap).vc)
	}
	return Result{sel.I, sel.val, sel.OK}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if s == nil {
		close(ch)
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	s.point("close")
	st := s.ch(*(*ptr)(unsafe.Pointer(&ch)), cap(ch))
	if st.closed {
		panic("close of closed channel")
	}
	st.closed = true
	s.hb(&st.vc)
	for w := pop(&st.recvq); w != nil; w = pop(&st.recvq) {
		s.complete(w, nil, false)
	}
	for w := pop(&st.sendq); w != nil; w = pop(&st.sendq) {
		w.sel.panics = true
		s.complete(w, nil, false)
	}
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if s == nil {
		return len(ch)
	}
	s.point("len")
	if ch == nil {
		return 0
	}
	return len(s.ch(chanPtr(ch), cap(ch)).buf)
}
