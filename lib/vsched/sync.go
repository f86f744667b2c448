package vsched

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
)

type muState struct {
	writer  bool
	readers int
	wwait   int
	wc, rc  []int32
}

func (s *sched) mu(p ptr) *muState {
	m := s.mus[p]
	if m == nil {
		m = &muState{}
		s.mus[p] = m
	}
	return m
}

func (s *sched) lock(p ptr) {
	s.point("lock")
	m := s.mu(p)
	free := func() bool { return !m.writer && m.readers == 0 }
	if !free() {
		m.wwait++
		s.park("lock", free)
		m.wwait--
	}
	m.writer = true
	s.acq(m.wc)
	s.acq(m.rc)
}

func (s *sched) tryLock(p ptr) bool {
	s.point("trylock")
	m := s.mu(p)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	s.acq(m.wc)
	s.acq(m.rc)
	return true
}

func (s *sched) unlock(p ptr) {
	check()
	m := s.mu(p)
	if !m.writer {
		panic("fatal error: unlock of unlocked mutex")
	}
	if s.tracing {
		s.logf("unlock")
	}
	m.writer = false
	s.rel(&m.wc)
}

func (s *sched) rlock(p ptr) {
	s.point("rlock")
	m := s.mu(p)
	free := func() bool { return !m.writer && m.wwait == 0 }
	if !free() {
		s.park("rlock", free)
	}
	m.readers++
	s.acq(m.wc)
}

func (s *sched) runlock(p ptr) {
	check()
	m := s.mu(p)
	if m.readers == 0 {
		panic("fatal error: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.rel(&m.rc)
}

func MuLock(m *sync.Mutex) {
	if s == nil {
		m.Lock()
		return
	}
	s.lock(ptr(m))
}
func MuUnlock(m *sync.Mutex) {
	if s == nil {
		m.Unlock()
		return
	}
	s.unlock(ptr(m))
}
func MuTryLock(m *sync.Mutex) bool {
	if s == nil {
		return m.TryLock()
	}
	return s.tryLock(ptr(m))
}
func RWLock(m *sync.RWMutex) {
	if s == nil {
		m.Lock()
		return
	}
	s.lock(ptr(m))
}
func RWUnlock(m *sync.RWMutex) {
	if s == nil {
		m.Unlock()
		return
	}
	s.unlock(ptr(m))
}
func RWTryLock(m *sync.RWMutex) bool {
	if s == nil {
		return m.TryLock()
	}
	return s.tryLock(ptr(m))
}
func RWTryRLock(m *sync.RWMutex) bool {
	if s == nil {
		return m.TryRLock()
	}
	s.point("tryrlock")
	st := s.mu(ptr(m))
	if st.writer || st.wwait > 0 {
		return false
	}
	st.readers++
	s.acq(st.wc)
	return true
}
func RWRLock(m *sync.RWMutex) {
	if s == nil {
		m.RLock()
		return
	}
	s.rlock(ptr(m))
}
func RWRUnlock(m *sync.RWMutex) {
	if s == nil {
		m.RUnlock()
		return
	}
	s.runlock(ptr(m))
}

type locker struct {
	lock, unlock func()
}

func (l locker) Lock()   { l.lock() }
func (l locker) Unlock() { l.unlock() }

// RWRLocker is (*sync.RWMutex).RLocker.
func RWRLocker(m *sync.RWMutex) sync.Locker {
	return locker{func() { RWRLock(m) }, func() { RWRUnlock(m) }}
}

// LkLock and LkUnlock route calls through the sync.Locker interface.
func LkLock(l sync.Locker) {
	switch m := l.(type) {
	case *sync.Mutex:
		MuLock(m)
	case *sync.RWMutex:
		RWLock(m)
	default:
		l.Lock()
	}
}
func LkUnlock(l sync.Locker) {
	switch m := l.(type) {
	case *sync.Mutex:
		MuUnlock(m)
	case *sync.RWMutex:
		RWUnlock(m)
	default:
		l.Unlock()
	}
}

type onceState struct {
	state int
	vc    []int32
}

// OnceDo is (*sync.Once).Do.
func OnceDo(o *sync.Once, f func()) {
	if s == nil {
		o.Do(f)
		return
	}
	s.point("once")
	st := s.onces[ptr(o)]
	if st == nil {
		st = &onceState{}
		s.onces[ptr(o)] = st
	}
	switch st.state {
	case 0:
		st.state = 1
		defer func() {
			st.state = 2
			s.hb(&st.vc)
		}()
		f()
	case 1:
		s.park("once", func() bool { return st.state == 2 })
		s.hb(&st.vc)
	default:
		s.hb(&st.vc)
	}
}

type wgState struct {
	n  int
	vc []int32
}

func (s *sched) wg(p ptr) *wgState {
	w := s.wgs[p]
	if w == nil {
		w = &wgState{}
		s.wgs[p] = w
	}
	return w
}

func WGAdd(w *sync.WaitGroup, n int) {
	if s == nil {
		w.Add(n)
		return
	}
	s.point("wg.Add")
	st := s.wg(ptr(w))
	st.n += n
	s.hb(&st.vc)
	if st.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func WGDone(w *sync.WaitGroup) { WGAdd(w, -1) }
func WGWait(w *sync.WaitGroup) {
	if s == nil {
		w.Wait()
		return
	}
	st := s.wg(ptr(w))
	s.await("wg.Wait", func() bool { return st.n == 0 })
	s.hb(&st.vc)
}
func WGGo(w *sync.WaitGroup, f func()) {
	WGAdd(w, 1)
	Go(func() { defer WGDone(w); f() })
}

type condState struct {
	gen, woken int
	q          []*thread
	vc         []int32
}

func CondWait(c *sync.Cond) {
	if s == nil {
		c.Wait()
		return
	}
	st := s.conds[ptr(c)]
	if st == nil {
		st = &condState{}
		s.conds[ptr(c)] = st
	}
	me := s.cur
	st.q = append(st.q, me)
	LkUnlock(c.L)
	s.park("cond.Wait", func() bool {
		for _, t := range st.q {
			if t == me {
				return false
			}
		}
		return true
	})
	s.hb(&st.vc)
	LkLock(c.L)
}
func CondSignal(c *sync.Cond) {
	if s == nil {
		c.Signal()
		return
	}
	s.point("cond.Signal")
	if st := s.conds[ptr(c)]; st != nil && len(st.q) > 0 {
		s.hb(&st.vc)
		st.q = st.q[1:]
	}
}
func CondBroadcast(c *sync.Cond) {
	if s == nil {
		c.Broadcast()
		return
	}
	s.point("cond.Broadcast")
	if st := s.conds[ptr(c)]; st != nil {
		s.hb(&st.vc)
		st.q = nil
	}
}

// PoolGet and PoolPut model sync.Pool as a deterministic stack.
func PoolGet(p *sync.Pool) any {
	if s == nil {
		return p.Get()
	}
	s.point("pool.Get")
	if q := s.pools[ptr(p)]; q != nil && len(*q) > 0 {
		v := (*q)[len(*q)-1]
		*q = (*q)[:len(*q)-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func PoolPut(p *sync.Pool, v any) {
	if s == nil {
		p.Put(v)
		return
	}
	s.point("pool.Put")
	q := s.pools[ptr(p)]
	if q == nil {
		q = &[]any{}
		s.pools[ptr(p)] = q
	}
	*q = append(*q, v)
}

// At is a scheduling point before an operation on an atomic.
func At[T any](p *T) *T {
	if s == nil {
		return p
	}
	s.point("atomic")
	if s.races {
		v := s.atoms[ptr(p)]
		if v == nil {
			v = new([]int32)
			s.atoms[ptr(p)] = v
		}
		s.hb(v)
	}
	return p
}

// ---- happens-before ----

func (s *sched) tick(t *thread) {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}

func join(a *[]int32, b []int32) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, v := range b {
		if v > (*a)[i] {
			(*a)[i] = v
		}
	}
}

func (s *sched) acq(v []int32) {
	if s.races {
		join(&s.cur.vc, v)
	}
}
func (s *sched) rel(v *[]int32) {
	if s.races {
		join(v, s.cur.vc)
		s.tick(s.cur)
	}
}
func (s *sched) hb(v *[]int32) {
	if s.races && s.cur != nil {
		join(&s.cur.vc, *v)
		join(v, s.cur.vc)
		s.tick(s.cur)
	}
}
func (s *sched) hbT(v *[]int32, t *thread) {
	if s.races {
		join(&t.vc, *v)
		join(v, t.vc)
		s.tick(t)
	}
}

type shadow struct {
	wt, wc int32 // last write: thread+1, clock
	ws     string
	rd     []int32 // last read clock per thread
	rs     []string
	rt     []string
}

// Acc reports an access to shared memory: a scheduling point and, when races
// are checked, a race check against earlier accesses.
func Acc(get func() ptr, write bool, site string) {
	if s == nil {
		return
	}
	check()
	p := safe(get)
	if p == nil {
		return
	}
	if s.accYield {
		s.point("access " + site)
	}
	if !s.races {
		return
	}
	sh := s.shadows[p]
	if sh == nil {
		sh = &shadow{}
		s.shadows[p] = sh
	}
	t := s.cur
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	seen := func(id int, c int32) bool { return id < len(t.vc) && t.vc[id] >= c }
	if sh.wt != 0 && int(sh.wt-1) != t.id && !seen(int(sh.wt-1), sh.wc) {
		s.race(sh.ws+"(write)", site, write)
	}
	if write {
		for id, c := range sh.rd {
			if c != 0 && id != t.id && !seen(id, c) {
				s.race(sh.rs[id]+"(read)", site, write)
			}
		}
		sh.wt, sh.wc, sh.ws = int32(t.id+1), t.vc[t.id], site
	} else {
		for len(sh.rd) <= t.id {
			sh.rd = append(sh.rd, 0)
			sh.rs = append(sh.rs, "")
		}
		sh.rd[t.id] = t.vc[t.id]
		sh.rs[t.id] = site
	}
}

func safe(get func() ptr) (p ptr) {
	defer func() { _ = recover() }()
	return get()
}

func (s *sched) race(a, b string, write bool) {
	k := "(read)"
	if write {
		k = "(write)"
	}
	d := a + " / " + b + k
	if s.raceLog[d] {
		return
	}
	s.raceLog[d] = true
	field := b
	if i := strings.IndexByte(field, '@'); i >= 0 {
		field = field[:i]
	}
	s.x.Fail("data-race:"+field, fmt.Sprintf("unsynchronised accesses: %s", d))
}

var _ = runtime.Goexit

// Ptr and P are used by the instrumenter to take the address of a field.
type Ptr = ptr

func P[T any](p *T) Ptr { return ptr(p) }
