package vk

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// Runs explores long runs of large states, which a breadth-first exploration
// does not reach: every initial state, every operation of the first phase
// repeated up to its largest count, from each of the counts listed every
// operation of the second phase repeated likewise, and so on. Every state on
// the way is checked. A run ends early when an operation leaves the state as
// it is.
type Runs[N any] struct {
	Label  string
	Init   []Named[N]
	Phases []Phase[N]
	Key    func(n N) string
	Check  func(n N) (key, bad string)
}

// Phase is one phase of a run.
type Phase[N any] struct {
	Ops  []Op[N]
	Reps []int
}

// ByName selects operations by name.
func ByName[N any](ops []Op[N], names ...string) []Op[N] {
	var out []Op[N]
	for _, n := range names {
		found := false
		for _, o := range ops {
			if o.Name == n {
				out = append(out, o)
				found = true
			}
		}
		if !found {
			panic("no operation " + n)
		}
	}
	return out
}

// Run explores all runs in parallel.
func (s *Runs[N]) Run(c *C) {
	var mu sync.Mutex
	seen := map[key128]int{} // state -> the largest number of phases left it was expanded with
	var states, trans int64
	type job struct{ init, op int }
	var jobs []job
	for i := range s.Init {
		for o := range s.Phases[0].Ops {
			jobs = append(jobs, job{i, o})
		}
	}
	visit := func(k key128, left int) (fresh, expand bool) {
		mu.Lock()
		defer mu.Unlock()
		old, ok := seen[k]
		if !ok {
			states++
		}
		if !ok || old < left {
			seen[k] = left
			return !ok, true
		}
		return false, false
	}
	for i := range s.Init {
		if s.Check != nil {
			k, bad := "", ""
			if p := Guard(func() { k, bad = s.Check(s.Init[i].N) }); p != "" {
				k, bad = "panic", p
			}
			if bad != "" {
				c.Fail(k, fmt.Sprintf("%s: %s at %s", s.Label, bad, s.Init[i].Name), s.Init[i].Name)
				return
			}
		}
	}
	var walk func(name string, hist []string, n N, ph, op int)
	walk = func(name string, hist []string, n N, ph, op int) {
		p := &s.Phases[ph]
		reps := append([]int(nil), p.Reps...)
		sort.Ints(reps)
		o := &p.Ops[op]
		last := hashKey(s.Key(n))
		for i := 1; i <= reps[len(reps)-1]; i++ {
			if c.Expired() || c.FailCount() >= 30 {
				return
			}
			var nx N
			var ok bool
			var k, bad string
			if pn := Guard(func() { nx, ok, k, bad = o.Do(n) }); pn != "" {
				ok, k, bad = true, "panic", pn
			}
			if !ok && bad == "" {
				return
			}
			h := append(append([]string(nil), hist...), fmt.Sprintf("%d× %s", i, o.Name))
			left := len(s.Phases) - ph - 1
			isRep := false
			for _, r := range reps {
				isRep = isRep || r == i
			}
			if !isRep {
				left = 0
			}
			var hk key128
			fresh, expand := false, false
			if bad == "" {
				hk = hashKey(s.Key(nx))
				fresh, expand = visit(hk, left)
			}
			mu.Lock()
			trans++
			mu.Unlock()
			if bad == "" && fresh && s.Check != nil {
				if pn := Guard(func() { k, bad = s.Check(nx) }); pn != "" {
					k, bad = "panic", pn
				}
			}
			if bad != "" {
				if k == "" {
					k = "mismatch"
				}
				c.Fail(k, fmt.Sprintf("%s: %s after %s ; %s", s.Label, bad, name, strings.Join(h, " ; ")), append([]string{"init:" + name}, h...))
				return
			}
			if left > 0 && expand {
				for no := range s.Phases[ph+1].Ops {
					walk(name, h, nx, ph+1, no)
				}
			}
			if hk == last {
				return
			}
			last = hk
			n = nx
			c.Beat()
		}
	}
	done := c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		walk(s.Init[j.init].Name, nil, s.Init[j.init].N, 0, j.op)
	})
	if done < len(jobs) || c.Expired() {
		c.Partial("%s: time budget reached", s.Label)
	}
	c.States.Add(states)
	c.Transitions.Add(trans)
	c.Traces.Add(trans)
	c.Evals.Add(trans)
	var ph []string
	for _, p := range s.Phases {
		ph = append(ph, fmt.Sprintf("%d operations up to %d times", len(p.Ops), p.Reps[len(p.Reps)-1]))
	}
	c.Part("%s: runs of %s from %d initial states, %d states, %d transitions", s.Label, strings.Join(ph, " then "), len(s.Init), states, trans)
}
