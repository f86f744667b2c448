package vk

import (
	"fmt"
	"hash/fnv"
	"strings"
	"sync"
)

// Op is one transition of an explored system. Do executes it on the node (the
// implementation together with its reference model), compares the two, and
// returns the successor. ok=false means the operation is not enabled here.
// A non-empty bad describes a disagreement; key classifies it.
type Op[N any] struct {
	Name string
	Do   func(n N) (next N, ok bool, key, bad string)
}

// Space is a bounded explicit-state exploration of the real implementation in
// lockstep with a reference model.
type Space[N any] struct {
	Label  string
	Init   []Named[N]
	Ops    []Op[N]
	Key    func(n N) string
	Check  func(n N) (key, bad string) // invariant, evaluated in every state
	Depth  int
	Max    int // cap on states (0: none); hitting it is reported as partial
	Sample int
	// Full says that Key covers everything Check looks at, so that Check need
	// not be repeated on a state that was reached before.
	Full bool
}

// Named is an initial state.
type Named[N any] struct {
	Name string
	N    N
}

type node[N any] struct {
	n    N
	hist []int32
	init int32
}

type key128 struct{ a, b uint64 }

func hashKey(s string) key128 {
	h := fnv.New128a()
	h.Write([]byte(s))
	var b [16]byte
	h.Sum(b[:0])
	var k key128
	for i := 0; i < 8; i++ {
		k.a = k.a<<8 | uint64(b[i])
		k.b = k.b<<8 | uint64(b[8+i])
	}
	return k
}

func (s *Space[N]) names(nd *node[N], last int) []string {
	var out []string
	if s.Init[nd.init].Name != "" {
		out = append(out, "init:"+s.Init[nd.init].Name)
	}
	for _, i := range nd.hist {
		out = append(out, s.Ops[i].Name)
	}
	if last >= 0 {
		out = append(out, s.Ops[last].Name)
	}
	return out
}

// Run explores the space breadth first, level by level, in parallel.
func (s *Space[N]) Run(c *C) {
	seen := map[key128]struct{}{}
	var level []*node[N]
	states := int64(0)
	trans := int64(0)
	add := func(nd *node[N]) {
		if s.Check != nil {
			k, bad := "", ""
			if p := Guard(func() { k, bad = s.Check(nd.n) }); p != "" {
				k, bad = "panic", p
			}
			if bad != "" {
				c.Fail(k, fmt.Sprintf("%s: %s after %s", s.Label, bad, strings.Join(s.names(nd, -1), " ; ")), s.names(nd, -1))
				return
			}
		}
		level = append(level, nd)
	}
	for i := range s.Init {
		nd := &node[N]{n: s.Init[i].N, init: int32(i)}
		k := hashKey(s.Key(nd.n))
		if _, dup := seen[k]; dup {
			continue
		}
		seen[k] = struct{}{}
		states++
		add(nd)
	}
	depth := 0
	truncated := false
	for depth = 0; depth < s.Depth && len(level) > 0 && !truncated; depth++ {
		if c.Expired() {
			c.Partial("%s: time budget reached at depth %d of %d (%d states waiting)", s.Label, depth, s.Depth, len(level))
			break
		}
		cur := level
		level = nil
		type succ struct {
			nd *node[N]
			k  key128
		}
		var mu sync.Mutex
		chunk := max(1, min(64, len(cur)/64))
		nchunks := (len(cur) + chunk - 1) / chunk
		results := make([][]succ, nchunks)
		done := c.Parallel(nchunks, func(ci int) {
			var out []succ
			var nt int64
			local := map[key128]struct{}{}
			for idx := ci * chunk; idx < (ci+1)*chunk && idx < len(cur); idx++ {
				nd := cur[idx]
				for oi := range s.Ops {
					var nx N
					var ok bool
					var k, bad string
					if p := Guard(func() { nx, ok, k, bad = s.Ops[oi].Do(nd.n) }); p != "" {
						ok, k, bad = true, "panic", p
					}
					if !ok && bad == "" {
						continue
					}
					nt++
					var hk key128
					if bad == "" && s.Full {
						hk = hashKey(s.Key(nx))
						if _, dup := seen[hk]; dup {
							continue
						}
						if _, dup := local[hk]; dup {
							continue
						}
					}
					if bad == "" && s.Check != nil {
						if p := Guard(func() { k, bad = s.Check(nx) }); p != "" {
							k, bad = "panic", p
						}
					}
					if bad != "" {
						if k == "" {
							k = "mismatch"
						}
						c.Fail(k, fmt.Sprintf("%s: %s after %s", s.Label, bad, strings.Join(s.names(nd, oi), " ; ")), s.names(nd, oi))
						continue
					}
					if !s.Full {
						hk = hashKey(s.Key(nx))
						if _, dup := local[hk]; dup {
							continue
						}
					}
					local[hk] = struct{}{}
					h := make([]int32, len(nd.hist)+1)
					copy(h, nd.hist)
					h[len(nd.hist)] = int32(oi)
					out = append(out, succ{&node[N]{n: nx, hist: h, init: nd.init}, hk})
				}
				c.Beat()
			}
			results[ci] = out
			mu.Lock()
			trans += nt
			mu.Unlock()
		})
		if done < nchunks {
			c.Partial("%s: time budget reached in depth %d of %d", s.Label, depth+1, s.Depth)
			truncated = true
		}
		for _, rs := range results {
			for _, r := range rs {
				if _, dup := seen[r.k]; dup {
					continue
				}
				if s.Max > 0 && states >= int64(s.Max) {
					if !truncated {
						c.Partial("%s: state cap %d reached at depth %d of %d", s.Label, s.Max, depth+1, s.Depth)
					}
					truncated = true
					break
				}
				seen[r.k] = struct{}{}
				states++
				if s.Sample > 0 && states%int64(s.Sample) == 0 {
					c.Sample(map[string]any{"space": s.Label, "trace": s.names(r.nd, -1)})
				}
				level = append(level, r.nd)
			}
		}
		if c.FailCount() >= 30 {
			break
		}
	}
	fix := ""
	if len(level) == 0 && !truncated {
		fix = " (fixpoint: all reachable states)"
	}
	c.States.Add(states)
	c.Transitions.Add(trans)
	c.Traces.Add(trans)
	c.Evals.Add(trans)
	c.Part("%s: depth %d, %d states, %d transitions, %d operations%s", s.Label, depth, states, trans, len(s.Ops), fix)
}
