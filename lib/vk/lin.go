package vk

import (
	"sort"
	"strings"
)

// LinOp is one completed operation of a concurrent history.
type LinOp struct {
	Thread    int
	Op        string
	Out       string
	Call, Ret int
}

// Linearizable decides whether the history can be explained by executing the
// operations one after another in an order consistent with real time, by
// complete search over such orders. final, if not nil, is checked in the last
// state.
func Linearizable(ops []LinOp, init string, step func(state, op string) (next, out string), final func(state string) bool) bool {
	n := len(ops)
	seen := map[string]bool{}
	var rec func(done uint32, st string) bool
	rec = func(done uint32, st string) bool {
		if done == 1<<n-1 {
			return final == nil || final(st)
		}
		k := st + "\x00" + string(rune(done))
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := 1 << 30
		for i, o := range ops {
			if done&(1<<i) == 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			if done&(1<<i) != 0 || o.Call > minRet {
				continue
			}
			next, out := step(st, o.Op)
			if out == o.Out && rec(done|1<<i, next) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

// History renders a history for a report.
func History(ops []LinOp) string {
	o := append([]LinOp(nil), ops...)
	sort.Slice(o, func(i, j int) bool { return o[i].Call < o[j].Call })
	var b strings.Builder
	for _, x := range o {
		b.WriteString(" [")
		b.WriteString(string(rune('A' + x.Thread)))
		b.WriteString(":")
		b.WriteString(x.Op)
		b.WriteString("=")
		b.WriteString(x.Out)
		b.WriteString("]")
	}
	return b.String()
}
