package sim

import "sort"

// LinOp is the interval of one completed operation, in event sequence numbers.
type LinOp struct{ Call, Ret int64 }

type linKey[S comparable] struct {
	done [3]uint64
	st   S
}

// Linearizable searches for an order of the operations that respects their
// intervals and that step accepts. It reports whether one exists and whether
// the search finished within budget steps. At most 192 operations.
func Linearizable[S comparable](ops []LinOp, init S, step func(st S, op int) (S, bool), budget int) (ok, decided bool) {
	n := len(ops)
	if n > 192 {
		return false, false
	}
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(i, j int) bool { return ops[order[i]].Call < ops[order[j]].Call })
	seen := map[linKey[S]]struct{}{}
	var done [3]uint64
	exhausted := false
	var rec func(st S, left int) bool
	rec = func(st S, left int) bool {
		if left == 0 {
			return true
		}
		k := linKey[S]{done, st}
		if _, dup := seen[k]; dup {
			return false
		}
		seen[k] = struct{}{}
		// An operation may come next if no pending one returned before it was called.
		minRet := int64(1<<62 - 1)
		for _, i := range order {
			if done[i>>6]&(1<<(i&63)) != 0 {
				continue
			}
			if ops[i].Call > minRet {
				break
			}
			if ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for _, i := range order {
			if done[i>>6]&(1<<(i&63)) != 0 {
				continue
			}
			if ops[i].Call > minRet {
				break
			}
			if budget--; budget < 0 {
				exhausted = true
				return false
			}
			ns, ok := step(st, i)
			if !ok {
				continue
			}
			done[i>>6] |= 1 << (i & 63)
			if rec(ns, left-1) {
				return true
			}
			done[i>>6] &^= 1 << (i & 63)
			if exhausted {
				return false
			}
		}
		return false
	}
	r := rec(init, n)
	return r, r || !exhausted
}
