// Package htree simulates goroutines sharing one ctree.Tree (C10).
package htree

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/zzsim/sim"
)

const (
	maxPaths = 8
	maxPtrs  = 20
	maxQ     = 12
	anyPtr   = -2
)

// Op is one operation of an actor. P indexes Plan.Paths, Pat is a pattern.
type Op struct {
	Kind string   `json:"k"`
	P    int      `json:"p,omitempty"`
	V    int      `json:"v,omitempty"`
	Pat  []string `json:"pat,omitempty"`
	Cond int      `json:"c,omitempty"` // delcond, walkdel: remove values with V%3==Cond; 3: all
	H    int      `json:"h,omitempty"` // hval, hupd: which of the actor's handles
}

type Plan struct {
	Paths  [][]string `json:"paths"`
	Init   []int      `json:"init"` // paths added before the actors start
	Actors [][]Op     `json:"actors"`
}

var H = &sim.Harness{Name: "tree", Gen: gen, New: func() any { return &Plan{} }, Exec: exec, Steps: 700, MaxStep: 400000}

// cell is a value with internal state that its users synchronise themselves,
// as a protobuf message is: the tree stores it and leaves its inside alone.
type cell struct {
	v    int
	uses int32
}

func (c *cell) String() string { return "cell" }

func box(v int) interface{} {
	if sim.RaceEnabled {
		return &cell{v: v}
	}
	return v
}

func unbox(x interface{}) int {
	i, _ := unbox2(x)
	return i
}

func unbox2(x interface{}) (int, bool) {
	if c, ok := x.(*cell); ok {
		atomic.AddInt32(&c.uses, 1)
		return c.v, true
	}
	i, ok := x.(int)
	return i, ok
}

func gen(r *sim.Rand, t sim.Tier) any {
	p := &Plan{}
	alpha := []string{"a", "b", "c"}[:r.Range(1, 3)]
	maxDepth := r.Range(1, 4)
	seen := map[string]bool{}
	for i, n := 0, r.Range(1, 6); i < n; i++ {
		var path []string
		// Extend an existing path's proper prefix half the time: shared branches.
		if len(p.Paths) > 0 && r.P(60) {
			q := p.Paths[r.Intn(len(p.Paths))]
			path = append(path, q[:r.Intn(len(q))]...)
		}
		for len(path) == 0 || (len(path) < maxDepth && r.P(55)) {
			path = append(path, alpha[r.Intn(len(alpha))])
		}
		k := strings.Join(path, "/")
		if seen[k] {
			continue
		}
		// Mostly prefix-free universes; some with conflicting paths.
		conflict := false
		for _, q := range p.Paths {
			if prefix(q, path) || prefix(path, q) {
				conflict = true
			}
		}
		if conflict && r.P(70) {
			continue
		}
		seen[k] = true
		p.Paths = append(p.Paths, path)
	}
	if r.P(6) {
		p.Paths = append(p.Paths, []string{}) // the root itself may be a leaf
	}
	for i := range p.Paths {
		if r.P(40) {
			p.Init = append(p.Init, i)
		}
	}
	// Swarm: each run has its own mix of operations.
	kinds := []string{"add", "get", "leaf", "hupd", "hval", "del", "delcond", "walkdel", "query", "walk", "sorted", "misc"}
	var w []int
	for _, k := range kinds {
		x := r.Intn(4)
		if k == "add" {
			x += 2
		}
		if r.P(35) {
			x = 0
		}
		w = append(w, x)
	}
	val := 100
	na := r.Range(2, 5)
	if t == sim.Thorough && r.P(20) {
		na = r.Range(5, 10)
	}
	maxOps := r.Range(1, 6)
	for a := 0; a < na; a++ {
		var ops []Op
		for i, n := 0, r.Range(1, maxOps); i < n; i++ {
			op := Op{Kind: kinds[r.Weighted(w)], P: r.Intn(len(p.Paths)), H: r.Intn(3), Cond: r.Intn(4)}
			val++
			op.V = val
			switch op.Kind {
			case "del", "delcond", "walkdel", "query":
				op.Pat = pattern(r, p.Paths, alpha)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	return p
}

func pattern(r *sim.Rand, paths [][]string, alpha []string) []string {
	q := append([]string(nil), paths[r.Intn(len(paths))]...)
	if r.P(40) {
		q = q[:r.Intn(len(q)+1)]
	}
	for i := range q {
		if r.P(20) {
			q[i] = "*"
		}
	}
	if r.P(10) {
		q = append(q, "*")
	}
	return q
}

func prefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Match is the query relation: a pattern matches the leaves at or below it; a
// trailing glob also matches the leaf itself.
func match(p, l []string) bool {
	if len(p) == 0 {
		return true
	}
	if len(l) == 0 {
		return len(p) == 1 && p[0] == "*"
	}
	if p[0] == "*" || p[0] == l[0] {
		return match(p[1:], l[1:])
	}
	return false
}

type seenLeaf struct {
	path string
	ptr  *ctree.Leaf
	val  int
}

type rec struct {
	actor     int
	op        Op
	call, ret int64
	err       bool
	val       int // -1: nil
	ptr       *ctree.Leaf
	leaves    []seenLeaf
	deleted   []string
	vals      []int
	vals2     []int // values the condition accepted
}

func exec(s *sim.Run, pl any) {
	p := pl.(*Plan)
	if len(p.Paths) == 0 || len(p.Paths) > maxPaths {
		return
	}
	tr := &ctree.Tree{}
	var recs [][]rec
	var pre []rec
	for n, i := range p.Init {
		if i < 0 || i >= len(p.Paths) {
			return
		}
		r := rec{actor: -1, op: Op{Kind: "add", P: i, V: n + 1}, call: s.Seq()}
		r.err = tr.Add(p.Paths[i], box(n+1)) != nil
		s.Y()
		r.ret = s.Seq()
		s.Y()
		pre = append(pre, r)
	}
	extended := make([]bool, len(p.Paths))
	for i := range p.Paths {
		for j := range p.Paths {
			if i != j && prefix(p.Paths[i], p.Paths[j]) {
				extended[i] = true
			}
		}
	}
	recs = make([][]rec, len(p.Actors)+1)
	for a := range p.Actors {
		a := a
		s.Go(func() {
			var handles []*ctree.Leaf
			for _, op := range p.Actors[a] {
				if op.P < 0 || op.P >= len(p.Paths) {
					continue
				}
				path := p.Paths[op.P]
				r := rec{actor: a, op: op}
				s.Y()
				r.call = s.Seq()
				visit := func(pp []string, l *ctree.Leaf, v interface{}) error {
					r.leaves = append(r.leaves, seenLeaf{strings.Join(pp, "/"), l, unbox(v)})
					return nil
				}
				cond := func(v interface{}) bool {
					ok := op.Cond >= 3 || unbox(v)%3 == op.Cond
					if ok {
						r.vals2 = append(r.vals2, unbox(v))
					}
					return ok
				}
				var err error
				switch op.Kind {
				case "add":
					err = tr.Add(path, box(op.V))
				case "get":
					r.val = toInt(tr.GetLeafValue(path))
				case "leaf":
					if extended[op.P] || len(path) == 0 {
						continue // GetLeaf may return a branch; the root node is always there
					}
					l := tr.GetLeaf(path)
					r.ptr = l
					if l != nil {
						handles = append(handles, l)
					}
				case "hval", "hupd":
					if len(handles) == 0 {
						continue
					}
					r.ptr = handles[op.H%len(handles)]
					if op.Kind == "hval" {
						r.val = toInt(r.ptr.Value())
					} else {
						r.ptr.Update(box(op.V))
					}
				case "del":
					r.deleted = join(tr.Delete(op.Pat))
				case "delcond":
					r.deleted = join(tr.DeleteConditional(op.Pat, cond))
				case "walkdel":
					tr.WalkDeleted(op.Pat, cond, func(v interface{}) { r.vals = append(r.vals, unbox(v)) })
				case "query":
					err = tr.Query(op.Pat, visit)
				case "walk":
					err = tr.Walk(visit)
				case "sorted":
					err = tr.WalkSorted(visit)
					for i := 1; i < len(r.leaves); i++ {
						x, y := strings.Split(r.leaves[i-1].path, "/"), strings.Split(r.leaves[i].path, "/")
						if !less(x, y) {
							s.Fail("walk-order", "WalkSorted reported %v after %v", r.leaves[i].path, r.leaves[i-1].path)
						}
					}
				case "misc":
					// No judged result: these must not race, deadlock or panic.
					tr.IsBranch()
					for _, k := range sim.SortedKeys(tr.Children()) {
						c := tr.Get([]string{k})
						c.IsBranch()
						c.Children()
						c.Value()
					}
					if !sim.RaceEnabled {
						_ = tr.String() // shows the inside of values on purpose
					}
					if n := tr.Get(path[:max(0, len(path)-1)]); n != nil {
						n.Query([]string{"*"}, func([]string, *ctree.Leaf, interface{}) error { return nil })
						n.Walk(func([]string, *ctree.Leaf, interface{}) error { return errStop })
					}
					continue
				default:
					continue
				}
				r.err = err != nil
				s.Y()
				r.ret = s.Seq()
				s.Logf("%v", r.str(p))
				recs[a] = append(recs[a], r)
			}
		})
	}
	s.Join()
	s.Y()
	fin := rec{actor: len(p.Actors), op: Op{Kind: "query"}, call: s.Seq()}
	tr.Query(nil, func(pp []string, l *ctree.Leaf, v interface{}) error {
		fin.leaves = append(fin.leaves, seenLeaf{strings.Join(pp, "/"), l, unbox(v)})
		return nil
	})
	s.Y()
	fin.ret = s.Seq()
	recs[len(p.Actors)] = []rec{fin}
	s.Logf("final %v", fin.str(p))
	var all []rec
	all = append(all, pre...)
	for _, l := range recs {
		all = append(all, l...)
	}
	if len(p.Actors) > 1 && len(all) > 3 {
		s.NonTrivial()
	}
	if s.Failed() {
		return
	}
	judge(s, p, all)
}

var errStop = errors.New("stop")

func less(a, b []string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func toInt(v interface{}) int {
	if v == nil {
		return -1
	}
	if i, ok := unbox2(v); ok {
		return i
	}
	return -2
}

func join(ps [][]string) []string {
	var out []string
	for _, q := range ps {
		out = append(out, strings.Join(q, "/"))
	}
	return out
}

func (r rec) str(p *Plan) string {
	b := fmt.Sprintf("a%d [%d,%d] %s", r.actor, r.call, r.ret, r.op.Kind)
	switch r.op.Kind {
	case "add":
		b += fmt.Sprintf(" %s=%d err=%v", strings.Join(p.Paths[r.op.P], "/"), r.op.V, r.err)
	case "get":
		b += fmt.Sprintf(" %s -> %d", strings.Join(p.Paths[r.op.P], "/"), r.val)
	case "leaf":
		b += fmt.Sprintf(" %s found=%v", strings.Join(p.Paths[r.op.P], "/"), r.ptr != nil)
	case "hval":
		b += fmt.Sprintf(" -> %d", r.val)
	case "hupd":
		b += fmt.Sprintf(" =%d", r.op.V)
	case "del":
		b += fmt.Sprintf(" %v removed %v", r.op.Pat, sorted(r.deleted))
	case "delcond":
		b += fmt.Sprintf(" %v c%d removed %v (accepted %v)", r.op.Pat, r.op.Cond, sorted(r.deleted), sortedI(r.vals2))
	case "walkdel":
		b += fmt.Sprintf(" %v c%d removed %v (accepted %v)", r.op.Pat, r.op.Cond, sortedI(r.vals), sortedI(r.vals2))
	case "query", "walk", "sorted":
		var x []string
		for _, l := range r.leaves {
			x = append(x, fmt.Sprintf("%s=%d", l.path, l.val))
		}
		b += fmt.Sprintf(" %v -> %v", r.op.Pat, sorted(x))
	}
	return b
}

func sorted(x []string) []string { y := append([]string(nil), x...); sort.Strings(y); return y }
func sortedI(x []int) []int      { y := append([]int(nil), x...); sort.Ints(y); return y }

// state is the model: a map from paths to nodes with values, the values of
// nodes that handles refer to, and which node each handle (pointer) is.
type state struct {
	node  [maxPaths]int16 // 0: absent
	val   [maxPaths]int16
	bind  [maxPtrs]int16 // pointer -> node, 0: not seen yet
	dval  [maxPtrs]int16 // value of the node when it is no longer in the tree
	epoch int16          // number of deletes so far
	qep   [maxQ]int16    // epoch+1 in which a query began; 0: not begun
}

type mop struct {
	kind string // add, get, leaf, hval, hupd, del, read
	r    *rec
	id   int
	path int
	ptr  int // index or -1
	val  int
	q    int // query index of a read
}

func judge(s *sim.Run, p *Plan, all []rec) {
	idx := map[string]int{}
	for i, q := range p.Paths {
		idx[strings.Join(q, "/")] = i
	}
	ptrs := map[*ctree.Leaf]int{}
	ptrOf := func(l *ctree.Leaf) int {
		if l == nil {
			return -1
		}
		if i, ok := ptrs[l]; ok {
			return i
		}
		ptrs[l] = len(ptrs)
		return ptrs[l]
	}
	history := func() string {
		var b strings.Builder
		for i := range all {
			fmt.Fprintln(&b, all[i].str(p))
		}
		return b.String()
	}
	hupd := false
	for i := range all {
		if all[i].op.Kind == "hupd" {
			hupd = true
		}
	}
	var ops []mop
	var iv []sim.LinOp
	add := func(m mop) {
		ops = append(ops, m)
		iv = append(iv, sim.LinOp{Call: m.r.call, Ret: m.r.ret})
	}
	nq := 0
	deletes := 0
	for i := range all {
		r := &all[i]
		m := mop{kind: r.op.Kind, r: r, id: i + 1, path: r.op.P, ptr: -1, val: r.op.V}
		switch r.op.Kind {
		case "add":
			add(m)
			if r.err {
				s.Probe("add_refused")
			}
		case "get":
			m.val = r.val
			if hupd {
				// Get and Value are two steps: with handle updates around, a value
				// written through a handle after the leaf was removed may be seen.
				continue
			}
			add(m)
		case "leaf":
			m.ptr = ptrOf(r.ptr)
			add(m)
		case "hval", "hupd":
			m.ptr = ptrOf(r.ptr)
			if r.op.Kind == "hval" {
				m.val = r.val
			}
			add(m)
		case "del", "delcond", "walkdel":
			m.kind = "del"
			seen := map[string]bool{}
			for _, d := range r.deleted {
				if seen[d] {
					s.Fail("delete-twice", "one delete returned %q twice\n%s", d, history())
				}
				seen[d] = true
				if _, ok := idx[d]; !ok {
					s.Fail("delete-unknown", "a delete returned %q, which was never added\n%s", d, history())
					return
				}
			}
			if len(r.deleted)+len(r.vals) > 0 {
				deletes++
			}
			add(m)
		case "query", "walk", "sorted":
			got := map[int]*seenLeaf{}
			for j := range r.leaves {
				l := &r.leaves[j]
				k, ok := idx[l.path]
				if !ok {
					s.Fail("query-unknown", "a query reported %q, which was never added\n%s", l.path, history())
					return
				}
				if got[k] != nil {
					s.Fail("query-twice", "one query reported %q twice\n%s", l.path, history())
					return
				}
				got[k] = l
				if !match(r.op.Pat, p.Paths[k]) {
					s.Fail("query-mismatch", "query %v reported %q\n%s", r.op.Pat, l.path, history())
					return
				}
			}
			for k := range p.Paths {
				if !match(r.op.Pat, p.Paths[k]) {
					continue
				}
				m := mop{kind: "read", r: r, id: i + 1, path: k, ptr: -1, val: -1, q: nq}
				if l := got[k]; l != nil {
					m.val = l.val
					m.ptr = ptrOf(l.ptr)
					if len(p.Paths[k]) == 0 {
						m.ptr = anyPtr // the root keeps its node whatever it holds
					}
				}
				add(m)
			}
			nq++
		}
	}
	if len(ptrs) > maxPtrs || nq > maxQ || len(ops) > 120 {
		s.Count("history_too_long", 1)
		return
	}
	if deletes > 0 {
		s.Probe("delete_removed_leaves")
	}
	if hupd {
		s.Probe("handle_update")
	}
	s.Count("operations", len(ops))
	step := func(st state, i int) (state, bool) {
		m := &ops[i]
		switch m.kind {
		case "add":
			conflict := false
			for j := range p.Paths {
				if st.node[j] != 0 && j != m.path && (prefix(p.Paths[j], p.Paths[m.path]) || prefix(p.Paths[m.path], p.Paths[j])) {
					conflict = true
				}
			}
			if m.r.err {
				return st, conflict
			}
			if conflict {
				return st, false
			}
			if st.node[m.path] == 0 {
				st.node[m.path] = int16(m.id)
			}
			st.val[m.path] = int16(m.val)
			return st, true
		case "get":
			if st.node[m.path] == 0 {
				return st, m.val == -1
			}
			return st, m.val == int(st.val[m.path])
		case "leaf", "read":
			if m.kind == "read" {
				if st.qep[m.q] == 0 {
					st.qep[m.q] = st.epoch + 1
				} else if st.qep[m.q] != st.epoch+1 {
					return st, false
				}
			}
			if m.ptr == -1 {
				return st, st.node[m.path] == 0
			}
			n := st.node[m.path]
			if m.ptr == anyPtr {
				return st, n != 0 && int(st.val[m.path]) == m.val
			}
			if n == 0 || (m.kind == "read" && int(st.val[m.path]) != m.val) {
				return st, false
			}
			if st.bind[m.ptr] != 0 {
				return st, st.bind[m.ptr] == n
			}
			for _, b := range st.bind {
				if b == n {
					return st, false
				}
			}
			st.bind[m.ptr] = n
			return st, true
		case "hval", "hupd":
			n := st.bind[m.ptr]
			if n == 0 {
				return st, false
			}
			for j := range st.node {
				if st.node[j] == n {
					if m.kind == "hval" {
						return st, int(st.val[j]) == m.val
					}
					st.val[j] = int16(m.val)
					return st, true
				}
			}
			if m.kind == "hval" {
				return st, int(st.dval[m.ptr]) == m.val
			}
			st.dval[m.ptr] = int16(m.val)
			return st, true
		case "del":
			r := m.r
			n := 0
			for j := range p.Paths {
				if st.node[j] == 0 || !match(r.op.Pat, p.Paths[j]) {
					continue
				}
				v := int(st.val[j])
				if r.op.Kind != "del" && r.op.Cond < 3 && v%3 != r.op.Cond {
					continue
				}
				n++
				if r.op.Kind == "walkdel" {
					if !hasI(r.vals, v) {
						return st, false
					}
				} else if !has(r.deleted, strings.Join(p.Paths[j], "/")) {
					return st, false
				}
				if r.op.Kind != "del" && !hasI(r.vals2, v) {
					return st, false
				}
				for h, b := range st.bind {
					if b == st.node[j] {
						st.dval[h] = st.val[j]
					}
				}
				st.node[j], st.val[j] = 0, 0
			}
			if n > 0 {
				st.epoch++
			}
			if r.op.Kind == "walkdel" {
				return st, n == len(r.vals)
			}
			return st, n == len(r.deleted)
		}
		return st, false
	}
	ok, decided := sim.Linearizable(iv, state{}, step, 60000)
	if !decided {
		s.Count("lin_undecided", 1)
		return
	}
	if !ok {
		s.Fail("tree-history", "no sequential order explains these results:\n%s", history())
	}
}

func has(x []string, v string) bool {
	for _, y := range x {
		if y == v {
			return true
		}
	}
	return false
}

func hasI(x []int, v int) bool {
	for _, y := range x {
		if y == v {
			return true
		}
	}
	return false
}
