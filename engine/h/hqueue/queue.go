// Package hqueue simulates many producers, one consumer, a closer and
// cancellation on coalesce.Queue (C11).
package hqueue

import (
	"context"
	"fmt"
	"sort"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/openconfig/gnmi/coalesce"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// Op is one step of an actor.
type Op struct {
	Kind  string `json:"k"` // ins, close, sleep, len, isclosed
	Item  int    `json:"i,omitempty"`
	Sleep int    `json:"ms,omitempty"`
}

// Next is one consumer call.
type Next struct {
	// Cancel: 0 never; 1 already cancelled; 2 by the canceller actor; 3 deadline after Ms.
	Cancel int `json:"c,omitempty"`
	Ms     int `json:"ms,omitempty"`
	Pause  int `json:"p,omitempty"` // sleep before the call
}

type Plan struct {
	// Pending is what the queue holds when the run starts: [item, insertions].
	Pending [][2]int `json:"pending,omitempty"`
	Actors  [][]Op   `json:"actors"`
	Nexts   []Next   `json:"nexts"`
	// CancelAt: when (ms) the canceller cancels; the context is shared by all Cancel==2 calls.
	CancelAt int   `json:"cancel_at"`
	CancelY  int   `json:"cancel_y"` // preemption points the canceller passes first
	Checks   []int `json:"checks"`
	Ptr      bool  `json:"ptr"` // items are pointers, as the server uses them
}

var H = &sim.Harness{Name: "queue", Gen: gen, New: func() any { return &Plan{} }, Exec: exec, Steps: 400, MaxStep: 4000000, Skip: true}

func gen(r *sim.Rand, t sim.Tier) any {
	p := &Plan{Ptr: r.P(30)}
	na := r.Range(1, 4)
	alpha := r.Range(1, 4)
	maxOps := r.Range(1, 6)
	sleepy := r.P(40)
	closePct := sim.Pick(r, 0, 5, 15)
	for a := 0; a < na; a++ {
		var ops []Op
		for i, n := 0, r.Range(1, maxOps); i < n; i++ {
			switch k := r.Intn(100); {
			case k < closePct:
				ops = append(ops, Op{Kind: "close"})
			case k < closePct+6:
				ops = append(ops, Op{Kind: "len"})
			case k < closePct+9:
				ops = append(ops, Op{Kind: "isclosed"})
			case sleepy && k < closePct+30:
				ops = append(ops, Op{Kind: "sleep", Sleep: r.Range(1, 5)})
			default:
				ops = append(ops, Op{Kind: "ins", Item: r.Intn(alpha)})
			}
		}
		p.Actors = append(p.Actors, ops)
	}
	if r.P(30) {
		p.Actors = append(p.Actors, []Op{{Kind: "sleep", Sleep: r.Intn(6)}, {Kind: "close"}})
	}
	for i, n := 0, r.Range(0, 14); i < n; i++ {
		nx := Next{}
		if r.P(20) {
			nx.Cancel = r.Range(1, 3)
			nx.Ms = r.Range(0, 5)
		}
		if r.P(15) {
			nx.Pause = r.Range(1, 5)
		}
		p.Nexts = append(p.Nexts, nx)
	}
	p.CancelAt = r.Range(0, 6)
	p.CancelY = r.Intn(20)
	for i, n := 0, r.Intn(3); i < n; i++ {
		p.Checks = append(p.Checks, r.Range(1, 4))
	}
	switch k := r.Intn(1000); {
	case k < 2:
		p.Pending = [][2]int{{r.Intn(alpha), 1<<16 + r.Intn(3)}}
	case k < 30:
		p.Pending = [][2]int{{r.Intn(alpha), sim.Pick(r, 1<<8, 1<<10, 1<<12) + r.Intn(3)}}
	case k < 80:
		for i, n := 0, sim.Pick(r, 5, 9, 17, 34, 34, 68, 132); i < n; i++ {
			p.Pending = append(p.Pending, [2]int{i, sim.Pick(r, 1, 1, 1, 2)})
		}
	}
	return p
}

type rec struct {
	client     int
	kind       string
	item       int
	call, ret  int64
	ok         bool
	dup        uint32
	err        string // "", closed, ctx, other
	n          int
	cancelled  bool // the context was cancelled before the call returned
	overlapped bool // overlaps the first Close
}

func (r rec) String() string {
	return fmt.Sprintf("c%d %s(%d)@[%d,%d] ok=%v dup=%d n=%d err=%q", r.client, r.kind, r.item, r.call, r.ret, r.ok, r.dup, r.n, r.err)
}

func exec(s *sim.Run, pl any) {
	p := pl.(*Plan)
	q := coalesce.NewQueue()
	items := make([]interface{}, 256)
	for i := range items {
		if p.Ptr {
			v := new(int)
			*v = i
			items[i] = v
		} else {
			items[i] = i
		}
	}
	indexOf := func(x interface{}) int {
		switch v := x.(type) {
		case int:
			return v
		case *int:
			return *v
		}
		return -1
	}
	var all [][]rec
	cctx, cancel := context.WithCancel(context.Background())
	cancelledAt := int64(-1)
	s.Go(func() {
		time.Sleep(time.Duration(p.CancelAt) * time.Millisecond)
		for i := 0; i < p.CancelY; i++ {
			s.Y()
		}
		cancelledAt = s.Seq()
		cancel()
		s.Fault("context_cancel")
	})
	all = make([][]rec, len(p.Actors)+1)
	var before []rec
	for _, b := range p.Pending {
		if b[1] < 1 || b[1] > 1<<17 || len(p.Pending) > 150 {
			return
		}
		r := rec{client: len(p.Actors) + 2, kind: "ins", item: b[0] & 255, n: b[1], call: s.Seq()}
		s.Atomic(func() {
			for i := 0; i < b[1]; i++ {
				ok, err := q.Insert(items[b[0]&255])
				if i == 0 {
					r.ok = ok
				} else if ok {
					s.Fail("queue-history", "insertion %d of a pending item reports that it was not pending", i+1)
				}
				if err != nil {
					r.err = errName(err)
				}
			}
		})
		s.Y()
		r.ret = s.Seq()
		before = append(before, r)
	}
	for a := range p.Actors {
		a := a
		s.Go(func() {
			for _, op := range p.Actors[a] {
				r := rec{client: a, kind: op.Kind, item: op.Item & 63}
				s.Y()
				r.call = s.Seq()
				switch op.Kind {
				case "ins":
					ok, err := q.Insert(items[op.Item&255])
					r.ok = ok
					r.err = errName(err)
				case "close":
					q.Close()
					s.Fault("queue_close")
				case "len":
					r.n = q.Len()
				case "isclosed":
					r.ok = q.IsClosed()
				case "sleep":
					time.Sleep(time.Duration(op.Sleep) * time.Millisecond)
					continue
				default:
					continue
				}
				s.Y()
				r.ret = s.Seq()
				s.Logf("%v", r)
				all[a] = append(all[a], r)
			}
		})
	}
	// The consumer keeps calling Next: first the planned calls, then without a
	// deadline until it is told the queue is closed.
	inNext, consumerDone := false, false
	var ctxOfNext context.Context
	ci := len(p.Actors)
	delivered := 0
	go func() {
		for i := 0; ; i++ {
			nx := Next{}
			if i < len(p.Nexts) {
				nx = p.Nexts[i]
			}
			if i > 600 {
				s.Fail("endless", "Next returned %d times", i)
				break
			}
			if nx.Pause > 0 {
				time.Sleep(time.Duration(nx.Pause) * time.Millisecond)
			}
			ctx := context.Background()
			var cf context.CancelFunc = func() {}
			switch nx.Cancel {
			case 1:
				ctx, cf = context.WithCancel(ctx)
				cf()
			case 2:
				ctx = cctx
			case 3:
				ctx, cf = context.WithTimeout(ctx, time.Duration(nx.Ms)*time.Millisecond)
			}
			r := rec{client: ci, kind: "next"}
			s.Y()
			r.call = s.Seq()
			inNext, ctxOfNext = true, ctx
			it, dup, err := q.Next(ctx)
			inNext = false
			s.Y()
			r.ret = s.Seq()
			r.dup = dup
			r.err = errName(err)
			if err == nil {
				r.item = indexOf(it)
				delivered++
			} else if ctx.Err() != nil {
				r.cancelled = true
			}
			cf()
			s.Logf("%v", r)
			all[ci] = append(all[ci], r)
			if r.err == "closed" {
				break
			}
			if r.err == "other" {
				s.Fail("next-error", "Next returned an unexpected error: %v", err)
				break
			}
		}
		consumerDone = true
	}()
	// At a quiescent instant a waiting consumer must have nothing to wake it.
	check := func(when string) {
		s.Quiesce()
		s.Atomic(func() {
			if !inNext {
				return
			}
			s.Probe("consumer_waiting_at_check")
			if n := q.Len(); n > 0 {
				s.Fail("lost-wakeup", "%s: the consumer waits in Next although %d items are queued", when, n)
			}
			if q.IsClosed() {
				s.Fail("lost-wakeup", "%s: the consumer waits in Next although the queue is closed", when)
			}
			if ctxOfNext.Err() != nil {
				s.Fail("lost-wakeup", "%s: the consumer waits in Next although its context is cancelled", when)
			}
		})
	}
	for _, ms := range p.Checks {
		time.Sleep(time.Duration(ms) * time.Millisecond)
		check("mid-run")
	}
	s.Join()
	time.Sleep(20 * time.Millisecond)
	check("after the producers finished")
	s.Calm()
	s.Quiesce()
	r := rec{client: ci + 1, kind: "close", call: s.Seq()}
	q.Close()
	s.Y()
	r.ret = s.Seq()
	all = append(all, []rec{r})
	time.Sleep(50 * time.Millisecond)
	check("after Close")
	if !consumerDone && !s.Failed() {
		s.Fail("lost-wakeup", "the consumer did not finish after Close")
	}
	if s.Failed() {
		cancel()
		return
	}
	_ = cancelledAt
	if delivered > 0 && len(p.Actors) > 1 {
		s.NonTrivial()
	}
	judge(s, all, before)
}

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case coalesce.IsClosedQueue(err):
		return "closed"
	case err == context.Canceled || err == context.DeadlineExceeded:
		return "ctx"
	}
	return "other"
}

type ent struct {
	item int
	dup  uint32
}

type state struct {
	q      []ent
	closed bool
}

var model = porcupine.Model{
	Init: func() interface{} { return state{} },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s := st.(state)
		r := in.(rec)
		switch r.kind {
		case "close":
			return true, state{s.q, true}
		case "len":
			return r.n == len(s.q), s
		case "isclosed":
			return r.ok == s.closed, s
		case "ins":
			if r.err == "closed" {
				return s.closed, s
			}
			if r.err != "" {
				return false, s
			}
			// An insertion that overlaps Close may take effect after it.
			if s.closed && !r.overlapped {
				return false, s
			}
			w := uint32(max(r.n, 1))
			nq := append([]ent(nil), s.q...)
			for i := range nq {
				if nq[i].item == r.item {
					nq[i].dup += w
					return !r.ok, state{nq, s.closed}
				}
			}
			return r.ok, state{append(nq, ent{r.item, w - 1}), s.closed}
		case "next":
			switch r.err {
			case "closed":
				return s.closed && len(s.q) == 0, s
			case "ctx":
				return r.cancelled, s
			case "":
				if len(s.q) == 0 || s.q[0].item != r.item || s.q[0].dup != r.dup {
					return false, s
				}
				return true, state{s.q[1:], s.closed}
			}
		}
		return false, s
	},
	Equal: func(a, b interface{}) bool {
		x, y := a.(state), b.(state)
		if x.closed != y.closed || len(x.q) != len(y.q) {
			return false
		}
		for i := range x.q {
			if x.q[i] != y.q[i] {
				return false
			}
		}
		return true
	},
}

func judge(s *sim.Run, all [][]rec, before []rec) {
	var recs []rec
	for _, l := range all {
		recs = append(recs, l...)
	}
	// What was pending before anything ran concurrently is the initial state.
	var init state
	for _, r := range before {
		at := -1
		for i := range init.q {
			if init.q[i].item == r.item {
				at = i
			}
		}
		if r.err != "" || r.ok != (at < 0) {
			s.Fail("queue-history", "insertion into an open queue: %v; was the item pending: %v", r, at >= 0)
			return
		}
		if at < 0 {
			init.q = append(init.q, ent{r.item, uint32(r.n) - 1})
		} else {
			init.q[at].dup += uint32(r.n)
		}
	}
	// There is one consumer: it receives what was pending first, in order.
	k := 0
	for _, r := range recs {
		if r.kind == "next" && r.err == "" && k < len(init.q) {
			if r.item != init.q[k].item {
				s.Fail("queue-history", "item %d was inserted as number %d and the consumer's delivery %d is item %d", init.q[k].item, k+1, k+1, r.item)
				return
			}
			k++
		}
	}
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].call < recs[j].call })
	firstCall, firstRet := int64(1<<62), int64(1<<62)
	for _, r := range recs {
		if r.kind == "close" {
			if r.call < firstCall {
				firstCall = r.call
			}
			if r.ret < firstRet {
				firstRet = r.ret
			}
		}
	}
	var ops []porcupine.Operation
	for i := range recs {
		r := &recs[i]
		if r.kind == "ins" && r.call <= firstRet && r.ret >= firstCall {
			r.overlapped = true
			s.Probe("insert_overlaps_close")
		}
		if r.kind == "ins" && r.err == "closed" {
			s.Probe("insert_refused")
		}
		if r.kind == "next" && r.dup > 0 {
			s.Probe("coalesced_delivery")
		}
		if r.kind == "next" && r.err == "ctx" {
			s.Probe("next_cancelled")
		}
		ops = append(ops, porcupine.Operation{ClientId: r.client, Input: *r, Output: nil, Call: r.call, Return: r.ret})
	}
	if len(ops) > 60+2*len(before) {
		s.Count("history_too_long", 1)
		return
	}
	s.Count("operations", len(ops))
	m := model
	m.Init = func() interface{} { return init }
	steps := 0
	m.Step = func(st, in, out interface{}) (bool, interface{}) {
		if steps++; steps > 3000000 {
			return false, st
		}
		return model.Step(st, in, out)
	}
	if !porcupine.CheckOperations(m, ops) {
		if steps > 3000000 {
			s.Count("history_undecided", 1)
			return
		}
		msg := ""
		for _, r := range recs {
			msg += r.String() + "\n"
		}
		s.Fail("queue-history", "no order of these operations is a coalescing FIFO:\n%s", msg)
	}
}
