package hfake

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"slices"
	"strconv"
	"strings"
	"time"

	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/proto"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	fgnmi "github.com/openconfig/gnmi/testing/fake/gnmi"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
	"github.com/openconfig/gnmi/testing/fake/queue"
	_ "github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/sim"
)

func name(i int) string { return "n" + strconv.Itoa(i) }

func index(path []string) int {
	if len(path) == 2 && path[0] == "v" && strings.HasPrefix(path[1], "n") {
		if i, err := strconv.Atoi(path[1][1:]); err == nil {
			return i
		}
	}
	return -1
}

type world struct {
	s    *sim.Run
	p    *Plan
	cfg  *fpb.Config
	seqs map[string]*seq // complete or partial sequence per group of identical generators
}

type seq struct {
	keys  []string
	ended bool
	by    string
}

// judge follows one emitted sequence.
type judge struct {
	w       *world
	who     string
	keys    []string
	n       []int // emissions per value
	ts      []int64
	last    int64
	any     bool
	syncs   int
	at      int // emissions at the present timestamp
	perTS   []int
	plainSy bool // sync values cannot be told from the marker (responses)
	marker  bool
	off     bool
}

func (w *world) judge(who string, responses, marker bool) *judge {
	k := len(w.p.Vals)
	return &judge{w: w, who: who, n: make([]int, k), ts: make([]int64, k), perTS: make([]int, k), plainSy: responses, marker: marker}
}

func (j *judge) fail(class, format string, a ...any) {
	j.w.s.Fail(class, "%s: emission %d: %s", j.who, len(j.keys), fmt.Sprintf(format, a...))
}

// emit judges one emission: i is the configured value, or -1 for the sync
// marker (or any sync, in responses).
func (j *judge) emit(i int, ts int64, hasTS bool, v any) {
	w, p := j.w, j.w.p
	if w.s.Failed() {
		return
	}
	key := fmt.Sprintf("%d@%d=%v", i, ts, v)
	j.keys = append(j.keys, key)
	if j.off {
		return
	}
	w.s.Logf("%s %s", j.who, key)
	if i < -1 || i >= len(p.Vals) {
		j.fail("unknown", "%s is no configured value", key)
		return
	}
	if hasTS {
		if j.any && ts < j.last {
			j.fail("order", "timestamp %d after %d", ts, j.last)
			return
		}
		if !j.any || ts != j.last {
			clear(j.perTS)
		}
		j.any, j.last = true, ts
		for k := range p.Vals {
			if j.plainSy && p.Vals[k].Kind == "sync" {
				continue
			}
			if c := &p.Vals[k]; c.valid() && k != i && (c.Repeat <= 0 || j.n[k] < int(c.Repeat)) {
				late := c.t()
				if j.n[k] > 0 {
					if late = j.ts[k] + c.max(); late < j.ts[k] {
						late = math.MaxInt64
					}
				}
				if late < ts {
					j.fail("overdue", "%s: value %d (%d emitted, repeat %d) was due at %d at the latest", key, k, j.n[k], c.Repeat, late)
					return
				}
			}
		}
	}
	if i == -1 {
		j.syncs++
		if j.marker && !j.plainSy && j.syncs > 1 {
			j.fail("marker", "second sync marker")
		}
		confSync := 0
		for k := range p.Vals {
			if p.Vals[k].Kind == "sync" {
				confSync++
			}
		}
		if !j.plainSy || confSync == 0 {
			if !j.marker {
				j.fail("marker", "a sync marker, which the configuration disables")
			}
			if j.syncs > 1 {
				j.fail("marker", "second sync marker")
			}
			for k := range p.Vals {
				if j.n[k] == 0 {
					j.fail("marker", "sync marker before the first emission of value %d", k)
				}
			}
			w.s.Probe("marker_judged")
		}
		return
	}
	c := &p.Vals[i]
	j.n[i]++
	j.perTS[i]++
	// A value whose timestamp cannot advance must not keep others of the same timestamp waiting for ever.
	if j.perTS[i] > 60 {
		for k := range p.Vals {
			d := &p.Vals[k]
			if k != i && d.valid() && (d.Repeat <= 0 || j.n[k] < int(d.Repeat)) && j.perTS[k] == 0 &&
				(j.n[k] == 0 && d.t() == ts || j.n[k] > 0 && j.ts[k]+d.max() == ts) && !(j.plainSy && d.Kind == "sync") {
				j.fail("starved", "value %d was emitted %d times at %d while value %d, due then, was not", i, j.perTS[i], ts, k)
				return
			}
		}
	}
	if c.Repeat > 0 && j.n[i] > int(c.Repeat) {
		j.fail("repeat", "value %d was emitted %d times, repeat is %d", i, j.n[i], c.Repeat)
		return
	}
	if j.n[i] == 1 {
		if !c.NoTS && ts != c.T {
			j.fail("first", "value %d starts at %d, configured at %d", i, ts, c.T)
		}
		if want := c.first(); !equal(v, want) {
			j.fail("first", "value %d starts with %v, configured with %v", i, v, want)
		}
	} else {
		w.s.NonTrivial()
		if st := ts - j.ts[i]; st < c.min() || st > c.max() {
			j.fail("step", "value %d: timestamp step %d is not in [%d, %d]", i, st, c.min(), c.max())
		}
		if !c.within(v) {
			j.fail("bounds", "value %d: %v is outside %+v", i, v, *c)
		}
		if c.Dist != "" {
			w.s.Probe("generated")
		}
	}
	j.ts[i] = ts
}

// end judges a sequence that ended by itself.
func (j *judge) end() {
	if j.off || j.w.s.Failed() {
		return
	}
	for k := range j.w.p.Vals {
		c := &j.w.p.Vals[k]
		if c.Kind == "sync" && j.plainSy {
			continue
		}
		if c.Repeat <= 0 {
			j.fail("repeat", "ended, but value %d is unbounded", k)
		} else if j.n[k] != int(c.Repeat) {
			j.fail("repeat", "ended, value %d was emitted %d times, repeat is %d", k, j.n[k], c.Repeat)
		}
	}
	want := 0
	if j.marker {
		want = 1
	}
	if j.plainSy {
		for k := range j.w.p.Vals {
			if c := &j.w.p.Vals[k]; c.Kind == "sync" {
				want += int(c.Repeat)
			}
		}
	}
	if j.syncs != want {
		j.fail("marker", "ended with %d sync markers, expected %d", j.syncs, want)
	}
	j.w.s.Probe("ended")
}

// same compares the sequence with the others of its group.
func (j *judge) same(group string, ended bool) {
	w := j.w
	if j.off || w.s.Failed() {
		return
	}
	o := w.seqs[group]
	if o == nil {
		w.seqs[group] = &seq{keys: j.keys, ended: ended, by: j.who}
		return
	}
	n := min(len(o.keys), len(j.keys))
	for i := 0; i < n; i++ {
		if o.keys[i] != j.keys[i] {
			w.s.Fail("reproducible", "%s and %s have the same configuration and seed, emission %d is %s and %s", o.by, j.who, i+1, o.keys[i], j.keys[i])
			return
		}
	}
	if o.ended && len(j.keys) > n || ended && len(o.keys) > n || o.ended && ended && len(o.keys) != len(j.keys) {
		w.s.Fail("reproducible", "%s and %s have the same configuration and seed; %d (ended %v) and %d (ended %v) emissions", o.by, j.who, len(o.keys), o.ended, len(j.keys), ended)
		return
	}
	w.s.Probe("sequences_compared")
	if len(j.keys) > len(o.keys) || ended {
		w.seqs[group] = &seq{keys: j.keys, ended: ended, by: j.who}
	}
}

func (v *Val) t() int64 {
	if v.NoTS {
		return math.MaxInt64 // unspecified
	}
	return v.T
}
func (v *Val) min() int64 {
	if v.NoTS {
		return 0
	}
	return v.Min
}
func (v *Val) max() int64 {
	if v.NoTS {
		return 0
	}
	return v.Max
}

func (v *Val) first() any {
	switch v.Kind {
	case "int":
		return v.I[0]
	case "uint":
		return v.U[0]
	case "double":
		return v.F[0]
	case "string":
		return v.S[0]
	case "strlist":
		return append([]string{}, v.S...)
	case "bool":
		return v.I[0] != 0
	case "sync":
		return uint64(v.I[0])
	}
	return nil
}

func equal(a, b any) bool {
	la, ok := a.([]string)
	lb, ok2 := b.([]string)
	if ok && ok2 {
		return slices.Equal(la, lb)
	}
	return a == b
}

// within judges a value after the first one.
func (v *Val) within(x any) bool {
	if v.Dist == "" {
		return equal(x, v.first())
	}
	switch x := x.(type) {
	case int64:
		if v.Kind != "int" {
			return false
		}
		return v.Dist == "range" && x >= v.I[1] && x <= v.I[2] || v.Dist != "range" && slices.Contains(v.Opt, x)
	case uint64:
		if v.Kind != "uint" {
			return false
		}
		return v.Dist == "range" && x >= v.U[1] && x <= v.U[2] || v.Dist != "range" && x <= math.MaxInt64 && slices.Contains(v.Opt, int64(x))
	case float64:
		if v.Kind != "double" {
			return false
		}
		return v.Dist == "range" && x >= v.F[1] && x <= v.F[2] || v.Dist != "range" && x*4 == math.Trunc(x*4) && slices.Contains(v.Opt, int64(x*4))
	case string:
		return v.Kind == "string" && slices.Contains(v.words(), x)
	case bool:
		for _, o := range v.Opt {
			if x == (o%2 == 1) {
				return v.Kind == "bool"
			}
		}
	case []string:
		left := v.words()
		for _, e := range x {
			i := slices.Index(left, e)
			if i < 0 {
				return false
			}
			left = slices.Delete(left, i, i+1)
		}
		return v.Kind == "strlist"
	}
	return false
}

func (w *world) allValid(n int) bool {
	for i := range w.p.Vals {
		if v := &w.p.Vals[i]; !v.valid() || v.overflows(n) {
			return false
		}
	}
	return true
}

// repeatable tells whether generators with this seed must agree.
func (w *world) repeatable(seed int64) bool {
	if seed != 0 {
		return true
	}
	for i := range w.p.Vals {
		if w.p.Vals[i].Seed == 0 {
			return false
		}
	}
	return true
}

func exec(s *sim.Run, plan any) {
	p := plan.(*Plan)
	w := &world{s: s, p: p, seqs: map[string]*seq{}}
	w.cfg = &fpb.Config{Target: "dev", DisableSync: p.NoSync, DisableEof: p.NoEOF, EnableDelay: p.Delay}
	var vals []*fpb.Value
	for i := range p.Vals {
		vals = append(vals, p.Vals[i].build(i))
	}
	switch {
	case p.Fixed != nil:
		f := &fpb.FixedGenerator{Responses: make([]*gpb.SubscribeResponse, 0, len(p.Fixed)+p.Spare)}
		for i, x := range p.Fixed {
			f.Responses = append(f.Responses, x.build(i))
		}
		w.cfg.Generator = &fpb.Config_Fixed{Fixed: f}
	case p.Random:
		w.cfg.Generator = &fpb.Config_Random{Random: &fpb.RandomGenerator{Seed: p.Seed, Values: vals}}
	default:
		w.cfg.Seed, w.cfg.Values = p.Seed, vals
	}
	for gi := range p.Gens {
		g := &p.Gens[gi]
		who := fmt.Sprintf("%s %d", g.Kind, gi)
		s.Go(func() {
			time.Sleep(time.Duration(g.At) * time.Millisecond)
			switch g.Kind {
			case "queue":
				w.queue(who, g, vals)
			case "fixed":
				w.fixed(who, g)
			case "agent":
				w.agent(who, g)
			}
		})
	}
	s.Join()
}

func (x Fix) build(i int) *gpb.SubscribeResponse {
	n := &gpb.Notification{Timestamp: x.T}
	if x.Pfx {
		n.Prefix = &gpb.Path{Origin: "o"}
	}
	switch x.Kind {
	case 1:
		n.Delete = []*gpb.Path{{Element: []string{"v", name(i)}}}
	case 2:
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}
	default:
		n.Update = []*gpb.Update{{Path: &gpb.Path{Element: []string{"v", name(i)}}, Val: &gpb.TypedValue{Value: &gpb.TypedValue_IntVal{IntVal: int64(i)}}}}
	}
	return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: n}}
}

// key identifies a response of a fixed configuration, its prefix aside.
func key(r *gpb.SubscribeResponse) string {
	if u := r.GetUpdate(); u != nil {
		k := fmt.Sprintf("@%d", u.Timestamp)
		for _, d := range u.Delete {
			k += fmt.Sprintf(" delete %v", d.GetElement())
		}
		for _, x := range u.Update {
			k += fmt.Sprintf(" %v=%d", x.GetPath().GetElement(), x.GetVal().GetIntVal())
		}
		return k
	}
	return fmt.Sprintf("sync %v", r.GetSyncResponse())
}

func (w *world) queue(who string, g *Gen, vals []*fpb.Value) {
	s := w.s
	seed := w.p.Seed
	if g.Seed != 0 {
		seed = g.Seed
	}
	first := vals
	if len(g.Late) > 0 {
		first = nil
		for i, v := range vals {
			if !slices.Contains(g.Late, i) {
				first = append(first, v)
			}
		}
	}
	q := queue.New(w.p.Delay, seed, first)
	for _, i := range g.Late {
		if i < len(vals) {
			s.Y()
			q.Add(vals[i])
		}
	}
	j := w.judge(who, false, false)
	ended := false
	for k := 0; k < g.N; k++ {
		x, err := q.Next()
		if err != nil {
			s.Logf("%s: error %v", who, err)
			if w.allValid(g.N + 1) {
				j.fail("error", "Next failed on a valid configuration: %v", err)
			}
			s.Fault("invalid_configuration")
			if w.repeatable(seed) {
				j.same(w.group("queue", seed, g), true)
			}
			return
		}
		if x == nil {
			ended = true
			break
		}
		v, ok := x.(*fpb.Value)
		if !ok || v == nil {
			j.fail("unknown", "Next returned %T", x)
			return
		}
		var val any
		if v.GetValue() != nil {
			if _, ok := v.GetValue().(*fpb.Value_Delete); !ok {
				val = queue.ValueOf(v)
			}
		}
		if l, ok := val.([]string); ok {
			val = append([]string{}, l...)
		}
		j.emit(index(v.Path), v.GetTimestamp().GetTimestamp(), true, val)
		if s.Failed() {
			return
		}
		if g.Pause > 0 {
			s.Fault("slow_reader")
			time.Sleep(time.Duration(g.Pause) * time.Millisecond)
		}
		s.Y()
	}
	if ended {
		j.end()
		if x, err := q.Next(); x != nil || err != nil {
			j.fail("repeat", "Next after the end returned %v, %v", x, err)
		}
	}
	if w.repeatable(seed) {
		j.same(w.group("queue", seed, g), ended)
	}
}

func (w *world) group(kind string, seed int64, g *Gen) string {
	return fmt.Sprint(kind, seed, g.Late)
}

func (w *world) fixed(who string, g *Gen) {
	s := w.s
	var want []string
	for _, r := range w.cfg.GetFixed().GetResponses() {
		want = append(want, key(r))
	}
	q := queue.NewFixed(w.cfg.GetFixed().GetResponses(), w.p.Delay)
	for i, t := range g.Own {
		r := Fix{T: t}.build(100 + i)
		want = append(want, key(r))
		q.Add(r)
		s.Y()
	}
	for k := 0; k < g.N; k++ {
		x, err := q.Next()
		if err != nil {
			s.Fail("error", "%s: Next failed: %v", who, err)
			return
		}
		if x == nil {
			if k != len(want) {
				s.Fail("repeat", "%s ended after %d of %d responses", who, k, len(want))
			}
			s.Probe("ended")
			return
		}
		r, _ := x.(*gpb.SubscribeResponse)
		s.Logf("%s %s", who, key(r))
		if k >= len(want) || key(r) != want[k] {
			s.Fail("first", "%s: response %d is %s, expected %v", who, k, key(r), want)
			return
		}
		s.NonTrivial()
		s.Y()
	}
}

// stream is the client's side of an agent session.
type stream struct {
	w    *world
	g    *Gen
	who  string
	ctx  context.Context
	reqs chan *gpb.SubscribeRequest
	gone chan struct{}
	over bool
	sent int
	recv func(*gpb.SubscribeResponse)
}

var errGone = errors.New("client left")

func (t *stream) Context() context.Context     { return t.ctx }
func (t *stream) SetHeader(metadata.MD) error  { return nil }
func (t *stream) SendHeader(metadata.MD) error { return nil }
func (t *stream) SetTrailer(metadata.MD)       {}
func (t *stream) SendMsg(any) error            { return nil }
func (t *stream) RecvMsg(any) error            { return nil }
func (t *stream) Recv() (*gpb.SubscribeRequest, error) {
	select {
	case r, ok := <-t.reqs:
		if !ok {
			return nil, io.EOF
		}
		return r, nil
	case <-t.gone:
		return nil, errGone
	}
}

func (t *stream) leave() {
	if !t.over {
		t.over = true
		close(t.gone)
	}
}

func (t *stream) Send(r *gpb.SubscribeResponse) error {
	t.w.s.Y()
	if t.over {
		return errGone
	}
	if t.g.Pause > 0 {
		t.w.s.Fault("slow_reader")
		time.Sleep(time.Duration(t.g.Pause) * time.Millisecond)
		if t.over {
			return errGone
		}
	}
	t.recv(proto.Clone(r).(*gpb.SubscribeResponse))
	t.sent++
	if t.sent >= t.g.N {
		t.w.s.Fault("client_left")
		t.leave()
	}
	return nil
}

func (w *world) agent(who string, g *Gen) {
	s, p := w.s, w.p
	t := &stream{w: w, g: g, who: who, ctx: context.Background(), reqs: make(chan *gpb.SubscribeRequest, 8), gone: make(chan struct{})}
	sub := &gpb.SubscriptionList{Mode: gpb.SubscriptionList_Mode(g.Mode)}
	var want []string
	if p.Fixed != nil {
		for _, r := range w.cfg.GetFixed().GetResponses() {
			want = append(want, key(r))
		}
		if !p.NoSync {
			want = append(want, "sync true")
		}
	}
	var j *judge
	got := 0
	fresh := func() {
		j = w.judge(who, true, !p.NoSync)
		got = 0
	}
	fresh()
	t.recv = func(r *gpb.SubscribeResponse) {
		got++
		if p.Fixed != nil {
			s.Logf("%s %s", who, key(r))
			if !j.off && (got > len(want) || key(r) != want[got-1]) {
				s.Fail("first", "%s: response %d is %s, expected %v", who, got, key(r), want)
			}
			s.NonTrivial()
		} else {
			w.response(j, r)
		}
		for _, e := range g.Early {
			if t.sent == e && sub.Mode == gpb.SubscriptionList_POLL {
				s.Fault("early_poll")
				j.off = true // where the running sequence is cut is not specified
				t.reqs <- &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Poll{Poll: &gpb.Poll{}}}
			}
		}
	}
	if g.Pfx != "" {
		sub.Prefix = &gpb.Path{Target: g.Pfx}
	}
	t.reqs <- &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: sub}}
	if g.EOF {
		close(t.reqs)
	}
	c := fgnmi.NewClient(w.cfg)
	done := false
	var err error
	go func() {
		err = c.Run(t)
		done = true
		s.Logf("%s: Run returned %v", who, err)
	}()
	valid := w.allValid(g.N + 1)
	stopped := func() {
		// The session is over or waits: judge what it sent since the last poll.
		if !valid || t.over || s.Failed() {
			return
		}
		if p.Fixed != nil {
			if !j.off && got != len(want) {
				s.Fail("repeat", "%s: %d of %d responses were sent", who, got, len(want))
			}
			return
		}
		for i := range p.Vals {
			if p.Vals[i].Repeat <= 0 {
				j.fail("repeat", "the session stopped sending, but value %d is unbounded", i)
				return
			}
		}
		j.end()
		if w.repeatable(p.Seed) {
			j.same("agent", true)
		}
	}
	time.Sleep(time.Hour)
	stopped()
	for k := 0; k < g.Polls && sub.Mode == gpb.SubscriptionList_POLL && !t.over && !done; k++ {
		fresh()
		s.Probe("polled")
		t.reqs <- &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Poll{Poll: &gpb.Poll{}}}
		time.Sleep(time.Hour)
		stopped()
	}
	if t.over && w.repeatable(p.Seed) && valid && p.Fixed == nil {
		j.same("agent", false)
	}
	t.leave()
	time.Sleep(time.Hour)
	c.Close()
}

// response judges one response of a session with configured values.
func (w *world) response(j *judge, r *gpb.SubscribeResponse) {
	u := r.GetUpdate()
	if u == nil {
		j.emit(-1, 0, false, r.GetSyncResponse())
		return
	}
	switch {
	case len(u.Update) == 1 && len(u.Delete) == 0:
		x := u.Update[0]
		var v any
		switch t := x.GetVal().GetValue().(type) {
		case *gpb.TypedValue_IntVal:
			v = t.IntVal
		case *gpb.TypedValue_UintVal:
			v = t.UintVal
		case *gpb.TypedValue_DoubleVal:
			v = t.DoubleVal
		case *gpb.TypedValue_StringVal:
			v = t.StringVal
		case *gpb.TypedValue_BoolVal:
			v = t.BoolVal
		case *gpb.TypedValue_LeaflistVal:
			l := []string{}
			for _, e := range t.LeaflistVal.GetElement() {
				l = append(l, e.GetStringVal())
			}
			v = l
		}
		j.emit(index(x.GetPath().GetElement()), u.Timestamp, true, v)
	case len(u.Delete) == 1 && len(u.Update) == 0:
		i := index(u.Delete[0].GetElement())
		if i >= 0 && i < len(w.p.Vals) && w.p.Vals[i].Kind != "delete" {
			j.fail("unknown", "delete of value %d", i)
		}
		j.emit(i, u.Timestamp, true, nil)
	default:
		j.fail("unknown", "response %v", r)
	}
}
