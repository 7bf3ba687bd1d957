package hcache

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/sim"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// CPlan: several goroutines write to the same targets, while others reset,
// remove and add them, refresh the metadata and read.
type CPlan struct {
	Targets   int         `json:"targets"`
	NoEvent   bool        `json:"no_event,omitempty"`
	Server    string      `json:"server,omitempty"`
	RefreshMs int         `json:"refresh_ms,omitempty"`
	SizeMs    int         `json:"size_ms,omitempty"`
	Readers   int         `json:"readers,omitempty"`
	Rounds    []([][]COp) `json:"rounds"` // per round and actor; everything is idle between rounds
}

// COp is an operation of the concurrent harness.
type COp struct {
	Op
	Key string `json:"key,omitempty"` // read: which leaf
}

func concHarness(prof string) *sim.Harness {
	return &sim.Harness{Name: "cachec-" + prof, Gen: func(r *sim.Rand, t sim.Tier) any { return genConc(r, t, prof) },
		New: func() any { return &CPlan{} }, Exec: func(s *sim.Run, pl any) { (&cworld{p: pl.(*CPlan), world: &world{s: s, p: &Plan{}, prof: prof}}).run() },
		Steps: 3000, MaxStep: 3000000, Skip: true}
}

var (
	CTS   = concHarness("ts")
	CFeed = concHarness("feed")
	CIso  = concHarness("iso")
	CMeta = concHarness("meta")
)

func genConc(r *sim.Rand, t sim.Tier, prof string) *CPlan {
	p := &CPlan{Targets: sim.Pick(r, 1, 1, 2), NoEvent: r.P(35)}
	if prof == "iso" {
		p.Targets = r.Range(1, 3)
	}
	if r.P(15) {
		p.Server = "srv"
	}
	if r.P(25) {
		p.RefreshMs = r.Range(1, 4)
	}
	if r.P(15) {
		p.SizeMs = r.Range(1, 4)
	}
	p.Readers = sim.Pick(r, 0, 0, 0, 1)
	u := genUniverse(r, r.Range(1, 5), r.P(10))
	flat := prof == "ts" || r.P(50) // no path below another, one part per notification
	if flat {
		var v []upath
		for _, q := range u {
			ok := true
			for _, w := range v {
				if gen.Prefix(q.index(), w.index()) || gen.Prefix(w.index(), q.index()) {
					ok = false
				}
			}
			if ok {
				v = append(v, q)
			}
		}
		u = v
	}
	dep := sim.Pick(r, 0, 0, 30)
	lifePct := sim.Pick(r, 0, 5, 15, 30)
	if prof == "iso" {
		lifePct = sim.Pick(r, 10, 30, 50)
	}
	removals := prof != "ts" && r.P(60) || r.P(20)
	na := r.Range(2, 4)
	var gs []*streamGen
	for a := 0; a < na; a++ {
		g := &streamGen{r: r, prof: prof, u: u, p: &Plan{Targets: p.Targets, Seq: true}, depPct: dep, atomicPct: sim.Pick(r, 0, 15), delPct: sim.Pick(r, 0, 15, 35),
			multiPct: sim.Pick(r, 0, 25, 60), vals: r.Range(2, 6), vbase: r.Intn(gen.NumVals), tick: sim.Pick(r, int64(0), 1, 1000), skew: sim.Pick(r, int64(0), 0, 0, 1, -1, 1000)}
		g.lifeKinds = []string{"none"}
		gs = append(gs, g)
	}
	rounds := r.Range(1, 3)
	maxOps := r.Range(2, 5)
	if t == sim.Thorough {
		rounds, maxOps = r.Range(1, 4), r.Range(2, 8)
	}
	for i := 0; i < rounds; i++ {
		var round [][]COp
		for a := 0; a < na; a++ {
			var ops []COp
			for k, n := 0, r.Intn(maxOps+1); k < n; k++ {
				switch {
				case r.P(lifePct):
					kinds := []string{"reset", "reset", "sync", "connect", "connerr"}
					if removals && a == 0 {
						kinds = append(kinds, "remove", "remove", "add", "add")
					}
					ops = append(ops, COp{Op: Op{Kind: sim.Pick(r, kinds...), T: r.Intn(p.Targets)}})
				case r.P(8):
					ops = append(ops, COp{Op: Op{Kind: "sleep", Us: int64(r.Range(1, 3) * 1000)}})
				case r.P(12):
					q := u[r.Intn(len(u))]
					ops = append(ops, COp{Op: Op{Kind: "read", T: r.Intn(p.Targets)}, Key: gen.Key(q.index())})
				case flat:
					q := u[r.Intn(len(u))]
					g := gs[a]
					g.now += g.tick * int64(r.Intn(3))
					n := &Noti{TS: g.now + g.skew, Origin: q.origin, Dep: r.P(dep)}
					switch {
					case r.P(g.delPct):
						o, e := genPattern(r, u)
						if r.P(60) {
							o, e = q.origin, q.elems
						}
						n.Origin, n.Dels = o, [][]string{e}
					case r.P(g.atomicPct):
						n.Atomic, n.Pre = true, q.elems
						n.Ups = []Up{{P: []string{"l"}, V: g.vbase + r.Intn(g.vals)}}
					default:
						n.Ups = []Up{{P: q.elems, V: g.vbase + r.Intn(g.vals)}}
					}
					ops = append(ops, COp{Op: Op{Kind: "noti", T: r.Intn(p.Targets), N: n}})
				default:
					for _, op := range gs[a].op(0) {
						if op.Kind == "noti" && op.N != nil {
							op.Again = false
							ops = append(ops, COp{Op: op})
						}
					}
				}
			}
			round = append(round, ops)
		}
		p.Rounds = append(p.Rounds, round)
	}
	return p
}

// crec is one operation of the history.
type crec struct {
	actor, n  int
	kind      string
	t         int
	msg       *pb.Notification
	call, ret int64
	err       string // "", stale, other
	key       string // read
	got       *gen.Leaf
}

func (r *crec) String() string {
	x := ""
	switch {
	case r.msg != nil:
		x = show(r.msg)
	case r.kind == "read":
		x = fmt.Sprintf("%s -> %v", gen.Show(r.key), r.got)
	}
	return fmt.Sprintf("a%d.%d [%d,%d] %s %s %s -> %q", r.actor, r.n, r.call, r.ret, r.kind, TargetName(r.t), x, r.err)
}

type cworld struct {
	*world
	p    *CPlan
	recs []*crec

	addMu sync.Mutex
}

func (w *cworld) run() {
	s, p := w.s, w.p
	if p.Targets < 1 || p.Targets > 4 || len(p.Rounds) > 6 {
		return
	}
	FreshRegistries()
	cache.Now = w.clock
	var opts []cache.Option
	if p.NoEvent {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	if p.Server != "" {
		opts = append(opts, cache.WithServerName(p.Server))
	}
	var names []string
	w.byName = map[string]*mtarget{}
	for i := 0; i < p.Targets; i++ {
		names = append(names, TargetName(i))
		m := &mtarget{name: names[i], exists: true, feed: map[string]*gen.Leaf{}}
		w.m = append(w.m, m)
		w.byName[names[i]] = m
	}
	w.c = cache.New(names, opts...)
	w.c.SetClient(w.onFeed)
	background := func() (stop func()) {
		var off atomic.Bool
		bg := func(ms int, f func()) {
			if ms > 0 {
				go func() {
					for !off.Load() {
						time.Sleep(time.Duration(ms) * time.Millisecond)
						f()
						s.Count("refreshes", 1)
					}
				}()
			}
		}
		bg(p.RefreshMs, w.c.UpdateMetadata)
		bg(p.SizeMs, w.c.UpdateSize)
		for i := 0; i < p.Readers; i++ {
			bg(1, func() {
				w.c.Query("*", nil, func(_ []string, l *ctree.Leaf, v interface{}) error { return nil })
				for _, md := range w.c.Metadata() {
					md.GetInt(metadata.LeafCount)
				}
			})
		}
		return func() { off.Store(true) }
	}
	b := NewBuilder()
	for ri, round := range p.Rounds {
		if len(round) > 8 {
			return
		}
		removers := -1
		for a := range round {
			for i := range round[a] {
				op := &round[a][i]
				if op.T < 0 || op.T >= p.Targets {
					return
				}
				if op.Kind == "remove" || op.Kind == "add" {
					if removers >= 0 && removers != a {
						return
					}
					removers = a
				}
			}
		}
		stop := background()
		for a := range round {
			a := a
			type bop struct {
				*COp
				msg, orig *pb.Notification
			}
			var ops []bop
			for i := range round[a] {
				x := bop{COp: &round[a][i]}
				if x.Kind == "noti" {
					if x.N == nil {
						continue
					}
					x.msg = b.Noti(TargetName(x.T), x.N)
					if !Valid(x.msg) {
						continue
					}
					x.orig = proto.Clone(x.msg).(*pb.Notification)
				}
				ops = append(ops, x)
			}
			s.Go(func() {
				for i, x := range ops {
					if s.Failed() {
						return
					}
					w.cdo(a, i, x.COp, x.msg)
					if !sim.RaceEnabled && x.msg != nil && !proto.Equal(x.msg, x.orig) {
						w.fail("input-modified", "the caller's notification was modified:\n got %s\nwant %s", show(x.msg), show(x.orig))
					}
				}
			})
		}
		s.Join()
		stop()
		if ri == len(p.Rounds)-1 {
			s.Calm()
		}
		time.Sleep(20 * time.Millisecond)
		s.Quiesce()
		if s.Failed() {
			return
		}
		if sim.RaceEnabled {
			continue
		}
		s.Atomic(func() { w.cjudge(ri) })
	}
	if s.Failed() || sim.RaceEnabled {
		return
	}
	s.Atomic(w.cfinal)
}

func (w *cworld) cdo(a, i int, op *COp, msg *pb.Notification) {
	s := w.s
	name := TargetName(op.T)
	if sim.RaceEnabled {
		if op.Kind == "read" {
			w.c.Query(name, gen.Unkey(op.Key), func([]string, *ctree.Leaf, interface{}) error { return nil })
			return
		}
		w.doRace(&builtOp{Op: op.Op, msg: msg})
		return
	}
	if op.Kind == "sleep" {
		time.Sleep(time.Duration(op.Us) * time.Microsecond)
		return
	}
	s.Y()
	r := &crec{actor: a, n: i, kind: op.Kind, t: op.T, key: op.Key, call: s.Seq()}
	if msg != nil {
		r.msg = proto.Clone(msg).(*pb.Notification)
	}
	s.Y()
	switch op.Kind {
	case "noti":
		err := w.c.GnmiUpdate(msg)
		switch {
		case errors.Is(err, cache.ErrStale):
			r.err = "stale"
		case err != nil:
			r.err = "other"
		}
	case "sync":
		w.c.Sync(name)
	case "connect":
		w.c.Connect(name)
	case "connerr":
		w.c.ConnectError(name, errors.New("refused"))
	case "reset":
		s.Fault("target_reset")
		w.c.Reset(name)
	case "remove":
		s.Fault("target_remove")
		w.c.Remove(name)
	case "add":
		// A target is added only if it is not there: nobody adds it in between.
		w.addMu.Lock()
		defer w.addMu.Unlock()
		if w.c.HasTarget(name) {
			return
		}
		w.c.Add(name)
	case "read":
		found := 0
		err := w.c.Query(name, gen.Unkey(op.Key), func(p []string, _ *ctree.Leaf, v interface{}) error {
			if n, ok := v.(*pb.Notification); ok && gen.Key(p) == op.Key {
				r.got = gen.LeafOf(n)
				found++
			}
			return nil
		})
		if err != nil {
			r.err = "other"
		}
		if found > 1 {
			w.fail("query-twice", "target %s: one query reported %s twice", name, gen.Show(op.Key))
		}
	default:
		return
	}
	s.Y()
	r.ret = s.Seq()
	s.Logf("%v", r)
	w.recs = append(w.recs, r)
}

// known is whether the target exists now, by the operations of its only remover.
func (w *cworld) known(t int) bool {
	k := true
	for _, r := range w.recs {
		if r.t == t && r.kind == "remove" {
			k = false
		}
		if r.t == t && r.kind == "add" {
			k = true
		}
	}
	return k
}

// cjudge runs when nothing is in progress.
func (w *cworld) cjudge(round int) {
	s := w.s
	what := fmt.Sprintf("idle after round %d", round)
	for t, m := range w.m {
		known := w.known(t)
		if w.c.HasTarget(m.name) != known {
			w.fail("remove", "%s: HasTarget(%s) is %v", what, m.name, !known)
			continue
		}
		if !known {
			if err := w.c.Query(m.name, nil, func([]string, *ctree.Leaf, interface{}) error { return nil }); err == nil {
				w.fail("remove", "%s: a query for the removed target %s succeeds", what, m.name)
			}
			for _, k := range sim.SortedKeys(m.feed) {
				w.fail("feed-replay", "%s: target %s was removed; replaying the change feed leaves %s = %v", what, m.name, gen.Show(k), m.feed[k])
				w.fail("removed-target", "%s: target %s was removed; an update of %s was announced after the removal", what, m.name, gen.Show(k))
			}
			continue
		}
		real, meta, err := w.snapshot(m)
		if err != nil {
			w.fail("query", "%s: Query(%s): %v", what, m.name, err)
			continue
		}
		fr, fm := leaves{}, leaves{}
		for k, l := range m.feed {
			if gen.Unkey(k)[0] == metadata.Root {
				fm[k] = l
			} else {
				fr[k] = l
			}
		}
		w.compare("feed-replay", what+": replaying the change feed", fr, real, false)
		w.compare("feed-replay-meta", what+": replaying the change feed", fm, meta, false)
		if len(real) > 0 {
			s.NonTrivial()
			s.Probe("idle_compared")
		}
		if w.prof == "meta" {
			w.leafCounts(what, m, real)
		}
	}
	// The reads of the idle cache belong to the histories.
	for t, m := range w.m {
		real, _, err := w.snapshot(m)
		e := ""
		if err != nil {
			e = "other"
		}
		for _, k := range w.keys(t) {
			w.recs = append(w.recs, &crec{actor: -1, kind: "read", t: t, key: k, call: s.Seq(), ret: s.Seq(), err: e, got: real[k]})
		}
	}
}

// keys lists the leaves a target was ever sent.
func (w *cworld) keys(t int) []string {
	m := map[string]bool{}
	for _, r := range w.recs {
		if r.t == t && r.msg != nil {
			for _, u := range r.msg.GetUpdate() {
				m[w.keyOf(r.msg, u)] = true
			}
		}
	}
	return sim.SortedKeys(m)
}

func (w *cworld) keyOf(n *pb.Notification, u *pb.Update) string {
	if n.GetAtomic() {
		return gen.Key(gen.FullIndex(n.GetPrefix(), nil))
	}
	return gen.Key(gen.FullIndex(n.GetPrefix(), u.GetPath()))
}

func (w *cworld) cfinal() {
	for t := range w.m {
		w.removedJudge(t)
		disturbed := false
		for _, r := range w.recs {
			disturbed = disturbed || (r.t == t && (r.kind == "reset" || r.kind == "remove"))
		}
		for _, k := range w.keys(t) {
			switch {
			case w.prof == "ts":
				w.linear(t, k, "step")
			case w.prof == "iso" && !disturbed && w.p.Targets > 1:
				w.linear(t, k, "isolation")
			}
			w.resetJudge(t, k)
		}
		if w.prof == "meta" && !disturbed {
			w.totals(t)
		}
	}
}

// removedJudge: an update that ran entirely while the target was unknown fails.
func (w *cworld) removedJudge(t int) {
	from := int64(-1)
	judge := func(to int64) {
		for _, r := range w.recs {
			if r.t == t && from >= 0 && r.call > from && r.ret < to && (r.kind == "noti" || r.kind == "read") && r.err == "" {
				w.fail("removed-target", "the target was unknown from %d to %d: %v", from, to, r)
			}
		}
	}
	for _, r := range w.recs {
		switch {
		case r.t != t:
		case r.kind == "remove":
			from = r.ret
		case r.kind == "add":
			judge(r.call)
			from = -1
		}
	}
	judge(1 << 62)
}

// resetJudge: what was written before a reset began is not there after it.
func (w *cworld) resetJudge(t int, k string) {
	for _, rd := range w.recs {
		if rd.t != t || rd.kind != "read" || rd.key != k || rd.got == nil {
			continue
		}
		for _, rs := range w.recs {
			if rs.t != t || (rs.kind != "reset" && rs.kind != "remove") || rs.ret >= rd.call {
				continue
			}
			explained := false
			for _, wr := range w.recs {
				if wr.t == t && wr.msg != nil && wr.ret > rs.call && wr.call < rd.ret {
					for _, u := range wr.msg.GetUpdate() {
						explained = explained || w.keyOf(wr.msg, u) == k
					}
				}
			}
			if !explained {
				w.fail("reset", "%v\nthe leaf was last written before this began: %v", rd, rs)
			}
		}
	}
}

// totals compares the counters with the calls' results.
func (w *cworld) totals(t int) {
	m := w.m[t]
	if !w.known(t) {
		return
	}
	var sent, dels, stale, empty, open, latest int64
	plain, exact, sure := true, true, true
	for _, r := range w.recs {
		if r.t != t || r.kind == "read" {
			continue
		}
		if r.kind != "noti" {
			plain = false // metadata updates are counted as well
			continue
		}
		n := r.msg
		ups, ds := int64(len(n.GetUpdate())), int64(len(n.GetDelete()))
		switch {
		case n.GetAtomic() && ds > 0:
		case ups+ds == 0:
			empty++
		default:
			if n.GetAtomic() && ups > 1 {
				exact = false
			}
			if r.err == "other" {
				exact = false
			}
			sent += ups
			dels += ds
			if r.err == "stale" && ups == 1 && ds == 0 {
				stale++
			} else if ups+ds > 1 && r.err != "" {
				open++
			}
			if ups > 0 && r.err == "" && n.GetTimestamp() > latest {
				latest = n.GetTimestamp()
			}
			if r.err == "stale" && ups > 1 || r.err == "other" {
				sure = false // some part may have been accepted
			}
		}
	}
	if w.p.RefreshMs > 0 || w.p.SizeMs > 0 {
		plain = false
	}
	c := w.counts(m)
	if c.empty != empty {
		w.fail("counters", "target %s: %d empty notifications were submitted and %d are counted", m.name, empty, c.empty)
	}
	if exact && plain {
		if got := c.u + c.su + c.st + c.fu; got < sent || got > sent+dels {
			w.fail("counters", "target %s: %d updates and %d deletes were submitted; updated=%d suppressed=%d stale=%d future=%d", m.name, sent, dels, c.u, c.su, c.st, c.fu)
		}
		if c.st < stale || (open == 0 && c.st != stale) {
			w.fail("counters", "target %s: %d updates were refused as stale and %d are counted", m.name, stale, c.st)
		}
		w.s.Probe("totals_compared")
	}
	if latest > 0 && sure {
		w.c.UpdateMetadata()
		if v, err := w.c.Metadata()[m.name].GetInt(metadata.LatestTimestamp); err != nil || v != latest {
			w.fail("latest-timestamp", "target %s reports latest timestamp %d (%v); the greatest accepted one is %d", m.name, v, err, latest)
		}
	}
}

// lop is one operation as seen by one leaf.
type lop struct {
	r    *crec
	leaf *gen.Leaf // write
	del  bool
	any  bool // the verdict of this leaf's part is not known
}

// linear looks for an order of the operations on one leaf that explains every
// result under the timestamp discipline.
func (w *cworld) linear(t int, key, class string) {
	s := w.s
	var ops []lop
	idx := gen.Unkey(key)
	for _, r := range w.recs {
		if r.t != t {
			continue
		}
		switch r.kind {
		case "reset", "remove", "add":
			ops = append(ops, lop{r: r})
		case "read":
			if r.key == key {
				ops = append(ops, lop{r: r})
			}
		case "noti":
			n := r.msg
			parts := len(n.GetUpdate()) + len(n.GetDelete())
			if n.GetAtomic() {
				if len(n.GetDelete()) > 0 || len(n.GetUpdate()) == 0 {
					continue
				}
				parts = 1
			}
			o := lop{r: r, any: parts > 1}
			hits := 0
			for _, u := range n.GetUpdate() {
				if w.keyOf(n, u) == key {
					if n.GetAtomic() {
						o.leaf, hits = gen.LeafOf(n), 1
						continue
					}
					o.leaf = &gen.Leaf{TS: n.GetTimestamp(), Ups: []gen.Upd{{Val: u.GetVal()}}}
					hits++
				} else {
					ki := gen.Unkey(w.keyOf(n, u))
					if gen.Prefix(ki, idx) || gen.Prefix(idx, ki) {
						return // conflicting paths are judged by the sequential harness
					}
				}
			}
			for _, d := range n.GetDelete() {
				if gen.Match(gen.FullIndex(n.GetPrefix(), d), idx) {
					o.del = true
					hits++
				}
			}
			if hits > 1 {
				return
			}
			if hits == 1 {
				ops = append(ops, o)
			}
		}
	}
	if len(ops) > 62 {
		s.Count("history_too_long", 1)
		return
	}
	writers := map[int]bool{}
	for _, o := range ops {
		writers[o.r.actor] = true
	}
	if len(writers) > 2 {
		s.Probe("history_of_several_writers")
	}
	type key2 struct {
		done uint64
		st   int // index of the write that set the leaf, -1: none, -2: target unknown
	}
	seen := map[key2]bool{}
	budget := 100000
	var try func(done uint64, st int) bool
	try = func(done uint64, st int) bool {
		if done == 1<<len(ops)-1 {
			return true
		}
		if budget--; budget < 0 {
			return true
		}
		k := key2{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		first := int64(1) << 62
		for i := range ops {
			if done>>i&1 == 0 && ops[i].r.ret < first {
				first = ops[i].r.ret
			}
		}
		for i := range ops {
			if done>>i&1 == 1 || ops[i].r.call > first {
				continue
			}
			o := ops[i]
			for _, n := range w.next(ops, o, i, st) {
				if try(done|1<<i, n) {
					return true
				}
			}
		}
		return false
	}
	if try(0, -1) {
		if budget < 0 {
			s.Count("history_undecided", 1)
		}
		s.Probe("leaf_history_judged")
		return
	}
	msg := ""
	for _, o := range ops {
		msg += o.r.String() + "\n"
	}
	w.fail(class, "no order of the operations on leaf %s of %s explains the results under the timestamp discipline:\n%s", gen.Show(key), TargetName(t), msg)
}

// next lists the states o may lead to from state st, none if its result is wrong.
func (w *cworld) next(ops []lop, o lop, i, st int) []int {
	var cur *gen.Leaf
	if st >= 0 {
		cur = ops[st].leaf
	}
	one := func(ok bool, n int) []int {
		if ok {
			return []int{n}
		}
		return nil
	}
	switch o.r.kind {
	case "reset":
		if st == -2 {
			return []int{-2}
		}
		return []int{-1}
	case "remove":
		return []int{-2}
	case "add":
		return one(st == -2, -1)
	case "read":
		switch {
		case st == -2:
			return one(o.r.err == "other", st)
		case o.r.err != "":
			return nil
		case cur == nil || o.r.got == nil:
			return one(cur == nil && o.r.got == nil, st)
		}
		return one(cur.TS == o.r.got.TS && cur.SameContent(o.r.got), st)
	}
	if st == -2 {
		return one(o.r.err == "other", st)
	}
	if o.del {
		if !o.any && o.r.err != "" {
			return nil
		}
		if cur != nil && cur.TS < o.r.msg.GetTimestamp() {
			return []int{-1}
		}
		return []int{st}
	}
	l := o.leaf
	accept := one(o.any || o.r.err == "", i)
	refuse := one(o.any || o.r.err == "stale", st)
	switch {
	case cur == nil || l.TS > cur.TS:
		return accept
	case l.TS < cur.TS:
		return refuse
	case l.SameContent(cur):
		return append(accept, refuse...)
	}
	return accept
}
