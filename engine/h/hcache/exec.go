package hcache

import (
	"errors"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/ctree"
	"github.com/openconfig/gnmi/latency"
	"github.com/openconfig/gnmi/metadata"
	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/sim"

	pb "github.com/openconfig/gnmi/proto/gnmi"
)

// Package-level registries of the code under test are restored before each run.
func init() {
	for k, v := range metadata.TargetIntValues {
		baseInts[k] = v
	}
	for k, v := range metadata.TargetStrValues {
		baseStrs[k] = v
	}
	for k, v := range metadata.TargetBoolValues {
		baseBools[k] = v
	}
	sim.PreRun = append(sim.PreRun, func() {
		cache.Now = time.Now
		latency.Now = time.Now
	})
}

var (
	baseInts  = map[string]*metadata.IntValue{}
	baseStrs  = map[string]*metadata.StrValue{}
	baseBools = map[string]bool{}
)

// FreshRegistries gives the run maps of its own, made inside the simulation, so
// that their iteration order is decided by the run's seed.
func FreshRegistries() {
	metadata.TargetIntValues = map[string]*metadata.IntValue{}
	for _, k := range sim.SortedKeys(baseInts) {
		metadata.TargetIntValues[k] = baseInts[k]
	}
	metadata.TargetStrValues = map[string]*metadata.StrValue{}
	for _, k := range sim.SortedKeys(baseStrs) {
		metadata.TargetStrValues[k] = baseStrs[k]
	}
	metadata.TargetBoolValues = map[string]bool{}
	for _, k := range sim.SortedKeys(baseBools) {
		metadata.TargetBoolValues[k] = true
	}
}

const epoch = int64(946684800) * int64(time.Second)

// Builder makes the messages of a plan.
type Builder struct {
	backing  map[string][]*pb.PathElem
	sbacking map[string][]string
	prefixes map[string]*pb.Path
	paths    map[string]*pb.Path
}

// NewBuilder returns an empty builder.
func NewBuilder() *Builder {
	return &Builder{map[string][]*pb.PathElem{}, map[string][]string{}, map[string]*pb.Path{}, map[string]*pb.Path{}}
}

// Valid reports whether every update and delete of m addresses something below
// the target (others are C12's business).
func Valid(m *pb.Notification) bool {
	for _, u := range m.GetUpdate() {
		if len(gen.FullIndex(m.GetPrefix(), u.GetPath())) == 0 {
			return false
		}
	}
	for _, d := range m.GetDelete() {
		if len(gen.FullIndex(m.GetPrefix(), d)) == 0 {
			return false
		}
	}
	return !m.GetAtomic() || len(gen.FullIndex(m.GetPrefix(), nil)) > 0
}

// TargetName is the name of target i.
func TargetName(i int) string { return fmt.Sprintf("t%d", i) }

func (b *Builder) prefix(target string, n *Noti) *pb.Path {
	if n.Share <= 0 {
		p := &pb.Path{Target: target, Origin: n.Origin}
		gen.SetElems(p, n.Pre, n.PreDep)
		return p
	}
	bk := fmt.Sprintf("%s|%s|%d|%v", target, n.Origin, n.Share, n.PreDep)
	pk := bk + "|" + strings.Join(n.Pre, "/")
	if p := b.prefixes[pk]; p != nil {
		return p
	}
	p := &pb.Path{Target: target, Origin: n.Origin}
	if n.PreDep {
		idx := gen.Index(n.Pre)
		back := b.sbacking[bk]
		if back == nil || !gen.Prefix(back[:min(len(back), len(idx))], idx) {
			back = make([]string, 0, 24)
		}
		if len(idx) > len(back) {
			back = append(back, idx[len(back):]...)
		}
		b.sbacking[bk] = back
		p.Element = back[:len(idx)]
	} else {
		back := b.backing[bk]
		ok := back != nil
		for i := range n.Pre {
			if ok && i < len(back) && !proto.Equal(back[i], gen.ParseElem(n.Pre[i])) {
				ok = false
			}
		}
		if !ok {
			back = make([]*pb.PathElem, 0, 24)
		}
		for i := len(back); i < len(n.Pre); i++ {
			back = append(back, gen.ParseElem(n.Pre[i]))
		}
		b.backing[bk] = back
		p.Elem = back[:len(n.Pre)]
	}
	b.prefixes[pk] = p
	return p
}

func (b *Builder) path(origin string, elems []string, dep bool, share int) *pb.Path {
	if share <= 0 {
		p := &pb.Path{Origin: origin}
		gen.SetElems(p, elems, dep)
		return p
	}
	k := fmt.Sprintf("%d|%v|%s|%s", share, dep, origin, strings.Join(elems, "/"))
	if p := b.paths[k]; p != nil {
		return p
	}
	p := &pb.Path{Origin: origin}
	if dep {
		p.Element = make([]string, 0, 16)
	} else {
		p.Elem = make([]*pb.PathElem, 0, 16)
	}
	if dep {
		p.Element = append(p.Element, gen.Index(elems)...)
	} else {
		for _, e := range elems {
			p.Elem = append(p.Elem, gen.ParseElem(e))
		}
	}
	b.paths[k] = p
	return p
}

func (b *Builder) Noti(target string, n *Noti) *pb.Notification {
	m := &pb.Notification{Timestamp: epoch + n.TS*1000, Atomic: n.Atomic, Prefix: b.prefix(target, n)}
	for _, u := range n.Ups {
		m.Update = append(m.Update, &pb.Update{Path: b.path(u.O, u.P, n.Dep, n.Share), Val: gen.Val(u.V)})
	}
	for i, d := range n.Dels {
		o := ""
		if i < len(n.DelO) {
			o = n.DelO[i]
		}
		m.Delete = append(m.Delete, b.path(o, d, n.Dep, n.Share))
	}
	return m
}

// leaves is the content of one target: index key -> stored entry.
type leaves map[string]*gen.Leaf

type sample struct {
	min, max time.Duration // bounds of the latency
	at       time.Time     // when (upper bound)
	surely   bool          // counts as observed on any reading
	slot     int           // the refresh that ends its slot
}

// mtarget is the reference state of one target. It is only touched by the
// actor that feeds the target (or under Plan.Seq by the only actor).
type mtarget struct {
	name            string
	exists          bool
	cur             leaves // non-metadata leaves
	latest          int64  // greatest accepted timestamp since the last reset; 0: none
	feed            map[string]*gen.Leaf
	feedLog         []feedEntry
	sync, connected bool
	samples         []sample
	// tainted: the cache left the reference's timestamp discipline (another
	// property's business); what depends on verdicts is no longer judged.
	tainted   bool
	refreshes []time.Time
}

type feedEntry struct {
	n *pb.Notification // copy
}

type world struct {
	s      *sim.Run
	p      *Plan
	prof   string
	c      *cache.Cache
	m      []*mtarget
	byName map[string]*mtarget
	c2     *cache.Cache // twin that gets every part of a notification on its own
	stop   bool
	skewUs int64
	ticks  int64
	opts   []cache.Option
	wins   []time.Duration
}

func execFor(prof string) func(*sim.Run, any) {
	return func(s *sim.Run, pl any) { (&world{s: s, p: pl.(*Plan), prof: prof}).run() }
}

// owner lists, per class of failure, the profiles whose property it breaks.
// Elsewhere the reference adopts what the cache did and goes on.
var owner = map[string]string{
	"step": "ts", "rejected": "ts", "accepted": "ts", "error-kind": "ts",
	"feed-replay": "feed", "feed-replay-meta": "feed", "feed-count": "feed", "feed-type": "feed", "feed-target": "feed iso",
	"input-modified": "feed", "multi-split": "feed", "atomic-delete": "feed ts",
	"query": "ts feed iso", "query-twice": "feed", "stored-type": "feed ts",
	"isolation": "iso", "isolation-twin": "iso", "reset": "iso", "reset-metadata": "iso", "remove": "iso", "removed-target": "iso",
	"counters": "meta", "leaf-count": "meta", "latest-timestamp": "meta", "exported-metadata": "meta", "latency": "meta", "windows": "meta",
	"lifecycle-metadata": "iso meta",
}

// fail records a violation if the class belongs to this profile's property.
func (w *world) fail(class, format string, a ...any) {
	o, ok := owner[class]
	if !ok {
		panic("no owner for " + class)
	}
	for _, p := range strings.Fields(o) {
		if p == w.prof {
			w.s.Fail(class, format, a...)
		}
	}
}

type builtOp struct {
	Op
	msg  *pb.Notification
	orig *pb.Notification
}

func (w *world) run() {
	s, p := w.s, w.p
	if p.Targets < 1 || p.Targets > 6 || p.PeriodMs <= 0 {
		return
	}
	FreshRegistries()
	// The cache's clock: simulated time plus a skew that clock faults change. A
	// reading costs a nanosecond, so that readings are distinct as on a real host.
	cache.Now = w.clock
	var opts []cache.Option
	if p.FutureUs > 0 {
		opts = append(opts, cache.WithFutureThreshold(time.Duration(p.FutureUs)*time.Microsecond))
	}
	if p.NoEvent {
		opts = append(opts, cache.DisableEventDrivenEmulation())
	}
	if p.Server != "" {
		opts = append(opts, cache.WithServerName(p.Server))
	}
	if len(p.Excluded) > 0 {
		opts = append(opts, cache.WithExcludedMeta(p.Excluded))
	}
	period := time.Duration(p.PeriodMs) * time.Millisecond
	if len(p.Windows) > 0 {
		var ws []string
		for _, k := range p.Windows {
			if k < 1 {
				return
			}
			d := time.Duration(k) * period
			w.wins = append(w.wins, d)
			ws = append(ws, d.String())
		}
		o, err := cache.WithLatencyWindows(ws, period)
		if err != nil {
			w.fail("windows", "WithLatencyWindows(%v, %v): %v", ws, period, err)
			return
		}
		opts = append(opts, o)
	}
	if p.PrecUs > 0 {
		opts = append(opts, cache.WithAvgLatencyPrecision(time.Duration(p.PrecUs)*time.Microsecond))
	}
	var names []string
	w.byName = map[string]*mtarget{}
	for i := 0; i < p.Targets; i++ {
		names = append(names, TargetName(i))
		m := &mtarget{name: names[i], exists: true, cur: leaves{}, feed: map[string]*gen.Leaf{}}
		w.m = append(w.m, m)
		w.byName[names[i]] = m
	}
	w.c = cache.New(names, opts...)
	w.opts = opts
	w.c.SetClient(w.onFeed)
	if w.prof == "feed" && p.FutureUs == 0 {
		w.c2 = cache.New(names, opts...)
	}

	// Build every message up front: shared prefix and path objects included.
	b := NewBuilder()
	built := make([][]*builtOp, len(p.Actors))
	for a := range p.Actors {
		var prev *builtOp
		for _, op := range p.Actors[a] {
			if op.T < 0 || op.T >= p.Targets || (!p.Seq && op.T != a) {
				continue
			}
			bo := &builtOp{Op: op}
			if op.Kind == "noti" {
				switch {
				case op.Again && prev != nil:
					bo.msg, bo.N, bo.T = prev.msg, prev.N, prev.T
				case op.N != nil:
					bo.msg = b.Noti(TargetName(op.T), op.N)
				default:
					continue
				}
				if !Valid(bo.msg) {
					continue
				}
				bo.orig = proto.Clone(bo.msg).(*pb.Notification)
				prev = bo
			}
			built[a] = append(built[a], bo)
		}
	}
	var stopBg atomic.Bool
	bg := func(ms int, f func()) {
		if ms <= 0 {
			return
		}
		go func() {
			for !stopBg.Load() {
				time.Sleep(time.Duration(ms) * time.Millisecond)
				f()
				s.Count("refreshes", 1)
			}
		}()
	}
	if !p.Seq {
		bg(p.RefreshMs, w.c.UpdateMetadata)
		bg(p.SizeMs, w.c.UpdateSize)
		for i := 0; i < p.Readers; i++ {
			bg(1, func() {
				w.c.Query("*", nil, func(_ []string, l *ctree.Leaf, v interface{}) error { return nil })
				w.c.HasTarget("t0")
				for _, md := range w.c.Metadata() {
					md.GetInt(metadata.LeafCount)
				}
			})
		}
	}
	for a := range built {
		a := a
		s.Go(func() {
			for i, op := range built[a] {
				if s.Failed() {
					return
				}
				w.do(i, op)
			}
		})
	}
	s.Join()
	stopBg.Store(true)
	s.Calm()
	time.Sleep(20 * time.Millisecond)
	s.Quiesce()
	if s.Failed() || w.stop || sim.RaceEnabled {
		return
	}
	w.final()
	if w.prof == "iso" && !s.Failed() {
		w.alone(built)
	}
	for a := range built {
		for i, op := range built[a] {
			if op.msg != nil && !proto.Equal(op.msg, op.orig) {
				w.fail("input-modified", "at the end of the run the notification submitted by actor %d op %d is no longer what the caller built:\n got %s\nwant %s", a, i, show(op.msg), show(op.orig))
			}
		}
	}
}

//go:norace
func (w *world) clock() time.Time {
	w.ticks++
	return time.Now().Round(0).Add(time.Duration(w.skewUs)*time.Microsecond + time.Duration(w.ticks))
}

// doRace performs op and nothing else, so that the harness adds no synchronisation.
func (w *world) doRace(op *builtOp) {
	name := w.m[op.T].name
	switch op.Kind {
	case "sleep":
		time.Sleep(time.Duration(op.Us) * time.Microsecond)
	case "noti":
		w.s.NonTrivial()
		w.c.GnmiUpdate(op.msg)
	case "sync":
		w.c.Sync(name)
	case "connect":
		w.c.Connect(name)
	case "connerr":
		w.c.ConnectError(name, errors.New("refused"))
	case "reset":
		w.c.Reset(name)
	case "remove":
		w.c.Remove(name)
	case "add":
		if !w.c.HasTarget(name) {
			w.c.Add(name)
		}
	case "refresh":
		w.c.UpdateMetadata()
	case "size":
		w.c.UpdateSize()
	}
}

func show(m proto.Message) string {
	return strings.Join(strings.Fields(fmt.Sprint(m)), " ")
}

// onFeed is the registered change-feed callback.
func (w *world) onFeed(l *ctree.Leaf) {
	n, ok := l.Value().(*pb.Notification)
	if sim.RaceEnabled {
		return
	}
	if !ok {
		w.fail("feed-type", "the change feed delivered a %T", l.Value())
		return
	}
	n = proto.Clone(n).(*pb.Notification)
	m := w.byName[n.GetPrefix().GetTarget()]
	if m == nil {
		w.fail("feed-target", "the change feed delivered a notification for target %q: %s", n.GetPrefix().GetTarget(), show(n))
		return
	}
	w.s.Logf("feed %s", show(n))
	m.feedLog = append(m.feedLog, feedEntry{n})
	ApplyFeed(m.feed, n)
}

// ApplyFeed replays one change-feed notification.
func ApplyFeed(f map[string]*gen.Leaf, n *pb.Notification) {
	if n.GetAtomic() {
		if len(n.GetUpdate()) > 0 {
			idx := gen.FullIndex(n.GetPrefix(), nil)
			for k := range f {
				if gen.Prefix(idx, gen.Unkey(k)) {
					delete(f, k)
				}
			}
			f[gen.Key(idx)] = gen.LeafOf(n)
		}
	} else {
		for _, u := range n.GetUpdate() {
			f[gen.Key(gen.FullIndex(n.GetPrefix(), u.GetPath()))] = &gen.Leaf{TS: n.GetTimestamp(), Ups: []gen.Upd{{Val: u.GetVal()}}}
		}
	}
	for _, d := range n.GetDelete() {
		pat := gen.FullIndex(n.GetPrefix(), d)
		for k := range f {
			if gen.Match(pat, gen.Unkey(k)) {
				delete(f, k)
			}
		}
	}
}

// snapshot reads everything stored for a target.
func (w *world) snapshot(m *mtarget) (real, meta leaves, err error) { return w.snap(w.c, m) }

func (w *world) snap(c *cache.Cache, m *mtarget) (real, meta leaves, err error) {
	real, meta = leaves{}, leaves{}
	err = c.Query(m.name, nil, func(p []string, _ *ctree.Leaf, v interface{}) error {
		n, ok := v.(*pb.Notification)
		if !ok {
			w.fail("stored-type", "target %s path %v holds a %T", m.name, p, v)
			return nil
		}
		k := gen.Key(p)
		into := real
		if p[0] == metadata.Root {
			into = meta
		}
		if into[k] != nil {
			w.fail("query-twice", "target %s: one query reported %s twice", m.name, gen.Show(k))
		}
		if t := n.GetPrefix().GetTarget(); t != m.name {
			w.fail("isolation", "the query for target %s reported a notification of target %q", m.name, t)
		}
		into[k] = gen.LeafOf(n)
		return nil
	})
	return
}

func (l leaves) clone() leaves {
	c := leaves{}
	for k, v := range l {
		c[k] = v
	}
	return c
}

// expectUpdate applies the timestamp discipline for one update. now bounds the
// wall clock during the call. Verdicts: ok, stale, future, conflict; "?" when
// the statement leaves it open (identical content in another encoding).
func (w *world) expectUpdate(m *mtarget, st leaves, n *pb.Notification, u *pb.Update, nowLo, nowHi int64) (verdict string, alt string) {
	var idx []string
	l := &gen.Leaf{TS: n.GetTimestamp()}
	if n.GetAtomic() {
		idx = gen.FullIndex(n.GetPrefix(), nil)
		l = gen.LeafOf(n)
	} else {
		idx = gen.FullIndex(n.GetPrefix(), u.GetPath())
		l.Ups = []gen.Upd{{Val: u.GetVal()}}
	}
	k := gen.Key(idx)
	old := st[k]
	if old == nil {
		for o := range st {
			oi := gen.Unkey(o)
			if gen.Prefix(oi, idx) || gen.Prefix(idx, oi) {
				return "conflict", ""
			}
		}
		st[k] = l
		return "ok", ""
	}
	switch {
	case l.TS < old.TS:
		return "stale", ""
	case l.TS == old.TS:
		if old.SameContent(l) {
			// Identical. The same leaf written with another split between prefix
			// and path, or another path encoding, may also count as a replacement.
			return "stale", "ok"
		}
	case w.p.FutureUs > 0:
		th := w.p.FutureUs * 1000
		aheadOfWall := l.TS-nowHi > th
		maybeAhead := l.TS-nowLo > th
		aheadOfLatest := m.latest > 0 && l.TS-m.latest > th
		if aheadOfWall && aheadOfLatest {
			return "future", ""
		}
		if maybeAhead && aheadOfLatest {
			st[k] = l
			return "ok", "future"
		}
	}
	st[k] = l
	return "ok", ""
}

func (w *world) wall() int64 {
	return time.Now().UnixNano() + w.skewUs*1000 + w.ticks
}

func (w *world) do(i int, op *builtOp) {
	s := w.s
	m := w.m[op.T]
	if w.stop {
		return
	}
	if sim.RaceEnabled {
		w.doRace(op)
		return
	}
	s.Y()
	switch op.Kind {
	case "sleep":
		time.Sleep(time.Duration(op.Us) * time.Microsecond)
		return
	case "clock":
		if w.prof == "ts" {
			w.skewUs += op.Us
			s.Fault("clock_jump")
		}
		return
	}
	var others map[string]string
	if w.p.Seq && op.Kind != "refresh" && op.Kind != "size" {
		others = w.othersState(m)
	}
	feedFrom := len(m.feedLog)
	before := m.cur.clone()
	switch op.Kind {
	case "noti":
		w.doNoti(i, op, m, feedFrom)
	case "sync", "connect", "connerr":
		if !m.exists {
			return
		}
		u0 := w.counts(m)
		s.Logf("%s %s", op.Kind, m.name)
		n := int64(1)
		switch op.Kind {
		case "sync":
			w.c.Sync(m.name)
			m.sync = true
		case "connect":
			w.c.Connect(m.name)
			m.connected = true
			n = 2
		case "connerr":
			w.c.ConnectError(m.name, errors.New("refused"))
		}
		s.Y()
		u1 := w.counts(m)
		// One update each; Connect also deletes the connect error, which may be
		// counted as updated.
		got := u1.u + u1.su + u1.st + u1.fu - u0.u - u0.su - u0.st - u0.fu
		if w.prof == "meta" && (got < 1 || got > n) {
			w.fail("counters", "%s on %s: updated+suppressed+stale+future grew by %d", op.Kind, m.name, got)
		}
	case "reset":
		s.Logf("reset %s", m.name)
		had, _, _ := w.snapshot(m)
		w.c.Reset(m.name)
		if w.c2 != nil {
			w.c2.Reset(m.name)
		}
		if m.exists {
			s.Fault("target_reset")
			m.cur = leaves{}
			m.latest = 0
			m.sync, m.connected = false, false
			w.afterReset(m)
			w.covered("reset", m, had, feedFrom)
			m.tainted = false
		}
	case "remove":
		if w.prof == "ts" {
			return
		}
		s.Logf("remove %s", m.name)
		had, _, _ := w.snapshot(m)
		w.c.Remove(m.name)
		if w.c2 != nil {
			w.c2.Remove(m.name)
		}
		if m.exists {
			s.Fault("target_remove")
			m.exists = false
			m.cur = leaves{}
			w.afterRemove(m, feedFrom)
			w.covered("remove", m, had, feedFrom)
		}
		return
	case "add":
		if w.prof == "ts" || m.exists {
			return
		}
		s.Logf("add %s", m.name)
		w.c.Add(m.name)
		if w.c2 != nil {
			w.c2.Add(m.name)
		}
		feed, log := m.feed, m.feedLog
		*m = mtarget{name: m.name, exists: true, cur: leaves{}, feed: feed, feedLog: log}
	case "refresh":
		if w.p.Seq {
			s.Logf("refresh")
			w.refresh()
		}
		return
	case "size":
		if w.p.Seq {
			w.c.UpdateSize()
		}
		return
	default:
		return
	}
	if s.Failed() || w.stop {
		return
	}
	s.Y()
	w.check(i, op, m, before)
	w.twinStep(i, op, m)
	if others != nil {
		now := w.othersState(m)
		for _, k := range sim.SortedKeys(others) {
			if others[k] != now[k] {
				w.fail("isolation", "op %d (%s on %s) changed target %s:\nbefore %s\nafter  %s", i, op.Kind, m.name, k, others[k], now[k])
			}
		}
	}
}

// covered: every leaf stored before a reset or removal is covered by a delete
// the operation announced.
func (w *world) covered(what string, m *mtarget, had leaves, feedFrom int) {
	for _, k := range sim.SortedKeys(had) {
		ok := false
		for _, e := range m.feedLog[feedFrom:] {
			for _, d := range e.n.GetDelete() {
				pat := gen.FullIndex(e.n.GetPrefix(), d)
				ok = ok || gen.Match(pat, gen.Unkey(k))
			}
		}
		if !ok {
			w.fail(what, "the %s of %s announced no delete covering %s", what, m.name, gen.Show(k))
		}
	}
}

// twinStep feeds the parts of a notification, updates first, one at a time to
// the twin cache and compares what the two store.
func (w *world) twinStep(i int, op *builtOp, m *mtarget) {
	if w.c2 == nil || !m.exists {
		return
	}
	parts := 0
	if op.Kind == "noti" {
		n := op.orig
		if n.GetAtomic() || len(n.GetUpdate())+len(n.GetDelete()) <= 1 {
			w.c2.GnmiUpdate(proto.Clone(n).(*pb.Notification))
		} else {
			for _, u := range n.GetUpdate() {
				c := proto.Clone(n).(*pb.Notification)
				c.Update, c.Delete = []*pb.Update{proto.Clone(u).(*pb.Update)}, nil
				w.c2.GnmiUpdate(c)
				parts++
			}
			for _, d := range n.GetDelete() {
				c := proto.Clone(n).(*pb.Notification)
				c.Update, c.Delete = nil, []*pb.Path{proto.Clone(d).(*pb.Path)}
				w.c2.GnmiUpdate(c)
				parts++
			}
			w.s.Probe("split_compared")
		}
	}
	a, _, err1 := w.snap(w.c, m)
	b, _, err2 := w.snap(w.c2, m)
	if err1 != nil || err2 != nil {
		w.fail("query", "Query(%s): %v, %v", m.name, err1, err2)
		return
	}
	w.compare("multi-split", fmt.Sprintf("op %d (%d parts): applied as one notification instead of one at a time", i, parts), a, b, true)
}

// alone replays what each target was sent on a cache without the others'
// traffic; both must hold the same.
func (w *world) alone(built [][]*builtOp) {
	var names []string
	for _, m := range w.m {
		names = append(names, m.name)
	}
	for _, m := range w.m {
		c := cache.New(names, w.opts...)
		exists := true
		for _, ops := range built {
			for _, op := range ops {
				if w.m[op.T] != m {
					continue
				}
				switch op.Kind {
				case "noti":
					c.GnmiUpdate(proto.Clone(op.orig).(*pb.Notification))
				case "reset":
					c.Reset(m.name)
				case "remove":
					c.Remove(m.name)
					exists = false
				case "add":
					if !exists {
						c.Add(m.name)
						exists = true
					}
				}
			}
		}
		if c.HasTarget(m.name) != w.c.HasTarget(m.name) {
			w.fail("isolation-twin", "target %s: known is %v, but %v when the other targets are silent", m.name, w.c.HasTarget(m.name), c.HasTarget(m.name))
			continue
		}
		if !exists {
			continue
		}
		a, _, err1 := w.snap(w.c, m)
		b, _, err2 := w.snap(c, m)
		if err1 != nil || err2 != nil {
			w.fail("query", "Query(%s): %v, %v", m.name, err1, err2)
			continue
		}
		w.compare("isolation-twin", fmt.Sprintf("target %s, compared with the same traffic when the other targets are silent", m.name), a, b, true)
		w.s.Probe("alone_compared")
	}
}

// othersState renders everything stored and reported for the other targets.
func (w *world) othersState(m *mtarget) map[string]string {
	out := map[string]string{}
	mds := w.c.Metadata()
	for _, o := range w.m {
		if o == m || !o.exists {
			continue
		}
		var b strings.Builder
		real, meta, err := w.snapshot(o)
		if err != nil {
			out[o.name] = err.Error()
			continue
		}
		for _, l := range []leaves{real, meta} {
			for _, k := range sim.SortedKeys(l) {
				fmt.Fprintf(&b, "%s@%d=%s;", gen.Show(k), l[k].TS, l[k])
			}
		}
		b.WriteString(mdString(mds[o.name]))
		out[o.name] = b.String()
	}
	return out
}

func mdString(md *metadata.Metadata) string {
	if md == nil {
		return "no metadata"
	}
	var b strings.Builder
	for _, k := range sim.SortedKeys(metadata.TargetIntValues) {
		v, err := md.GetInt(k)
		fmt.Fprintf(&b, "%s=%d/%v ", k, v, err)
	}
	for _, k := range sim.SortedKeys(metadata.TargetBoolValues) {
		v, err := md.GetBool(k)
		fmt.Fprintf(&b, "%s=%v/%v ", k, v, err)
	}
	for _, k := range sim.SortedKeys(metadata.TargetStrValues) {
		v, err := md.GetStr(k)
		fmt.Fprintf(&b, "%s=%s/%v ", k, v, err)
	}
	return b.String()
}

type cnt struct{ u, su, st, fu, empty, leaf, add, del int64 }

func (w *world) counts(m *mtarget) cnt {
	md := w.c.Metadata()[m.name]
	if md == nil {
		return cnt{}
	}
	g := func(k string) int64 {
		v, err := md.GetInt(k)
		if err != nil && w.prof == "meta" {
			w.fail("counters", "target %s: metadata %s: %v", m.name, k, err)
		}
		return v
	}
	return cnt{g(metadata.UpdateCount), g(metadata.SuppressedCount), g(metadata.StaleCount), g(metadata.FutureCount), g(metadata.EmptyCount), g(metadata.LeafCount), g(metadata.AddCount), g(metadata.DelCount)}
}

// part is one update of a notification with what the reference says about it.
type part struct {
	verdict, alt string
	suppressible bool // may be withheld from the feed
	key          string
	leaf, old    *gen.Leaf
}

func (w *world) doNoti(i int, op *builtOp, m *mtarget, feedFrom int) {
	s := w.s
	n := op.msg
	if op.N.Dup || op.Again {
		s.Fault("duplicate_delivery")
	}
	if op.N.Late {
		s.Fault("reordered_delivery")
	}
	s.Logf("op %d submit %s: %s", i, m.name, show(n))
	c0 := w.counts(m)
	exp := m.cur.clone()
	nowLo := w.wall()
	t0 := time.Now()
	err := w.c.GnmiUpdate(n)
	t1 := time.Now()
	nowHi := w.wall() + 1
	c1 := w.counts(m)
	s.Logf("op %d -> %v", i, err)
	if !proto.Equal(n, op.orig) {
		w.fail("input-modified", "op %d: the caller's notification was modified:\n got %s\nwant %s", i, show(n), show(op.orig))
		return
	}
	if !m.exists {
		if err == nil {
			w.fail("removed-target", "op %d: an update for the removed target %s was accepted", i, m.name)
		}
		return
	}
	if len(m.cur) > 0 || len(n.Update) > 0 {
		s.NonTrivial()
	}
	skewed := w.prof == "ts" && !w.p.Seq // another actor may move the clock meanwhile
	if skewed {
		for _, a := range w.p.Actors {
			for _, o := range a {
				if o.Kind == "clock" {
					nowLo -= abs(o.Us) * 1000
					nowHi += abs(o.Us) * 1000
				}
			}
		}
	}
	announced := m.feedLog[feedFrom:]
	var parts []part
	ups := n.GetUpdate()
	oldLatest := m.latest
	if n.GetAtomic() {
		if len(n.GetDelete()) > 0 {
			if err == nil {
				w.fail("atomic-delete", "op %d: an atomic notification with deletes was accepted", i)
			}
			return
		}
		if len(ups) > 0 {
			ups = ups[:1]
		}
	}
	for _, u := range ups {
		idx := gen.FullIndex(n.GetPrefix(), u.GetPath())
		if n.GetAtomic() {
			idx = gen.FullIndex(n.GetPrefix(), nil)
		}
		k := gen.Key(idx)
		old := exp[k]
		v, alt := w.expectUpdate(m, exp, n, u, nowLo, nowHi)
		p := part{verdict: v, alt: alt, key: k, old: old}
		if v == "ok" {
			p.leaf = exp[k]
			if n.Timestamp > m.latest {
				m.latest = n.Timestamp
			}
			p.suppressible = !w.p.NoEvent && old != nil && old.SameContent(p.leaf)
		}
		parts = append(parts, p)
	}
	for _, d := range n.GetDelete() {
		pat := gen.FullIndex(n.GetPrefix(), d)
		for _, k := range sim.SortedKeys(exp) {
			if gen.Match(pat, gen.Unkey(k)) {
				if exp[k].TS == n.Timestamp {
					s.Probe("delete_at_stored_timestamp")
				}
				if exp[k].TS < n.Timestamp {
					s.Probe("delete_removed_leaf")
					delete(exp, k)
				}
			}
		}
	}
	// Open verdicts are resolved by what the cache holds and returned.
	open := false
	for j := range parts {
		if parts[j].alt != "" {
			open = true
			s.Probe("open_verdict")
		}
	}
	if open {
		// Identical content: content is the same either way. A clock-dependent
		// future verdict: adopt the cache's decision if it is one of the two.
		real, _, qerr := w.snapshot(m)
		if qerr != nil {
			w.fail("query", "Query(%s): %v", m.name, qerr)
			return
		}
		for j := range parts {
			if parts[j].alt != "future" {
				continue
			}
			if len(parts) > 1 || len(n.GetDelete()) > 0 {
				// Several updates: too many combinations to resolve; resynchronise.
				m.cur = real
				w.stop = true // the rest of this run is not judged
				s.Count("stopped_open_verdict", 1)
				return
			}
			g := real[parts[j].key]
			if g != nil && parts[j].old != nil && g.TS == parts[j].old.TS {
				exp[parts[j].key] = parts[j].old
				parts[j].verdict = "future"
				m.latest = oldLatest
			}
		}
	}
	m.cur = exp
	for j := range parts {
		s.Probe("update_" + parts[j].verdict)
	}
	// The returned error.
	rejected, maybe := 0, 0
	for _, p := range parts {
		if p.verdict != "ok" {
			rejected++
		}
		if p.alt == "ok" {
			maybe++
		}
	}
	agree := true // the cache's verdicts agree with the timestamp discipline
	verdict := func(j int) string { return parts[j].verdict }
	switch {
	case rejected == 0 && err != nil:
		agree = false
		w.fail("rejected", "op %d: every part should be accepted but GnmiUpdate returned %v", i, err)
	case rejected > maybe && err == nil:
		agree = false
		w.fail("accepted", "op %d: GnmiUpdate returned nil although %d part(s) should be rejected (%s)", i, rejected, verdicts(len(parts), verdict))
	}
	if len(parts) == 1 && len(n.GetDelete()) == 0 && err != nil {
		bad := false
		switch parts[0].verdict {
		case "stale":
			bad = !errors.Is(err, cache.ErrStale)
		case "future":
			bad = !errors.Is(err, cache.ErrFuture)
		case "conflict":
			bad = errors.Is(err, cache.ErrStale) || errors.Is(err, cache.ErrFuture)
		}
		if bad {
			agree = false
			w.fail("error-kind", "op %d: a %s update was rejected with %v", i, parts[0].verdict, err)
		}
	}
	if s.Failed() {
		return
	}
	if real, _, _ := w.snapshot(m); w.prof != "ts" {
		w.step("", m, real)
	}
	if !agree {
		m.tainted = true
	}
	// The feed of this call. Every accepted change must be announced.
	nAnn := 0 // announced updates of this call
	for _, e := range announced {
		if us := e.n.GetUpdate(); len(us) > 0 {
			if idx := gen.FullIndex(e.n.GetPrefix(), us[0].GetPath()); len(idx) > 0 && idx[0] == metadata.Root {
				continue // the periodic refresh
			}
			if e.n.GetAtomic() {
				nAnn++
			} else {
				nAnn += len(us)
			}
		}
	}
	lo, hi := 0, 0
	for _, p := range parts {
		if p.verdict == "ok" {
			hi++
			if !p.suppressible {
				lo++
			}
		} else if p.alt == "ok" {
			hi++
		}
		if p.suppressible {
			s.Probe("suppressible_update")
		}
	}
	if !m.tainted && (nAnn < lo || nAnn > hi) {
		w.fail("feed-count", "op %d: %d updates were announced to the change feed; between %d and %d were expected (%s)", i, nAnn, lo, hi, verdicts(len(parts), verdict))
	}
	if w.prof == "meta" {
		w.countersCheck(i, m, n, err, c0, c1, parts, int64(nAnn))
		okN := 0
		for _, p := range parts {
			if p.verdict == "ok" || p.alt == "ok" {
				okN++
			}
		}
		for k := range okN {
			w.sample(m, n, t0, t1, k < nAnn)
		}
	}
}

// countersCheck: every update is counted in exactly one class.
func (w *world) countersCheck(i int, m *mtarget, n *pb.Notification, err error, c0, c1 cnt, parts []part, nAnn int64) {
	d := cnt{u: c1.u - c0.u, su: c1.su - c0.su, st: c1.st - c0.st, fu: c1.fu - c0.fu, empty: c1.empty - c0.empty}
	ups, dels := int64(len(n.GetUpdate())), int64(len(n.GetDelete()))
	bad := func(format string, a ...any) {
		w.fail("counters", "op %d: the counters changed by updated=%d suppressed=%d stale=%d future=%d empty=%d on %s", i, d.u, d.su, d.st, d.fu, d.empty, fmt.Sprintf(format, a...))
	}
	if ups+dels == 0 {
		if d.empty != 1 || d.u+d.su+d.st+d.fu != 0 {
			bad("an empty notification")
		}
		return
	}
	if d.empty != 0 {
		bad("a notification that is not empty")
		return
	}
	if w.p.NoEvent && d.su != 0 {
		bad("a notification although event-driven emulation is off")
		return
	}
	// unit: a container counts as one or as its number of updates.
	unit := func(x int64) bool { return x == 1 || (n.GetAtomic() && x == ups) }
	if (len(parts) == 1 && dels == 0) || n.GetAtomic() {
		switch {
		case err == nil:
			if !unit(d.u+d.su) || d.u*d.su != 0 || d.st+d.fu != 0 {
				bad("an accepted update")
			} else if (nAnn > 0) != (d.u > 0) {
				bad("an accepted update that was announced %d times", nAnn)
			}
		case errors.Is(err, cache.ErrStale):
			if !unit(d.st) || d.u+d.su+d.fu != 0 {
				bad("a stale update")
			}
		case errors.Is(err, cache.ErrFuture):
			if !unit(d.fu) || d.u+d.su+d.st != 0 {
				bad("a future update")
			}
		default:
			if d.u+d.su+d.st+d.fu != 0 {
				bad("an update rejected with %v", err)
			}
		}
		return
	}
	// Several parts. Deletes may count as updated or not at all.
	if m.tainted {
		return
	}
	var st, fu, okN, open int64
	for _, p := range parts {
		switch {
		case p.verdict == "stale" && p.alt == "ok":
			open++
		case p.verdict == "stale":
			st++
		case p.verdict == "future":
			fu++
		case p.verdict == "ok":
			okN++
		}
	}
	good := d.fu == fu && d.st >= st && d.st <= st+open
	us := d.u + d.su + d.st // account for the rest
	good = good && us >= st+open+okN && us <= st+open+okN+dels
	if open == 0 {
		good = good && d.su == okN-nAnn
	}
	if !good {
		bad("a notification with %d accepted (%d announced), %d stale, %d future updates and %d deletes", okN, nAnn, st, fu, dels)
	}
}

func (w *world) sample(m *mtarget, n *pb.Notification, t0, t1 time.Time, surely bool) {
	if !m.sync || !w.p.Seq {
		return
	}
	ts := time.Unix(0, n.Timestamp)
	m.samples = append(m.samples, sample{t0.Sub(ts), t1.Sub(ts), t1, surely, len(m.refreshes)})
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func verdicts(n int, f func(int) string) string {
	var x []string
	for i := 0; i < n; i++ {
		x = append(x, f(i))
	}
	return strings.Join(x, ",")
}

// check compares what is stored for m with the reference after an operation.
func (w *world) check(i int, op *builtOp, m *mtarget, before leaves) {
	if !m.exists {
		return
	}
	real, meta, err := w.snapshot(m)
	if err != nil {
		w.fail("query", "Query(%s): %v", m.name, err)
		return
	}
	what := fmt.Sprintf("after op %d (%s on %s)", i, op.Kind, m.name)
	w.step(what, m, real)
	w.feedCheck(what, m, real, meta)
	if w.prof == "meta" {
		w.leafCounts(what, m, real)
	}
}

// step judges the stored content; profiles that do not own it adopt it.
func (w *world) step(what string, m *mtarget, real leaves) {
	if w.prof == "ts" {
		w.compare("step", what, real, m.cur, true)
		return
	}
	same := len(real) == len(m.cur)
	for k, l := range real {
		o := m.cur[k]
		same = same && o != nil && o.TS == l.TS && o.SameContent(l)
	}
	if !same {
		m.cur = real
		m.tainted = true
		w.s.Count("resync", 1)
	}
}

func (w *world) leafCounts(what string, m *mtarget, real leaves) {
	c := w.counts(m)
	if c.leaf != int64(len(real)) {
		w.fail("leaf-count", "%s: the leaf count is %d but %d non-metadata leaves are stored", what, c.leaf, len(real))
	} else if c.leaf != c.add-c.del {
		w.fail("leaf-count", "%s: the leaf count is %d but %d were added and %d deleted", what, c.leaf, c.add, c.del)
	}
}

func (w *world) compare(class, what string, got, want leaves, ts bool) {
	for _, k := range sim.SortedKeys(want) {
		g := got[k]
		switch {
		case g == nil:
			w.fail(class, "%s: leaf %s = %s is missing", what, gen.Show(k), want[k])
		case !g.SameContent(want[k]):
			w.fail(class, "%s: leaf %s is %s, want %s", what, gen.Show(k), g, want[k])
		case ts && g.TS != want[k].TS:
			w.fail(class, "%s: leaf %s has timestamp %d, want %d", what, gen.Show(k), g.TS, want[k].TS)
		}
	}
	for _, k := range sim.SortedKeys(got) {
		if want[k] == nil {
			w.fail(class, "%s: leaf %s = %s should not be there", what, gen.Show(k), got[k])
		}
	}
}

// feedCheck: the replayed feed equals the content returned to queries.
func (w *world) feedCheck(what string, m *mtarget, real, meta leaves) {
	fr, fm := leaves{}, leaves{}
	for k, l := range m.feed {
		if gen.Unkey(k)[0] == metadata.Root {
			fm[k] = l
		} else {
			fr[k] = l
		}
	}
	w.compare("feed-replay", what+": replaying the change feed", fr, real, false)
	if w.p.Seq {
		w.compare("feed-replay-meta", what+": replaying the change feed", fm, meta, false)
	}
}

func (w *world) afterReset(m *mtarget) {
	s := w.s
	s.Y()
	md := w.c.Metadata()[m.name]
	if md == nil {
		w.fail("reset-metadata", "after Reset(%s) the target has no metadata", m.name)
		return
	}
	for _, k := range []string{metadata.Sync, metadata.Connected} {
		if v, err := md.GetBool(k); err != nil || v {
			w.fail("reset-metadata", "after Reset(%s) metadata %s is %v (%v)", m.name, k, v, err)
		}
	}
	for _, k := range []string{metadata.AddCount, metadata.DelCount, metadata.EmptyCount, metadata.LeafCount, metadata.UpdateCount, metadata.StaleCount, metadata.FutureCount, metadata.SuppressedCount} {
		if v, err := md.GetInt(k); err != nil || v != 0 {
			w.fail("reset-metadata", "after Reset(%s) metadata %s is %d (%v)", m.name, k, v, err)
		}
	}
	if v, err := md.GetInt(metadata.LatestTimestamp); err == nil && v > 0 {
		w.fail("reset-metadata", "after Reset(%s) metadata %s is still %d", m.name, metadata.LatestTimestamp, v)
	}
	for _, k := range []string{metadata.ConnectedAddr, metadata.ConnectError} {
		if v, err := md.GetStr(k); err == nil && v != "" {
			w.fail("reset-metadata", "after Reset(%s) metadata %s is still %q", m.name, k, v)
		}
	}
	if !w.p.Seq {
		return
	}
	// Stored metadata leaves report the same.
	_, meta, err := w.snapshot(m)
	if err != nil {
		return
	}
	for _, k := range sim.SortedKeys(meta) {
		name := gen.Unkey(k)[len(gen.Unkey(k))-1]
		v := meta[k].Ups[0].Val
		excluded := false
		for _, e := range w.p.Excluded {
			excluded = excluded || e == name
		}
		if excluded || w.prof == "ts" {
			continue // a backward clock jump may leave the stored leaf newer
		}
		switch name {
		case metadata.Sync, metadata.Connected:
			if v.GetBoolVal() {
				w.fail("reset-metadata", "after Reset(%s) the stored leaf %s is true", m.name, gen.Show(k))
			}
		case metadata.AddCount, metadata.DelCount, metadata.EmptyCount, metadata.LeafCount, metadata.UpdateCount, metadata.StaleCount, metadata.FutureCount, metadata.SuppressedCount:
			if v.GetIntVal() != 0 {
				w.fail("reset-metadata", "after Reset(%s) the stored leaf %s is %d", m.name, gen.Show(k), v.GetIntVal())
			}
		case metadata.LatestTimestamp:
			if v.GetIntVal() > 0 {
				w.fail("reset-metadata", "after Reset(%s) the stored leaf %s is still %d", m.name, gen.Show(k), v.GetIntVal())
			}
		case metadata.ConnectedAddr, metadata.ConnectError:
			if v.GetStringVal() != "" {
				w.fail("reset-metadata", "after Reset(%s) the stored leaf %s is still %q", m.name, gen.Show(k), v.GetStringVal())
			}
		}
	}
}

func (w *world) afterRemove(m *mtarget, feedFrom int) {
	if w.c.HasTarget(m.name) {
		w.fail("remove", "after Remove(%s) HasTarget is true", m.name)
	}
	if err := w.c.Query(m.name, nil, func([]string, *ctree.Leaf, interface{}) error { return nil }); err == nil {
		w.fail("remove", "after Remove(%s) a query for it succeeds", m.name)
	}
	if w.c.Metadata()[m.name] != nil {
		w.fail("remove", "after Remove(%s) its metadata is still reported", m.name)
	}
	w.c.Query("*", nil, func(_ []string, _ *ctree.Leaf, v interface{}) error {
		if n, ok := v.(*pb.Notification); ok && n.GetPrefix().GetTarget() == m.name {
			w.fail("remove", "after Remove(%s) an all-targets query reports %s", m.name, show(n))
		}
		return nil
	})
	whole := false
	for _, e := range m.feedLog[feedFrom:] {
		for _, d := range e.n.GetDelete() {
			if idx := gen.FullIndex(e.n.GetPrefix(), d); len(idx) == 0 || (len(idx) == 1 && idx[0] == "*") {
				whole = true
			}
		}
	}
	if !whole {
		w.fail("remove", "Remove(%s) did not announce a whole-target delete", m.name)
	}
}

// refresh runs the periodic metadata update (sequential runs only) and judges
// what it exports.
func (w *world) refresh() {
	t0 := time.Now()
	w.c.UpdateMetadata()
	t1 := time.Now()
	for _, m := range w.m {
		if !m.exists {
			continue
		}
		md := w.c.Metadata()[m.name]
		real, meta, err := w.snapshot(m)
		if err != nil {
			w.fail("query", "Query(%s): %v", m.name, err)
			continue
		}
		w.feedCheck("after the refresh", m, real, meta)
		w.step("after the refresh of "+m.name, m, real)
		if w.prof != "meta" {
			continue
		}
		w.leafCounts("after the refresh", m, real)
		if v, err := md.GetInt(metadata.LatestTimestamp); m.latest > 0 && !m.tainted && (err != nil || v != m.latest) {
			w.fail("latest-timestamp", "target %s reports latest timestamp %d (%v); the greatest accepted one is %d", m.name, v, err, m.latest)
		}
		// What is stored under meta/ is what the counters say.
		for _, k := range sim.SortedKeys(metadata.TargetIntValues) {
			v, err := md.GetInt(k)
			if err != nil || w.excluded(k) {
				continue
			}
			l := meta[gen.Key(metadata.TargetIntValues[k].Path)]
			if l == nil || l.Ups[0].Val.GetIntVal() != v {
				w.fail("exported-metadata", "target %s: after the refresh metadata %s is %d but the stored leaf is %v", m.name, k, v, l)
			}
		}
		for _, k := range sim.SortedKeys(metadata.TargetBoolValues) {
			v, err := md.GetBool(k)
			if err != nil || w.excluded(k) {
				continue
			}
			l := meta[gen.Key([]string{metadata.Root, k})]
			if l == nil || l.Ups[0].Val.GetBoolVal() != v {
				w.fail("exported-metadata", "target %s: after the refresh metadata %s is %v but the stored leaf is %v", m.name, k, v, l)
			}
		}
		w.latency(m, md, t0, t1)
	}
}

func (w *world) excluded(k string) bool {
	for _, e := range w.p.Excluded {
		if e == k {
			return true
		}
	}
	return false
}

// latency judges the exported statistics of every window. A window of size d at
// refresh time r covers the slots (the intervals between refreshes) that end
// after r-d; nothing is judged when no sample is certainly within the window.
func (w *world) latency(m *mtarget, md *metadata.Metadata, t0, t1 time.Time) {
	s := w.s
	m.refreshes = append(m.refreshes, t1)
	for _, d := range w.wins {
		edge := t0.Add(-d)
		var lo, hi time.Duration
		n, strict := 0, 0
		for _, x := range m.samples {
			if !m.refreshes[x.slot].After(edge) {
				continue // its whole slot has left the window
			}
			if n == 0 || x.min < lo {
				lo = x.min
			}
			if n == 0 || x.max > hi {
				hi = x.max
			}
			n++
			if x.surely && x.at.After(t1.Add(-d)) {
				strict++
			}
		}
		prec := time.Duration(w.p.PrecUs) * time.Microsecond
		if prec == 0 {
			prec = 1
		}
		if strict == 0 {
			continue // nothing (certainly) observed in the window: nothing to judge
		}
		for _, st := range []latency.StatType{latency.Avg, latency.Max, latency.Min} {
			v, err := md.GetInt(latency.MetadataName(d, st))
			if err != nil {
				continue
			}
			tol := time.Duration(0)
			if st == latency.Avg {
				tol = prec
			}
			s.Probe("latency_judged")
			if time.Duration(v) < lo-tol || time.Duration(v) > hi+tol {
				w.fail("latency", "target %s: the exported %v latency of window %v is %v; the %d latencies observed in it lie in [%v, %v]", m.name, st, d, time.Duration(v), n, lo, hi)
			}
		}
	}
}

// final judges the end of a concurrent run.
func (w *world) final() {
	s := w.s
	for _, m := range w.m {
		if !m.exists {
			continue
		}
		real, meta, err := w.snapshot(m)
		if err != nil {
			w.fail("query", "Query(%s): %v", m.name, err)
			return
		}
		w.step("at the end", m, real)
		w.feedCheck("at the end", m, real, meta)
		if w.prof == "meta" {
			w.leafCounts("at the end", m, real)
		}
	}
	if w.prof == "ts" || s.Failed() {
		return
	}
	w.c.UpdateMetadata()
	for _, m := range w.m {
		if !m.exists {
			continue
		}
		md := w.c.Metadata()[m.name]
		if w.prof == "meta" {
			if v, err := md.GetInt(metadata.LatestTimestamp); m.latest > 0 && !m.tainted && (err != nil || v != m.latest) {
				w.fail("latest-timestamp", "target %s reports latest timestamp %d (%v); the greatest accepted one is %d", m.name, v, err, m.latest)
			}
		}
		if v, err := md.GetBool(metadata.Sync); err != nil || v != m.sync {
			w.fail("lifecycle-metadata", "target %s: metadata sync is %v (%v) but the last event says %v", m.name, v, err, m.sync)
		}
		if v, err := md.GetBool(metadata.Connected); err != nil || v != m.connected {
			w.fail("lifecycle-metadata", "target %s: metadata connected is %v (%v) but the last event says %v", m.name, v, err, m.connected)
		}
	}
}
