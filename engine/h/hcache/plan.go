// Package hcache simulates target streams (reordered, duplicated, delayed,
// with skewed and jumping clocks), lifecycle events, the periodic refresh and
// readers on one cache.Cache (C02, C03, C14, C15).
package hcache

import (
	"strings"

	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// Noti describes one notification of a target.
type Noti struct {
	TS     int64      `json:"ts"` // microseconds relative to the simulated epoch
	Atomic bool       `json:"atomic,omitempty"`
	Origin string     `json:"o,omitempty"`
	PO     bool       `json:"po,omitempty"` // the origins are in the paths
	Pre    []string   `json:"pre,omitempty"`
	Share  int        `json:"share,omitempty"` // >0: prefix and paths come from shared objects with spare capacity
	PreDep bool       `json:"predep,omitempty"`
	Dep    bool       `json:"dep,omitempty"`
	Ups    []Up       `json:"ups,omitempty"`
	Dels   [][]string `json:"dels,omitempty"`
	DelO   []string   `json:"delo,omitempty"` // origins of Dels, with PO
	Dup    bool       `json:"dup,omitempty"`  // this is a duplicate delivery
	Late   bool       `json:"late,omitempty"` // this was overtaken by later ones
}

type Up struct {
	P []string `json:"p"`
	O string   `json:"o,omitempty"` // origin, with PO
	V int      `json:"v"`
}

// Op is one step of an actor.
type Op struct {
	Kind  string `json:"k"` // noti, sync, connect, connerr, reset, remove, add, refresh, size, sleep, clock
	T     int    `json:"t,omitempty"`
	N     *Noti  `json:"n,omitempty"`
	Us    int64  `json:"us,omitempty"`
	Again bool   `json:"again,omitempty"` // noti: resubmit the previous notification object
}

type Plan struct {
	Targets   int      `json:"targets"`
	FutureUs  int64    `json:"future_us,omitempty"`
	NoEvent   bool     `json:"no_event,omitempty"`
	Server    string   `json:"server,omitempty"`
	Excluded  []string `json:"excluded,omitempty"`
	Windows   []int    `json:"windows,omitempty"` // multiples of the refresh period
	PeriodMs  int      `json:"period_ms"`
	PrecUs    int      `json:"prec_us,omitempty"`
	Seq       bool     `json:"seq,omitempty"` // one actor performs everything, in order
	RefreshMs int      `json:"refresh_ms,omitempty"`
	SizeMs    int      `json:"size_ms,omitempty"`
	Readers   int      `json:"readers,omitempty"`
	Actors    [][]Op   `json:"actors"`
}

var (
	TS   = &sim.Harness{Name: "cache-ts", Gen: genFor("ts"), New: newPlan, Exec: execFor("ts"), Steps: 3000, MaxStep: 3000000, Skip: true}
	Feed = &sim.Harness{Name: "cache-feed", Gen: genFor("feed"), New: newPlan, Exec: execFor("feed"), Steps: 3000, MaxStep: 3000000, Skip: true}
	Iso  = &sim.Harness{Name: "cache-iso", Gen: genFor("iso"), New: newPlan, Exec: execFor("iso"), Steps: 3000, MaxStep: 3000000, Skip: true}
	Meta = &sim.Harness{Name: "cache-meta", Gen: genFor("meta"), New: newPlan, Exec: execFor("meta"), Steps: 3000, MaxStep: 3000000, Skip: true}
)

func newPlan() any { return &Plan{} }

func genFor(prof string) func(*sim.Rand, sim.Tier) any {
	return func(r *sim.Rand, t sim.Tier) any { return generate(r, t, prof) }
}

// universe of a run: leaf paths (origin, elements) over a small alphabet.
type upath struct {
	origin string
	elems  []string
}

func (u upath) index() []string {
	var x []string
	if u.origin != "" {
		x = append(x, u.origin)
	}
	return append(x, gen.Index(u.elems)...)
}

func genUniverse(r *sim.Rand, n int, deprecated bool) []upath {
	names := []string{"a", "b", "c", "list[k=x]", "list[k=y]", "m[k=x][j=y]", "m[k=y][j=x]", "a[k=b]"}
	if deprecated {
		names = names[:3]
	}
	origins := []string{""}
	switch r.Intn(4) {
	case 0:
		origins = []string{"o"}
	case 1:
		origins = []string{"", "o", "a"}
	case 2:
		origins = []string{"openconfig", sim.Pick(r, "", "o", "rfc7951")}
	}
	names = names[:r.Range(2, len(names))]
	var u []upath
	conflictPct := sim.Pick(r, 0, 0, 10, 30)
	for tries := 0; len(u) < n && tries < 60; tries++ {
		p := upath{origin: origins[r.Intn(len(origins))]}
		if len(u) > 0 && r.P(60) {
			q := u[r.Intn(len(u))]
			p.origin = q.origin
			p.elems = append(p.elems, q.elems[:r.Intn(len(q.elems))]...)
		}
		for len(p.elems) == 0 || (len(p.elems) < 5 && r.P(45)) {
			p.elems = append(p.elems, names[r.Intn(len(names))])
		}
		conflict, same := false, false
		for _, q := range u {
			a, b := p.index(), q.index()
			if gen.Key(a) == gen.Key(b) {
				same = true
			} else if gen.Prefix(a, b) || gen.Prefix(b, a) {
				conflict = true
			}
		}
		if same || (conflict && !r.P(conflictPct)) {
			continue
		}
		u = append(u, p)
	}
	return u
}

func genPattern(r *sim.Rand, u []upath) (string, []string) {
	q := u[r.Intn(len(u))]
	e := append([]string(nil), q.elems...)
	if r.P(35) {
		e = e[:r.Intn(len(e))]
	}
	for i := range e {
		if r.P(20) {
			e[i] = "*"
		} else if k := strings.IndexByte(e[i], '['); k > 0 && r.P(30) {
			e[i] = e[i][:k] + "[k=*]"
		}
	}
	if len(e) == 0 || r.P(10) {
		e = append(e, "*")
	}
	return q.origin, e
}

func generate(r *sim.Rand, t sim.Tier, prof string) any {
	p := &Plan{Targets: 1, PeriodMs: 10}
	if prof == "meta" && r.P(30) {
		return genLatency(r, t)
	}
	switch prof {
	case "ts":
		p.Targets = sim.Pick(r, 1, 1, 1, 2)
		p.Seq = r.P(50)
		p.NoEvent = r.P(30)
		if r.P(55) {
			p.FutureUs = sim.Pick(r, int64(1), 1000, 5000, 20000)
		}
	case "feed":
		p.Targets = r.Range(1, 3)
		p.Seq = r.P(50)
		p.NoEvent = r.P(30)
		if r.P(15) {
			p.FutureUs = sim.Pick(r, int64(1000), 5000)
		}
		if r.P(20) {
			p.Server = "srv"
		}
	case "iso":
		p.Targets = r.Range(2, 4)
		p.Seq = r.P(50)
		p.NoEvent = r.P(20)
		if !p.Seq && r.P(40) {
			p.RefreshMs = r.Range(1, 5)
		}
		if r.P(20) {
			p.Server = "srv"
		}
	case "meta":
		p.Targets = r.Range(1, 2)
		p.Seq = r.P(50)
		p.NoEvent = r.P(20)
		if !p.Seq {
			p.RefreshMs = r.Range(1, 5)
			if r.P(40) {
				p.SizeMs = r.Range(1, 7)
			}
		}
		if r.P(60) {
			for i, n := 0, r.Range(1, 3); i < n; i++ {
				p.Windows = append(p.Windows, sim.Pick(r, 1, 2, 3, 5))
			}
		}
		if r.P(40) {
			p.PrecUs = sim.Pick(r, 1, 10, 1000)
		}
		if r.P(20) {
			p.FutureUs = sim.Pick(r, int64(1000), 5000)
		}
		if r.P(10) {
			p.Excluded = []string{"targetLeavesSuppressed", "sync"}
		}
	}
	p.Readers = sim.Pick(r, 0, 0, 1)
	na := p.Targets
	if p.Seq {
		na = 1
		p.Readers = 0
	}
	maxOps := r.Range(3, 14)
	if t == sim.Thorough {
		maxOps = r.Range(3, 40)
	}
	u := genUniverse(r, r.Range(1, 7), r.P(15))
	for a := 0; a < na; a++ {
		var ops []Op
		g := &streamGen{r: r, prof: prof, u: u, p: p, depPct: sim.Pick(r, 0, 0, 30),
			atomicPct: sim.Pick(r, 0, 15, 30), delPct: sim.Pick(r, 0, 15, 30), multiPct: sim.Pick(r, 0, 25, 60), poPct: sim.Pick(r, 0, 10, 50), vals: r.Range(2, 6), vbase: r.Intn(gen.NumVals)}
		if prof == "feed" {
			g.sharePct = sim.Pick(r, 0, 50, 100)
		}
		g.tick = sim.Pick(r, int64(1), 1000, 5000)
		g.skew = sim.Pick(r, int64(0), 0, -20000, 3000, 30000)
		for i, n := 0, r.Range(2, maxOps); i < n; i++ {
			ops = append(ops, g.op(a)...)
		}
		// The network reorders and duplicates.
		if prof == "ts" && r.P(60) {
			for i := range ops {
				if j := i + r.Range(1, 3); j < len(ops) && ops[i].N != nil && ops[j].N != nil && r.P(25) && !ops[i].Again && !ops[j].Again {
					ops[i], ops[j] = ops[j], ops[i]
					ops[j].N.Late = true
				}
			}
		}
		p.Actors = append(p.Actors, ops)
	}
	return p
}

// genLatency draws a synced target whose updates arrive with all kinds of
// latency (zero and negative under clock skew) while windows fill and slide.
func genLatency(r *sim.Rand, t sim.Tier) *Plan {
	p := &Plan{Targets: r.Range(1, 2), PeriodMs: 10, Seq: true, NoEvent: r.P(50)}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		p.Windows = append(p.Windows, sim.Pick(r, 1, 1, 2, 3, 5))
	}
	p.PrecUs = sim.Pick(r, 0, 0, 1, 10, 1000, 50000)
	rounds := r.Range(2, 10)
	if t == sim.Thorough {
		rounds = r.Range(2, 30)
	}
	var ops []Op
	now := int64(0)
	base := sim.Pick(r, int64(0), 0, 500, 3000, 100000)
	spread := sim.Pick(r, int64(1), 3, 100, 5000)
	skew := sim.Pick(r, int64(0), 0, 0, -1, 1)
	density := sim.Pick(r, 30, 60, 90)
	for tg := 0; tg < p.Targets; tg++ {
		if r.P(90) {
			ops = append(ops, Op{Kind: "sync", T: tg})
		}
	}
	seq := 0
	for i := 0; i < rounds; i++ {
		left := int64(10000)
		for r.P(density) && left > 1000 {
			us := r.Range(1, 3) * 1000
			if r.P(30) {
				us = 0
			}
			ops = append(ops, Op{Kind: "sleep", Us: int64(us)})
			now += int64(us)
			left -= int64(us)
			lat := base + int64(r.Intn(int(spread)))
			if skew < 0 || (skew == 0 && r.P(15)) {
				lat = -lat
			}
			if r.P(10) {
				lat = 0
			}
			seq++
			path := []string{sim.Pick(r, "a", "b", "c")}
			if r.P(50) {
				path = []string{"n", sim.Pick(r, "a", "b") + "[k=" + string(rune('a'+seq%26)) + "]"}
			}
			n := &Noti{TS: now - lat, Ups: []Up{{P: path, V: r.Intn(3)}}}
			if r.P(15) {
				n.Ups = append(n.Ups, Up{P: []string{"z"}, V: seq % gen.NumVals})
			}
			ops = append(ops, Op{Kind: "noti", T: r.Intn(p.Targets), N: n})
		}
		if !r.P(10) {
			ops = append(ops, Op{Kind: "sleep", Us: left})
			now += left
		}
		ops = append(ops, Op{Kind: "refresh"})
		if r.P(5) {
			ops = append(ops, Op{Kind: "reset", T: r.Intn(p.Targets)})
			if r.P(80) {
				ops = append(ops, Op{Kind: "sync", T: r.Intn(p.Targets)})
			}
		}
	}
	p.Actors = [][]Op{ops}
	return p
}

// Universe is a set of leaf paths.
type Universe []upath

// NewUniverse draws up to n leaf paths.
func NewUniverse(r *sim.Rand, n int) Universe { return genUniverse(r, n, r.P(10)) }

// Pattern draws a query over the universe: an origin and elements with globs.
func (u Universe) Pattern(r *sim.Rand) (string, []string) { return genPattern(r, u) }

// Leaf draws an update of one leaf.
func (u Universe) Leaf(r *sim.Rand) *Noti {
	q := u[r.Intn(len(u))]
	return &Noti{Origin: q.origin, Ups: []Up{{P: q.elems, V: r.Intn(gen.NumVals)}}}
}

// Gen draws the operations of one target's actor.
type Gen struct{ g streamGen }

// NewGen returns a generator; only these lifecycle kinds are drawn.
func NewGen(r *sim.Rand, u Universe, life []string, lifePct int) *Gen {
	g := streamGen{r: r, prof: "", u: u, p: &Plan{Targets: 1}, depPct: sim.Pick(r, 0, 0, 30),
		atomicPct: sim.Pick(r, 0, 15, 30), delPct: sim.Pick(r, 0, 15, 30), multiPct: sim.Pick(r, 0, 25, 60), poPct: sim.Pick(r, 0, 10, 50), vals: r.Range(2, 6), vbase: r.Intn(gen.NumVals),
		lifeKinds: life, lifePct: lifePct}
	g.tick = 1000
	return &Gen{g}
}

// Op draws the next operations of target t.
func (g *Gen) Op(t int) []Op { return g.g.op(t) }

type streamGen struct {
	lifeKinds []string
	lifePct   int

	r                                             *sim.Rand
	prof                                          string
	u                                             []upath
	p                                             *Plan
	depPct, sharePct, atomicPct, delPct, multiPct int
	poPct                                         int
	vals, vbase                                   int
	now, tick, skew                               int64
	last                                          *Noti
	lastT                                         int
}

func (g *streamGen) op(actor int) []Op {
	r := g.r
	t := actor
	if g.p.Seq {
		t = r.Intn(g.p.Targets)
	}
	k := r.Intn(100)
	if g.lifeKinds != nil {
		if k < g.lifePct {
			return []Op{{Kind: sim.Pick(r, g.lifeKinds...), T: t}}
		}
		k = 100 - g.lifePct + k*g.lifePct/100
	}
	life := map[string]int{"ts": 6, "feed": 18, "iso": 30, "meta": 30}[g.prof]
	if k < life {
		kinds := []string{"sync", "connect", "connerr", "reset"}
		if g.prof != "ts" {
			kinds = append(kinds, "reset", "remove", "add")
			if g.p.Seq {
				kinds = append(kinds, "refresh", "refresh", "size")
			}
		}
		if g.prof == "meta" && r.P(60) {
			kinds = []string{"sync", "refresh", "refresh"}
			if !g.p.Seq {
				kinds = []string{"sync"}
			}
		}
		if g.prof == "ts" {
			kinds = []string{"reset", "clock", "clock", "sync"}
		}
		k := sim.Pick(r, kinds...)
		op := Op{Kind: k, T: t}
		if k == "clock" {
			op.Us = sim.Pick(r, int64(-50000), -3000, -1000, 1000, 5000, 20000, 100000)
		}
		return []Op{op}
	}
	if k < life+10 {
		us := int64(r.Range(1, 8) * 1000)
		g.now += us
		return []Op{{Kind: "sleep", Us: us, T: t}}
	}
	if g.last != nil && r.P(8) {
		if r.P(50) {
			return []Op{{Kind: "noti", T: g.lastT, Again: true}}
		}
		d := *g.last
		d.Dup = true
		return []Op{{Kind: "noti", T: g.lastT, N: &d}}
	}
	n := &Noti{Dep: r.P(g.depPct), PreDep: r.P(g.depPct)}
	if g.r.P(g.sharePct) {
		n.Share = r.Range(1, 2)
	}
	// Device timestamps: mostly moving forward, often equal or slightly off.
	switch r.Intn(10) {
	case 0, 1, 2:
		g.now += g.tick
	case 3:
		g.now += g.tick * int64(r.Range(2, 9))
	}
	n.TS = g.now + g.skew
	switch r.Intn(12) {
	case 0:
		n.TS -= g.tick
	case 1:
		n.TS -= g.tick * int64(r.Range(1, 6))
	case 2:
		n.TS += g.tick
	case 3:
		if g.p.FutureUs > 0 {
			n.TS += g.p.FutureUs + int64(r.Range(-1, 1))*sim.Pick(r, int64(1), 1000)
		}
	case 4:
		if g.p.FutureUs > 0 {
			n.TS += g.p.FutureUs*2 + int64(r.Range(-1, 1))
		}
	}
	g.last, g.lastT = n, t
	switch {
	case r.P(4):
		return []Op{{Kind: "noti", T: t, N: n}} // empty
	case r.P(g.atomicPct):
		q := g.u[r.Intn(len(g.u))]
		n.Atomic = true
		n.Origin = q.origin
		n.Pre = q.elems
		if r.P(50) && len(q.elems) > 1 {
			n.Pre = q.elems[:len(q.elems)-1]
		}
		for i, m := 0, r.Range(0, 3); i < m; i++ {
			n.Ups = append(n.Ups, Up{P: []string{sim.Pick(r, "l", "m", "n[k=z]")}, V: g.vbase + r.Intn(g.vals)})
		}
		if g.p.Seq && r.P(6) { // to be refused
			n.Dels = append(n.Dels, []string{sim.Pick(r, "l", "m", "*")})
		}
		return []Op{{Kind: "noti", T: t, N: n}}
	}
	nu, nd := 1, 0
	if r.P(g.delPct) {
		nu, nd = 0, 1
	}
	if r.P(g.multiPct) {
		nu, nd = r.Intn(4), r.Intn(3)
		if r.P(50) {
			nd = 0
		}
	}
	// All paths of one notification share origin and prefix elements.
	base := g.u[r.Intn(len(g.u))]
	n.Origin = base.origin
	n.Pre = append([]string(nil), base.elems[:r.Intn(len(base.elems)+1)]...)
	if r.P(40) {
		n.Pre = nil
	}
	if r.P(g.poPct) {
		// Each path carries its own origin.
		n.PO, n.Origin, n.Pre = true, "", nil
		for i := 0; i < nu; i++ {
			q := g.u[r.Intn(len(g.u))]
			n.Ups = append(n.Ups, Up{P: q.elems, O: q.origin, V: g.vbase + r.Intn(g.vals)})
		}
		for i := 0; i < nd; i++ {
			o, e := genPattern(r, g.u)
			if o == "" && len(e) == 0 {
				e = []string{"*"}
			}
			n.Dels = append(n.Dels, e)
			n.DelO = append(n.DelO, o)
		}
		return []Op{{Kind: "noti", T: t, N: n}}
	}
	var fam []upath
	for _, q := range g.u {
		if q.origin == n.Origin && gen.Prefix(n.Pre, q.elems) {
			fam = append(fam, q)
		}
	}
	for i := 0; i < nu; i++ {
		q := fam[r.Intn(len(fam))]
		n.Ups = append(n.Ups, Up{P: q.elems[len(n.Pre):], V: g.vbase + r.Intn(g.vals)})
	}
	for i := 0; i < nd; i++ {
		_, e := genPattern(r, fam)
		if len(e) < len(n.Pre) {
			e = append(append([]string(nil), n.Pre...), "*")
		}
		// The prefix is concrete; the rest may hold globs.
		d := append([]string(nil), e[len(n.Pre):]...)
		if len(n.Pre) == 0 && len(d) == 0 {
			d = []string{"*"}
		}
		n.Dels = append(n.Dels, d)
	}
	return []Op{{Kind: "noti", T: t, N: n}}
}
