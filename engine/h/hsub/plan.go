// Package hsub simulates the subscribe server: one cache fed by several target
// streams, a real subscribe.Server, and clients on in-memory gRPC streams that
// subscribe, poll, stall, disconnect and fail at chosen moments (C04 to C08 and
// the subscriber side of C14).
package hsub

import (
	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/h/hcache"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// SPath is one subscription path.
type SPath struct {
	Nil bool     `json:"nil,omitempty"`
	O   string   `json:"o,omitempty"`
	E   []string `json:"e,omitempty"`
	Dep bool     `json:"dep,omitempty"`
}

// Stall blocks the Nth Send of a stream for Us microseconds.
type Stall struct {
	N  int   `json:"n"`
	Us int64 `json:"us"`
}

// Sub is one Subscribe call.
type Sub struct {
	AtUs   int64    `json:"at_us,omitempty"`
	T      int      `json:"t"` // target index, -1: all targets
	Origin string   `json:"o,omitempty"`
	Pre    []string `json:"pre,omitempty"`
	PreDep bool     `json:"predep,omitempty"`
	Paths  []SPath  `json:"paths,omitempty"`
	Mode   int      `json:"mode"` // 0 STREAM, 1 ONCE, 2 POLL
	UO     bool     `json:"uo,omitempty"`
	Polls  []int64  `json:"polls,omitempty"` // delays before each poll trigger
	EOF    bool     `json:"eof,omitempty"`   // close the request side after the polls
	Stalls []Stall  `json:"stalls,omitempty"`
	Cancel int64    `json:"cancel_us,omitempty"` // disconnect after this long
	FailAt int      `json:"fail_at,omitempty"`   // this Send fails
	Caller int      `json:"caller,omitempty"`
}

// Phase is a burst of writer activity and new subscriptions, followed by quiescence.
type Phase struct {
	Writers [][]hcache.Op `json:"writers,omitempty"`
	Subs    []Sub         `json:"subs,omitempty"`
}

type ACL struct {
	Allowed []int `json:"allowed"` // per caller: bit set of targets
	Fail    int   `json:"fail"`    // callers whose authorisation cannot be established
}

type Plan struct {
	Targets   int     `json:"targets"`
	NoEvent   bool    `json:"no_event,omitempty"`
	Stats     bool    `json:"stats,omitempty"`
	NoDup     bool    `json:"no_dup,omitempty"`
	TimeoutMs int     `json:"timeout_ms,omitempty"`
	ACL       *ACL    `json:"acl,omitempty"`
	RefreshMs int     `json:"refresh_ms,omitempty"`
	Shared    bool    `json:"shared,omitempty"` // several writers per target
	GC        bool    `json:"gc,omitempty"`     // look for registrations that outlive their call
	Phases    []Phase `json:"phases"`
}

var (
	Stream = harness("stream")
	Once   = harness("once")
	Filter = harness("filter")
	ACLs   = harness("acl")
	StallH = harness("stall")
	Life   = harness("life")
)

func harness(prof string) *sim.Harness {
	return &sim.Harness{Name: "sub-" + prof, Gen: genFor(prof), New: func() any { return &Plan{} }, Exec: execFor(prof),
		Steps: 4000, MaxStep: 6000000, Skip: prof != "stall"}
}

func genFor(prof string) func(*sim.Rand, sim.Tier) any {
	return func(r *sim.Rand, t sim.Tier) any { return generate(r, t, prof) }
}

func generate(r *sim.Rand, t sim.Tier, prof string) *Plan {
	p := &Plan{Targets: r.Range(1, 3), NoEvent: r.P(40), Stats: r.P(50), TimeoutMs: 1000}
	if r.P(10) {
		p.NoDup = true
	}
	if r.P(25) {
		p.RefreshMs = r.Range(1, 4)
	}
	switch prof {
	case "stream":
		p.Shared = r.P(25)
	case "acl":
		p.Targets = r.Range(2, 4)
		p.ACL = &ACL{}
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			p.ACL.Allowed = append(p.ACL.Allowed, r.Intn(1<<p.Targets))
			if r.P(12) {
				p.ACL.Fail |= 1 << i
			}
		}
	case "stall":
		p.TimeoutMs = sim.Pick(r, 5, 20, 50)
		p.Stats = true
		p.NoDup = r.P(5)
	case "filter":
		p.GC = r.P(8)
	case "life":
		p.Targets = r.Range(1, 3)
		if r.P(15) {
			p.ACL = &ACL{Allowed: []int{1<<p.Targets - 1}}
		}
	}
	u := hcache.NewUniverse(r, r.Range(1, 7))
	var kinds []string
	pct := sim.Pick(r, 0, 10, 25)
	switch prof {
	case "life":
		kinds = []string{"reset", "remove", "remove", "add", "add", "sync", "connect", "connerr"}
		pct = sim.Pick(r, 20, 40)
	case "stall":
		kinds = []string{"sleep1", "sync"}
		if r.P(40) {
			kinds = append(kinds, "reset", "reset", "remove", "add")
		}
	default:
		kinds = []string{"reset", "reset", "sync", "connect", "connerr"}
		if r.P(50) {
			kinds = append(kinds, "remove", "add", "add")
		}
	}
	type tgen struct {
		t int
		g *hcache.Gen
	}
	var gens []tgen
	for i := 0; i < p.Targets; i++ {
		gens = append(gens, tgen{i, hcache.NewGen(r, u, kinds, pct)})
		if p.Shared {
			gens = append(gens, tgen{i, hcache.NewGen(r, u, kinds, pct)})
		}
	}
	burst := func(max int) [][]hcache.Op {
		var ws [][]hcache.Op
		for _, g := range gens {
			var ops []hcache.Op
			if r.P(80) {
				for i, n := 0, r.Range(1, max); i < n; i++ {
					ops = append(ops, g.g.Op(g.t)...)
				}
			}
			ws = append(ws, ops)
		}
		return ws
	}
	if (prof == "stall" || prof == "filter") && r.P(1) {
		return genBurst(r, p, u, burst)
	}
	maxOps := r.Range(2, 6)
	nph := r.Range(2, 4)
	maxSubs := r.Range(1, 3)
	if t == sim.Thorough {
		maxOps, nph, maxSubs = r.Range(2, 20), r.Range(2, 6), r.Range(1, 5)
	}
	for i := 0; i < nph; i++ {
		ph := Phase{}
		if i > 0 || r.P(70) {
			ph.Writers = burst(maxOps)
			if i == 0 && r.P(60) {
				// Start from a populated cache.
				p.Phases = append(p.Phases, ph)
				ph = Phase{Writers: burst(maxOps)}
			}
		}
		for j, n := 0, r.Intn(maxSubs+1); j < n || (i == 0 && j == 0); j++ {
			ph.Subs = append(ph.Subs, genSub(r, t, p, prof, u))
		}
		p.Phases = append(p.Phases, ph)
	}
	return p
}

// genBurst draws streams that stop reading while one leaf changes hundreds of times.
func genBurst(r *sim.Rand, p *Plan, u hcache.Universe, writers func(int) [][]hcache.Op) *Plan {
	t := r.Intn(p.Targets)
	first := Phase{Writers: writers(4)}
	for i, n := 0, r.Range(1, 2); i < n; i++ {
		s := Sub{T: t, Paths: []SPath{{}}}
		if r.P(30) {
			s.T = -1
		}
		for k := 1; k < 12; k++ {
			if r.P(60) {
				s.Stalls = append(s.Stalls, Stall{N: k, Us: int64(p.TimeoutMs)*1000 - 1})
			}
		}
		first.Subs = append(first.Subs, s)
	}
	second := Phase{Writers: writers(2)}
	for i := range second.Writers {
		if ws := second.Writers[i]; len(ws) > 0 && ws[0].T == t || len(ws) == 0 && i == t && !p.Shared {
			n := u.Leaf(r)
			n.TS = 1000000
			second.Writers[i] = append(ws, hcache.Op{Kind: "noti", T: t, N: n}, hcache.Op{Kind: "burst", T: t, N: n, Us: int64(sim.Pick(r, 20, 130, 258, 300))})
			break
		}
	}
	p.Phases = []Phase{first, second, {Writers: writers(2)}}
	return p
}

func genSub(r *sim.Rand, t sim.Tier, p *Plan, prof string, u hcache.Universe) Sub {
	s := Sub{T: r.Intn(p.Targets)}
	if r.P(30) {
		s.AtUs = int64(r.Intn(6000))
	}
	star := map[string]int{"acl": 60, "life": 25}[prof]
	if star == 0 {
		star = 20
	}
	if r.P(star) {
		s.T = -1
	}
	if r.P(3) {
		s.T = p.Targets // unknown
	}
	switch prof {
	case "once":
		s.Mode = sim.Pick(r, 1, 1, 2, 2)
	case "acl":
		s.Mode = sim.Pick(r, 0, 0, 1, 2)
		s.Caller = r.Intn(len(p.ACL.Allowed))
	case "life":
		s.Mode = sim.Pick(r, 0, 0, 0, 1, 2)
	default:
		s.Mode = sim.Pick(r, 0, 0, 0, 0, 0, 0, 1, 2)
	}
	s.UO = r.P(15) && (s.Mode == 0 || prof == "acl")
	if s.Mode == 2 {
		for i, n := 0, r.Range(0, 3); i < n; i++ {
			s.Polls = append(s.Polls, int64(r.Intn(4000)))
		}
		s.EOF = r.P(50)
	}
	// The paths.
	var n int
	switch {
	case r.P(3):
		n = 0
	case r.P(50):
		n = 1
	default:
		n = r.Range(2, 4)
	}
	o, e := u.Pattern(r)
	k := 0
	style := r.Intn(3)
	switch style {
	case 1:
		s.Origin = o
	case 2:
		s.Origin = o
		k = r.Intn(len(e) + 1)
		s.Pre = append([]string(nil), e[:k]...)
	}
	s.PreDep = r.P(10)
	for i := 0; i < n; i++ {
		if i > 0 && !r.P(35) {
			o2, e2 := u.Pattern(r)
			switch {
			case style == 0:
				o, e = o2, e2
			case o2 == s.Origin && len(e2) >= k && gen.Prefix(s.Pre, e2):
				e = e2
			}
		}
		sp := SPath{E: append([]string(nil), e[k:]...), Dep: r.P(10)}
		if style == 0 {
			sp.O = o
		}
		if len(sp.E) > 0 && r.P(15) {
			sp.E[r.Intn(len(sp.E))] = "*"
		}
		if r.P(5) {
			sp.E = append(sp.E, sim.Pick(r, "*", "a", "zz"))
		}
		if r.P(8) {
			sp.E = nil
		}
		if r.P(4) {
			sp = SPath{Nil: true}
		}
		s.Paths = append(s.Paths, sp)
	}
	// Faults of the client.
	switch prof {
	case "stall":
		if r.P(75) {
			for i, m := 0, r.Range(1, 3); i < m; i++ {
				us := int64(r.Range(1, 4)) * 1000
				if us >= int64(p.TimeoutMs)*1000 {
					us = int64(p.TimeoutMs)*1000 - 1
				}
				switch r.Intn(6) {
				case 0:
					us = int64(p.TimeoutMs)*1000 - 1
				case 1:
					us = int64(p.TimeoutMs)*1000 + sim.Pick(r, int64(1), 5000, 1000000)
				}
				s.Stalls = append(s.Stalls, Stall{N: r.Range(1, 8), Us: us})
			}
		}
		if r.P(8) {
			s.FailAt = r.Range(1, 6)
		}
	default:
		if r.P(20) {
			for i, m := 0, r.Range(1, 3); i < m; i++ {
				s.Stalls = append(s.Stalls, Stall{N: r.Range(1, 8), Us: int64(r.Range(1, 6000))})
			}
		}
		if r.P(6) {
			s.FailAt = r.Range(1, 6)
		}
	}
	if r.P(12) {
		s.Cancel = int64(r.Range(1, 12000))
	}
	return s
}
