// Package hmgr simulates the target manager: a real manager.Manager over a real
// connection.Manager, with scripted dials, streams, credentials and callbacks,
// and actors that add, remove and reconnect targets (C13; C16 with real users).
package hmgr

import "github.com/openconfig/gnmi/zzsim/sim"

// Msg is one message of a scripted stream.
type Msg struct {
	Us   int64 `json:"us,omitempty"` // silence before it
	Kind int   `json:"k"`            // 0 update, 1 sync, 2 error response, 3 empty response
}

// Session is what one attempt to open a stream meets.
type Session struct {
	OpenUs  int64 `json:"open_us,omitempty"`
	OpenErr bool  `json:"open_err,omitempty"`
	SendErr bool  `json:"send_err,omitempty"`
	Msgs    []Msg `json:"msgs,omitempty"`
	EndUs   int64 `json:"end_us,omitempty"`
	End     int   `json:"end"`            // 0 end of stream, 1 error, 2 silence for ever
	Late    int   `json:"late,omitempty"` // messages still delivered after cancellation
	// LagUs: how long after the cancellation Recv notices it.
	LagUs int64 `json:"lag_us,omitempty"`
}

type Dial struct {
	Us     int64 `json:"us,omitempty"`
	Err    bool  `json:"err,omitempty"`
	Honour bool  `json:"honour,omitempty"`
}

type Target struct {
	Addrs    []int     `json:"addrs"`
	Timeout  int64     `json:"timeout_us,omitempty"` // in the target's metadata
	Cred     int       `json:"cred,omitempty"`       // 1 password id, 2 password, 3 user without password at first
	CredFail int       `json:"cred_fail,omitempty"`  // bits: which lookups fail
	Sessions []Session `json:"sessions,omitempty"`
	SlowUs   int64     `json:"slow_us,omitempty"` // its callbacks take this long
	SlowPct  int       `json:"slow_pct,omitempty"`
}

// Op is one step of an actor.
type Op struct {
	// add, addbad, remove, reconnect, sleep; add2 and remove2 are two concurrent
	// calls, swap an Add and a Remove.
	K  string `json:"k"`
	T  int    `json:"t"`
	Us int64  `json:"us,omitempty"`
}

type Plan struct {
	BaseMs    int      `json:"base_ms"`
	MaxMs     int      `json:"max_ms"`
	TimeoutUs int64    `json:"timeout_us,omitempty"` // receive timeout
	DialUs    int64    `json:"dial_us,omitempty"`    // dial timeout
	Targets   []Target `json:"targets"`
	Dials     [][]Dial `json:"dials"`
	// Outage: no dial succeeds for as long as the actors are at work.
	Outage bool `json:"outage,omitempty"`
	// Owner[i] adds and removes target j when j%len(Actors) == i; anyone reconnects.
	Actors [][]Op `json:"actors"`
}

var (
	Mgr   = harness("mgr", false)
	Stall = harness("mgr-stall", true)
	Conn  = harness("mgr-conn", true)
)

func harness(prof string, skip bool) *sim.Harness {
	return &sim.Harness{Name: prof, Gen: generate, New: func() any { return &Plan{} }, Exec: execFor(prof, skip), Steps: 3000, MaxStep: 8000000, Skip: skip}
}

func generate(r *sim.Rand, t sim.Tier) any {
	p := &Plan{BaseMs: sim.Pick(r, 1, 5, 20), MaxMs: sim.Pick(r, 20, 50, 100)}
	if r.P(60) {
		p.TimeoutUs = int64(sim.Pick(r, 5000, 15000, 40000))
	}
	if r.P(60) {
		p.DialUs = int64(sim.Pick(r, 1000, 5000))
	}
	addrs := r.Range(1, 3)
	nt := r.Range(1, 3)
	maxSess, maxMsgs, maxOps := 4, 5, 6
	if t == sim.Thorough {
		nt, maxSess, maxMsgs, maxOps = r.Range(1, 5), 8, 10, 14
	}
	calm := r.P(25) // no delays inside sessions
	us := func(max int) int64 {
		if calm || r.P(40) {
			return 0
		}
		return int64(r.Range(1, max))
	}
	for i := 0; i < nt; i++ {
		ta := Target{Addrs: []int{r.Intn(addrs)}}
		if r.P(20) {
			ta.Addrs = append(ta.Addrs, r.Intn(addrs))
		}
		if r.P(20) {
			ta.Timeout = int64(sim.Pick(r, 3000, 10000, 30000))
		}
		if r.P(25) {
			ta.Cred = r.Range(1, 2)
			if r.P(50) {
				ta.CredFail = r.Intn(8)
			}
		}
		if r.P(25) {
			ta.SlowUs = int64(sim.Pick(r, 10, 1000, 15000, 300000))
			ta.SlowPct = sim.Pick(r, 10, 50, 100)
		}
		for j, n := 0, r.Range(0, maxSess); j < n; j++ {
			s := Session{OpenUs: us(2000), OpenErr: r.P(12), SendErr: r.P(8), End: sim.Pick(r, 0, 1, 1, 2, 2), EndUs: us(4000)}
			if r.P(25) {
				s.Late = r.Range(1, 3)
			}
			if r.P(20) {
				s.LagUs = us(5000)
				if r.P(20) {
					s.LagUs = int64(r.Range(50000, 400000))
				}
			}
			for k, m := 0, r.Range(0, maxMsgs); k < m; k++ {
				mg := Msg{Us: us(3000), Kind: sim.Pick(r, 0, 0, 0, 0, 0, 1, 1, 2, 3)}
				if r.P(8) && !calm {
					mg.Us = int64(r.Range(1000, 60000))
				}
				s.Msgs = append(s.Msgs, mg)
			}
			ta.Sessions = append(ta.Sessions, s)
		}
		p.Targets = append(p.Targets, ta)
	}
	bad := sim.Pick(r, 0, 20, 50)
	for a := 0; a < addrs; a++ {
		var ds []Dial
		for i, n := 0, r.Range(0, 5); i < n; i++ {
			ds = append(ds, Dial{Us: us(3000), Err: r.P(bad), Honour: r.P(70)})
		}
		p.Dials = append(p.Dials, ds)
	}
	na := r.Range(1, 3)
	for i := 0; i < na; i++ {
		var ops []Op
		for j := 0; j < nt; j++ {
			if j%na == i && r.P(90) {
				ops = append(ops, Op{K: "add", T: j})
			}
		}
		for j, n := 0, r.Range(0, maxOps); j < n; j++ {
			if r.P(60) {
				ops = append(ops, Op{K: "sleep", Us: int64(sim.Pick(r, r.Range(1, 50), r.Range(1, 5000), r.Range(1, 100000)))})
			}
			t := r.Intn(nt)
			switch k := sim.Pick(r, "add", "addbad", "remove", "remove", "add2", "remove2", "swap", "reconnect", "reconnect", "reconnect"); k {
			case "reconnect":
				ops = append(ops, Op{K: k, T: t})
			default:
				for t%na != i {
					t = (t + 1) % nt
					if nt <= i {
						break
					}
				}
				if t%na != i {
					continue
				}
				ops = append(ops, Op{K: k, T: t})
				if (k == "remove" || k == "remove2") && r.P(70) {
					ops = append(ops, Op{K: sim.Pick(r, "add", "add", "add2"), T: t})
				}
			}
		}
		p.Actors = append(p.Actors, ops)
	}
	if r.P(4) {
		// An outage much longer than the largest backoff.
		p.Outage = true
		p.BaseMs, p.MaxMs = sim.Pick(r, 500, 1000), sim.Pick(r, 5000, 60000)
		p.Targets = p.Targets[:1]
		p.Targets[0] = Target{Addrs: []int{0}}
		p.Actors = [][]Op{{{K: "add", T: 0}, {K: "sleep", Us: int64(p.MaxMs) * 1000 * int64(r.Range(20, 150))}}}
		if r.P(50) {
			p.Actors[0] = append(p.Actors[0], Op{K: "remove", T: 0}, Op{K: "add", T: 0})
		}
	}
	return p
}
