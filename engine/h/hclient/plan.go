// Package hclient simulates one application using the client library against
// scripted devices: every way a stream can end, and Close at every moment (C18).
package hclient

import (
	"github.com/openconfig/gnmi/zzsim/sim"
)

// Msg is one message of a stream: U updates and D deletes, or a sync response.
type Msg struct {
	Gap  int64 `json:"gap_us,omitempty"`
	U    int   `json:"u,omitempty"`
	D    int   `json:"d,omitempty"`
	Sync bool  `json:"sync,omitempty"`
}

// Attempt scripts one creation of a client implementation and its stream.
type Attempt struct {
	NewUs  int64 `json:"new_us,omitempty"`
	NewErr bool  `json:"new_err,omitempty"`
	SubUs  int64 `json:"sub_us,omitempty"`
	// SubErr: 1 opening the stream fails, 2 sending the request fails
	SubErr int   `json:"sub_err,omitempty"`
	Msgs   []Msg `json:"msgs,omitempty"`
	// End: 0 blocks, 1 error, 2 end of file, 3 an error response (gnmi) or ErrStopReading (fake)
	End   int   `json:"end,omitempty"`
	EndUs int64 `json:"end_us,omitempty"`
	Late  int   `json:"late,omitempty"` // buffered messages still received after the stream was cancelled
}

// Sub is one call of Subscribe.
type Sub struct {
	Pause int64 `json:"pause_us,omitempty"`
	// Ctx: 0 none, 1 already cancelled, 2 cancelled after CtxUs, 3 deadline after CtxUs
	Ctx   int   `json:"ctx,omitempty"`
	CtxUs int64 `json:"ctx_us,omitempty"`
	Poll  bool  `json:"poll,omitempty"`
}

// Close is one call of Close: Us after the N-th event On ("": the start of the run).
type Close struct {
	On string `json:"on,omitempty"`
	N  int    `json:"n,omitempty"`
	Us int64  `json:"us,omitempty"`
}

type Plan struct {
	// Wrap: 0 Reconnect(BaseClient), 1 Reconnect(CacheClient), 2 BaseClient, 3 CacheClient
	Wrap   int `json:"wrap"`
	BaseMs int `json:"base_ms"`
	MaxMs  int `json:"max_ms"`
	// Types: the client types tried, 0 gnmi, 1 fake; each with its own script.
	Types  []int       `json:"types"`
	Script [][]Attempt `json:"script"` // past the end: a healthy stream that blocks
	Proto  bool        `json:"proto,omitempty"`
	Slow   [3]int64    `json:"slow_us"` // notification handler, disconnect, reset
	HErr   int         `json:"herr,omitempty"`
	NoCB   bool        `json:"nocb,omitempty"`
	Subs   []Sub       `json:"subs"`
	Closes []Close     `json:"closes"`
}

var (
	H     = harness("client", false)
	Stall = harness("client-stall", true)
)

func harness(name string, skip bool) *sim.Harness {
	return &sim.Harness{Name: name, Gen: generate, New: func() any { return &Plan{} }, Exec: func(s *sim.Run, p any) { run(s, p.(*Plan), skip) }, Steps: 600, MaxStep: 3000000, Skip: skip}
}

func generate(r *sim.Rand, t sim.Tier) any {
	p := &Plan{Wrap: sim.Pick(r, 0, 0, 0, 0, 1, 1, 2, 3), BaseMs: sim.Pick(r, 1, 5, 50), Types: []int{sim.Pick(r, 0, 0, 1)}}
	p.MaxMs = p.BaseMs * sim.Pick(r, 1, 4, 60)
	if r.P(15) {
		p.Types = append(p.Types, r.Intn(2))
	}
	p.Proto = r.P(12) && p.Wrap%2 == 0
	us := func(max int) int64 {
		if r.P(40) {
			return 0
		}
		return int64(r.Range(1, max))
	}
	max := r.Range(0, 4)
	if t == sim.Thorough {
		max = r.Range(0, 12)
	}
	newBad, subBad := sim.Pick(r, 0, 20, 60), sim.Pick(r, 0, 10, 30)
	for range p.Types {
		var as []Attempt
		for i, n := 0, r.Range(0, max); i < n; i++ {
			a := Attempt{NewUs: us(300), NewErr: r.P(newBad), SubUs: us(50), End: sim.Pick(r, 0, 1, 1, 1, 2, 2, 3), EndUs: us(2000), Late: sim.Pick(r, 0, 0, 1, 2)}
			if r.P(subBad) {
				a.SubErr = r.Range(1, 2)
			}
			if a.End == 0 && i < n-1 && r.P(70) {
				a.End = 1
			}
			for j, m := 0, r.Intn(5); j < m; j++ {
				x := Msg{Gap: us(400), U: r.Intn(3), D: sim.Pick(r, 0, 0, 1)}
				if r.P(20) {
					x = Msg{Gap: us(400), Sync: true}
				}
				a.Msgs = append(a.Msgs, x)
			}
			as = append(as, a)
		}
		p.Script = append(p.Script, as)
	}
	if r.P(30) {
		p.Slow = [3]int64{us(200), us(500), us(500)}
	}
	if r.P(10) {
		p.HErr = r.Range(1, 4)
	}
	p.NoCB = r.P(5)
	for i, n := 0, sim.Pick(r, 1, 1, 1, 2, 3); i < n; i++ {
		sb := Sub{Pause: us(300), Poll: r.P(8)}
		if i > 0 {
			sb.Pause = us(20000)
		}
		if r.P(20) || (i < n-1 && p.Wrap < 2 && r.P(70)) {
			sb.Ctx = r.Range(1, 3)
			sb.CtxUs = us(5000)
			if r.P(30) {
				sb.CtxUs *= int64(p.BaseMs)
			}
		}
		p.Subs = append(p.Subs, sb)
	}
	for i, n := 0, sim.Pick(r, 0, 1, 1, 1, 1, 2, 3); i < n; i++ {
		c := Close{On: sim.Pick(r, "", "subscribe", "new", "open", "recv", "notify", "end", "disconnect", "backoff", "backoff", "reset", "retry"), N: sim.Pick(r, 1, 1, 1, 2, 2, 3, 5), Us: us(300)}
		if c.On == "" || r.P(25) {
			c.Us = us(4000)
		}
		if r.P(10) {
			c.Us *= int64(p.BaseMs)
		}
		p.Closes = append(p.Closes, c)
	}
	return p
}
