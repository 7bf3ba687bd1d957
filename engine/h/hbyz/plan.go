// Package hbyz feeds arbitrary protobuf-valid messages to every receiving side:
// the cache (directly and through manager sessions), the Subscribe server, and
// the client library and CLI (C12).
package hbyz

import (
	"fmt"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// Op is one step of a writer.
type Op struct {
	K   string `json:"k"` // noti meta size sync connect connerr reset remove add sleep query
	T   int    `json:"t"`
	Us  int64  `json:"us,omitempty"`
	Msg any    `json:"msg,omitempty"`
}

// Session is the stream of a target managed by the collector's manager.
type Session struct {
	Glue  bool  `json:"glue"` // stamp target and origin as the collector does
	AtUs  int64 `json:"at_us,omitempty"`
	GapUs int64 `json:"gap_us,omitempty"`
	Msgs  []any `json:"msgs"`
	End   int   `json:"end"` // 0 end of stream, 1 error, 2 stays open
}

// Sub is a Subscribe call of a client.
type Sub struct {
	AtUs  int64 `json:"at_us,omitempty"`
	GapUs int64 `json:"gap_us,omitempty"`
	Reqs  []any `json:"reqs"`
	Half  bool  `json:"half,omitempty"`
	LagUs int64 `json:"lag_us,omitempty"`
	Cut   int   `json:"cut,omitempty"`
	ForUs int64 `json:"for_us"`
}

type Plan struct {
	Targets  int       `json:"targets"`
	Windows  int       `json:"windows,omitempty"`
	PrecUs   int64     `json:"prec_us,omitempty"`
	FutureUs int64     `json:"future_us,omitempty"`
	NoEvent  bool      `json:"no_event,omitempty"`
	Server   string    `json:"server,omitempty"`
	Excluded []string  `json:"excluded,omitempty"`
	Stats    bool      `json:"stats,omitempty"`
	NoDup    bool      `json:"no_dup,omitempty"`
	MetaMs   int       `json:"meta_ms,omitempty"`
	Actors   [][]Op    `json:"actors"`
	Sessions []Session `json:"sessions,omitempty"`
	Subs     []Sub     `json:"subs,omitempty"`
}

// View is one use of the client library or the CLI against a hostile server.
type View struct {
	Kind    string  `json:"kind"` // cli, cache
	Display string  `json:"display,omitempty"`
	Type    int     `json:"type"` // 0 once, 1 poll, 2 stream
	TS      string  `json:"ts,omitempty"`
	Latency bool    `json:"latency,omitempty"`
	Size    bool    `json:"size,omitempty"`
	Peer    bool    `json:"peer,omitempty"`
	FDel    bool    `json:"fdel,omitempty"`
	FUpd    bool    `json:"fupd,omitempty"`
	Count   int     `json:"count,omitempty"`
	Req     any     `json:"req,omitempty"` // else built from the query
	Chunks  [][]any `json:"chunks"`        // sent after the nth request
	GapUs   int64   `json:"gap_us,omitempty"`
	End     int     `json:"end"`
}

type CPlan struct {
	Views []View `json:"views"`
}

func tname(i int) string { return fmt.Sprintf("t%d", i) }
func sname(i int) string { return fmt.Sprintf("s%d", i) }

func genPlan(r *sim.Rand, t sim.Tier) any {
	p := &Plan{Targets: r.Range(1, 3), Windows: r.Intn(3), NoEvent: r.P(20), Stats: r.P(30), NoDup: r.P(30)}
	if r.P(30) {
		p.PrecUs = 1000
	}
	if r.P(30) {
		p.FutureUs = int64(r.Range(1, 3)) * 1000
	}
	if r.P(30) {
		p.Server = "srv"
	}
	if r.P(30) {
		p.Excluded = []string{sim.Pick(r, "sync", "connected", "targetLeaves", "connectError")}
	}
	if r.P(50) {
		p.MetaMs = r.Range(1, 4)
	}
	g := &maker{r: r, hostile: sim.Pick(r, 5, 20, 50), ts: sim.Pick(r, int64(1000), epoch)}
	for i := 0; i < p.Targets; i++ {
		g.targets = append(g.targets, tname(i))
	}
	na := r.Range(1, p.Targets)
	big := t == sim.Thorough && r.P(30)
	for a := 0; a < na; a++ {
		var ops []Op
		n := r.Range(2, 16)
		if big {
			n = r.Range(16, 60)
		}
		var last *gpb.Notification
		for i := 0; i < n; i++ {
			own := a
			if p.Targets > na && r.P(30) {
				own = a + na*r.Intn((p.Targets-a-1)/na+1)
			}
			op := Op{K: "noti", T: own}
			switch r.Weighted([]int{14, 2, 1, 1, 1, 1, 1, 1, 1, 1}) {
			case 1:
				op.K = "meta"
			case 2:
				op.K = "size"
			case 3:
				op.K = "sync"
			case 4:
				op.K = "connect"
			case 5:
				op.K = "connerr"
			case 6:
				op.K = "reset"
			case 7:
				op.K = "remove"
			case 8:
				op.K = "add"
			case 9:
				op.K = "sleep"
				op.Us = int64(r.Intn(3000))
			}
			if op.K == "noti" {
				m := g.noti(tname(own))
				if last != nil && r.P(30) { // the same path again, with another value
					m.Prefix, m.Update, m.Delete = last.Prefix, last.Update, last.Delete
					if len(m.Update) > 0 && r.P(80) {
						u := &gpb.Update{Path: m.Update[0].Path, Val: g.val(0)}
						m.Update = append([]*gpb.Update{u}, m.Update[1:]...)
					}
				}
				last = m
				x := &gpb.Notification{}
				gen.Build(gen.Tree(m), x)
				g.warp(x)
				op.Msg = gen.Tree(x)
			}
			ops = append(ops, op)
		}
		p.Actors = append(p.Actors, ops)
	}
	for i := r.Weighted([]int{3, 2, 1}); i > 0; i-- {
		ss := Session{Glue: r.P(80), AtUs: int64(r.Intn(2000)), GapUs: int64(r.Intn(500)), End: r.Intn(3)}
		for k := r.Range(1, 10); k > 0; k-- {
			m := g.response(sname(len(p.Sessions)))
			g.warp(m)
			ss.Msgs = append(ss.Msgs, gen.Tree(m))
		}
		p.Sessions = append(p.Sessions, ss)
	}
	for i := r.Range(0, 3); i > 0; i-- {
		sb := Sub{AtUs: int64(r.Intn(4000)), GapUs: int64(r.Intn(500)), Half: r.P(50), ForUs: int64(r.Range(100, 8000))}
		if r.P(30) {
			sb.LagUs = int64(r.Intn(500))
		}
		if r.P(20) {
			sb.Cut = r.Range(1, 6)
		}
		for k := r.Weighted([]int{1, 8, 3, 2}); k > 0; k-- {
			m := g.request(g.target())
			if len(sb.Reqs) > 0 && r.P(70) {
				m = &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Poll{Poll: &gpb.Poll{}}}
			}
			g.warp(m)
			sb.Reqs = append(sb.Reqs, gen.Tree(m))
		}
		p.Subs = append(p.Subs, sb)
	}
	return p
}

func genCPlan(r *sim.Rand, t sim.Tier) any {
	p := &CPlan{}
	g := &maker{r: r, hostile: sim.Pick(r, 5, 20, 50), ts: sim.Pick(r, int64(1000), epoch), targets: []string{"t0", "t1", ""}}
	for i := r.Range(1, 2); i > 0; i-- {
		v := View{Kind: "cli", Display: sim.Pick(r, "g", "single", "PROTO", "sp", "group"), Type: r.Intn(3), TS: sim.Pick(r, "", "on", "raw", "2006"), Latency: r.P(20), Size: r.P(20),
			Peer: r.P(20), FDel: r.P(10), FUpd: r.P(10), Count: r.Intn(4), GapUs: int64(r.Intn(300)), End: r.Intn(3)}
		if v.Type == 1 && v.Count == 0 && r.P(80) {
			v.Count = 2
		}
		if r.P(40) {
			v.Kind = "cache"
		}
		if r.P(50) {
			m := g.request("t0")
			v.Req = gen.Tree(m)
		}
		nc := 1
		if v.Type == 1 {
			nc = r.Range(1, 3)
		}
		for c := 0; c < nc; c++ {
			var ch []any
			for k := r.Range(1, 10); k > 0; k-- {
				m := g.response(g.target())
				g.warp(m)
				ch = append(ch, gen.Tree(m))
			}
			if r.P(70) {
				ch = append(ch, gen.Tree(&gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: true}}))
				if v.Type == 2 {
					for k := r.Range(0, 5); k > 0; k-- {
						m := g.response(g.target())
						g.warp(m)
						ch = append(ch, gen.Tree(m))
					}
				}
			}
			v.Chunks = append(v.Chunks, ch)
		}
		p.Views = append(p.Views, v)
	}
	return p
}

const epoch = int64(946684800) * 1e9

// H and Client are the harnesses of this package.
var (
	H      = &sim.Harness{Name: "byz", Gen: genPlan, New: func() any { return &Plan{} }, Exec: execServer, Steps: 6000, MaxStep: 3000000}
	Client = &sim.Harness{Name: "byz-client", Gen: genCPlan, New: func() any { return &CPlan{} }, Exec: execClient, Steps: 3000, MaxStep: 3000000}
)
