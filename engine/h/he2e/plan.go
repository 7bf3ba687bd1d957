// Package he2e runs the repository's own programs end to end: the collector and
// the CLI (their main functions) and the client library, over real gRPC and TLS
// on a simulated network, against devices whose final state is known.
package he2e

import (
	"strings"

	"github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// Plan is one simulated deployment.
type Plan struct {
	Reqs    []Req   `json:"reqs"`
	Targets []Tgt   `json:"targets"`
	Obs     []Obs   `json:"obs"`
	Final   []Obs   `json:"final"` // clients at the end, one after the other
	Faults  []Fault `json:"faults"`
	MetaMs  int     `json:"meta_ms"` // metadata_update_period
	SizeMs  int     `json:"size_ms"` // size_update_period
	DialMs  int     `json:"dial_ms"` // dial_timeout
	Frag    int     `json:"frag"`    // bytes per read
	LagUs   int     `json:"lag_us"`  // delivery delay
	UpMs    int     `json:"up_ms"`   // when the collector starts
}

// Req is a request of the collector's configuration.
type Req struct {
	Org   string     `json:"org"` // prefix origin
	Paths [][]string `json:"paths"`
}

// Tgt is a configured target and the device behind it.
type Tgt struct {
	Name   string `json:"name"`
	Req    int    `json:"req"`
	Same   int    `json:"same"` // > 0: shares the address (and the device's port) of target Same-1
	Agent  bool   `json:"agent"`
	Tunnel bool   `json:"tunnel"` // the device dials the collector
	UpMs   int    `json:"up_ms"`
	Skew   int    `json:"skew_ms"` // clock offset of the device
	Dump   int    `json:"dump"`    // how the state is sent on connecting: 0 one leaf per message, 1 everything in few
	Steps  []Step `json:"steps"`
}

// Step is one notification of a device.
type Step struct {
	DelayMs int    `json:"delay_ms"`
	Up      []Up   `json:"up"`
	Del     []Del  `json:"del"`
	Org     string `json:"org"`     // origin in the prefix
	Pfx     int    `json:"pfx"`     // elements moved to the prefix
	Dep     int    `json:"dep"`     // 1: deprecated element encoding; 2: only the prefix; 3: only the paths
	PathOrg bool   `json:"pathorg"` // origins are given in the paths
	Tgt     int    `json:"tgt"`     // prefix target: 0 unset, 1 right, 2 wrong
	NoPfx   bool   `json:"nopfx"`
	// The container is sent as a whole, with these values; Up and Del do not count.
	Atomic bool  `json:"atomic,omitempty"`
	AV     []int `json:"av,omitempty"`
}

// The container that devices send atomically, and its leaves: it always has all of them.
var (
	atomicAt     = []string{"x", "y[k=1]"}
	atomicLeaves = [][]string{{"p"}, {"q", "r"}, {"q", "s[k=a/b]", "v"}}
)

type Up struct {
	P   []string `json:"p"`
	V   int      `json:"v"`
	Org string   `json:"org"`
}

type Del struct {
	P   []string `json:"p"`
	Org string   `json:"org"`
}

// Obs is a client of the collector.
type Obs struct {
	Lib  bool   `json:"lib"`
	Tgt  int    `json:"tgt"`  // -1: all targets
	Mode string `json:"mode"` // once, poll, stream
	Disp string `json:"disp"` // group, single, proto, shortproto
	Form string `json:"form"` // flags, proto, file
	TLS  int    `json:"tls"`  // 0 skip verification, 1 ca_crt and server_name
	Dir  int    `json:"dir"`  // proto form: 0 origin in the prefix, 1 in the path; 2, 3: with elements in the prefix
	Dep  bool   `json:"dep"`  // proto form: deprecated element encoding
	Alt  int    `json:"alt"`  // flags form: spelling of flags and of the whole-target query
	Del  string `json:"delim"`
	Qs   []Qry  `json:"qs"`
	Rec  bool   `json:"rec"` // library stream: a client.ReconnectClient, whose reset callback empties the cache
	AtMs int    `json:"at_ms"`
	Slow bool   `json:"slow,omitempty"` // polls every minute; library: once, and once more at the end
	TS   string `json:"ts,omitempty"`   // -timestamp
	DPfx string `json:"dpfx,omitempty"` // -display_prefix
	DInd int    `json:"dind,omitempty"` // -display_indent
	Misc int    `json:"misc,omitempty"` // bits: -display_size, -latency, -with_user_pass, -client_types
}

// Qry is one query; an empty one is the whole target.
type Qry struct {
	Org string   `json:"org"`
	P   []string `json:"p"`
}

// Fault is injected at a time.
type Fault struct {
	Kind string `json:"kind"` // cut, down, stall, cut_client, stall_client, restart
	Tgt  int    `json:"tgt"`
	AtMs int    `json:"at_ms"`
	ForS int    `json:"for_s"`
}

// Leaf paths of the devices: no one is a prefix of another.
var leaves = [][]string{
	{"a", "b"},
	{"a", "c"},
	{"a", "d", "e", "f"},
	{"l[k=1]", "v"},
	{"l[k=2]", "v"},
	{"l[k=1]", "w", "x"},
	{"l[k=10]", "v"},
	{"m[b=1][a=2]", "v"},
	{"m[b=2][a=1]", "v"},
	{"m[b=2][a=1]", "n[z=q]", "v"},
	{"s[k=x/y]", "v"},
	{"s[k=x y]", "v"},
	{"s[k=:1.2.3.4%5]", "v"},
	{"t"},
	{"w[d=1][c=2][b=3][a=4]", "v"},
	{"w[d=1][c=2][b=4][a=3]", "v"},
	{"w[d=3][c=2][b=1][a=4]", "u[y=2][x=1]", "v"},
}

var origins = []string{"", "", "", "openconfig", "rfc7951", "vendor"}

func genP(r *sim.Rand) []string { return leaves[r.Intn(len(leaves))] }

func genStep(r *sim.Rand, agent bool, mix bool) Step {
	st := Step{DelayMs: sim.Pick(r, 0, 0, 0, 1, 50, 1000, 7000)}
	if r.P(60) {
		st.Org = sim.Pick(r, origins...)
	}
	st.Pfx = r.Weighted([]int{60, 20, 15, 5})
	st.Dep = r.Weighted([]int{70, 18, 6, 6})
	st.Tgt = r.Weighted([]int{50, 30, 20})
	st.NoPfx = r.P(15)
	if mix && r.P(25) {
		st.PathOrg = true
	}
	if r.P(8) {
		st.Atomic, st.PathOrg = true, false
		for range atomicLeaves {
			st.AV = append(st.AV, r.Intn(numVals))
		}
		return st
	}
	base := genP(r)
	n := r.Weighted([]int{15, 55, 20, 10})
	for i := 0; i < n; i++ {
		p := base
		if i > 0 {
			p = genP(r)
		}
		st.Up = append(st.Up, Up{P: p, V: r.Intn(numVals), Org: sim.Pick(r, origins...)})
	}
	n = r.Weighted([]int{60, 30, 10})
	for i := 0; i < n; i++ {
		p := genP(r)
		p = append([]string(nil), p[:r.Range(0, len(p))]...)
		if r.P(70) {
			p = genP(r)
		}
		if len(p) == 0 && r.P(70) {
			p = genP(r)
		}
		if len(p) > 0 && r.P(12) {
			p = append([]string(nil), p...)
			p[r.Intn(len(p))] = "*"
		}
		if len(p) > 0 && r.P(8) {
			p = append([]string(nil), p...)
			k := r.Intn(len(p))
			if i := strings.LastIndex(p[k], "="); i > 0 && !strings.Contains(p[k], "/") {
				p[k] = p[k][:i] + "=*]"
			}
		}
		st.Del = append(st.Del, Del{P: p, Org: sim.Pick(r, origins...)})
	}
	return st
}

func genPlan(r *sim.Rand, t sim.Tier) any {
	p := &Plan{DialMs: sim.Pick(r, 1000, 5000, 60000)}
	if r.P(25) {
		p.Frag = sim.Pick(r, 1, 7, 100, 1000)
	}
	if r.P(40) {
		p.LagUs = sim.Pick(r, 10, 500, 20000)
	}
	if r.P(30) {
		p.MetaMs = sim.Pick(r, 3000, 20000)
	}
	if r.P(15) {
		p.SizeMs = sim.Pick(r, 5000, 30000)
	}
	p.UpMs = sim.Pick(r, 0, 0, 0, 500, 3000)
	nr := r.Range(1, 2)
	for i := 0; i < nr; i++ {
		q := Req{Org: sim.Pick(r, origins...), Paths: [][]string{nil}}
		if r.P(30) {
			q.Paths = [][]string{{"a"}, {"l", "*"}}
		}
		p.Reqs = append(p.Reqs, q)
	}
	nt := 1 + r.Weighted([]int{55, 35, 10})
	names := []string{"dev1", "dev2", "r.x:10/y"}
	mix := r.P(30)
	for i := 0; i < nt; i++ {
		g := Tgt{Name: names[i], Req: r.Intn(nr), UpMs: sim.Pick(r, 0, 0, 0, 200, 4000), Skew: sim.Pick(r, 0, 0, -3600000, 5000, 3600000), Dump: r.Intn(2)}
		if r.P(10) {
			g.Agent = true
		}
		if i > 0 && r.P(10) {
			g.Same = r.Range(1, i)
		}
		g.Tunnel = r.P(12)
		for k, n := 0, r.Range(1, 10); k < n; k++ {
			g.Steps = append(g.Steps, genStep(r, g.Agent, mix))
		}
		p.Targets = append(p.Targets, g)
	}
	no := r.Range(1, 3)
	for i := 0; i < no; i++ {
		o := genObs(r, nt)
		if i == 0 && r.P(60) {
			o.Lib = true
		}
		o.AtMs = sim.Pick(r, 0, 0, 100, 1500, 6000)
		p.Obs = append(p.Obs, o)
	}
	for i, n := 0, r.Range(2, 4); i < n; i++ {
		p.Final = append(p.Final, genObs(r, nt))
	}
	if r.P(45) {
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			p.Faults = append(p.Faults, Fault{
				Kind: sim.Pick(r, "cut", "cut", "down", "stall", "cut_client", "stall_client", "restart"),
				Tgt:  r.Intn(nt), AtMs: r.Range(0, 12000), ForS: sim.Pick(r, 1, 20, 70)})
		}
	}
	return p
}

func genObs(r *sim.Rand, nt int) Obs {
	o := Obs{Lib: r.P(35), Tgt: r.Intn(nt), Mode: sim.Pick(r, "stream", "stream", "stream", "once", "poll"),
		Disp: sim.Pick(r, "group", "group", "single", "proto", "shortproto"),
		Form: sim.Pick(r, "flags", "flags", "proto", "file"), TLS: r.Intn(2), Dir: r.Intn(4), Dep: r.P(20),
		Rec: r.P(50), Slow: r.P(50), Alt: r.Intn(4), Del: sim.Pick(r, "", "", "", ".", "|", "→")}
	if r.P(35) {
		o.TS = sim.Pick(r, "", "on", "raw", "2006-01-02T15:04:05.999Z07:00")
		o.DPfx = sim.Pick(r, "", "", "# ", "→")
		o.DInd = r.Intn(4)
		o.Misc = r.Intn(16)
	}
	if r.P(8) {
		o.Tgt = -1
	}
	if r.P(50) {
		o.Qs = []Qry{{}}
	} else {
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			q := Qry{Org: sim.Pick(r, "openconfig", "openconfig", "openconfig", "rfc7951", "vendor")}
			l := genP(r)
			q.P = append([]string(nil), l[:r.Range(0, len(l))]...)
			if len(q.P) > 0 && r.P(20) {
				k := r.Intn(len(q.P))
				e := gen.ParseElem(q.P[k])
				if len(e.Key) == 0 {
					q.P[k] = "*"
				}
			}
			o.Qs = append(o.Qs, q)
		}
	}
	return o
}
