// Package hfake simulates generators of the synthetic target and agent
// sessions that share one configuration (C20).
package hfake

import (
	"math"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	fpb "github.com/openconfig/gnmi/testing/fake/proto"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// Val describes one configured value; equal descriptions build equal messages.
type Val struct {
	Kind   string    `json:"k"`
	Dist   string    `json:"d,omitempty"` // "", range, list, random
	I      []int64   `json:"i,omitempty"` // int, bool: value or value, minimum, maximum, delta_min, delta_max
	U      []uint64  `json:"u,omitempty"` // uint: value, minimum, maximum
	F      []float64 `json:"f,omitempty"` // double, as I
	S      []string  `json:"s,omitempty"` // string, string list: value(s)
	Opt    []int64   `json:"o,omitempty"` // options, as numbers
	NoTS   bool      `json:"nots,omitempty"`
	T      int64     `json:"t,omitempty"`
	Min    int64     `json:"min,omitempty"`
	Max    int64     `json:"max,omitempty"`
	Repeat int32     `json:"r,omitempty"`
	Seed   int64     `json:"seed,omitempty"`
}

// Gen is one generator or session.
type Gen struct {
	Kind  string  `json:"k"` // queue, agent, fixed
	At    int64   `json:"at,omitempty"`
	Seed  int64   `json:"seed,omitempty"` // queue: instead of the configuration's
	N     int     `json:"n"`              // responses read before the reader leaves
	Pause int64   `json:"p,omitempty"`    // ms between reads
	Late  []int   `json:"late,omitempty"` // queue: values added after creation instead of at it
	Mode  int32   `json:"mode,omitempty"` // agent: mode of the subscription
	Polls int     `json:"polls,omitempty"`
	Early []int   `json:"early,omitempty"` // agent: polls after so many responses
	EOF   bool    `json:"eof,omitempty"`   // agent: the request side ends at once
	Pfx   string  `json:"pfx,omitempty"`
	Own   []int64 `json:"own,omitempty"` // fixed: responses added by this reader
}

// Fix is one response of a fixed configuration.
type Fix struct {
	T    int64 `json:"t"`
	Kind int   `json:"k"` // 0 update, 1 delete, 2 sync
	Pfx  bool  `json:"pfx,omitempty"`
}

type Plan struct {
	Seed   int64 `json:"seed"`
	Vals   []Val `json:"vals,omitempty"`
	Fixed  []Fix `json:"fixed,omitempty"`
	Spare  int   `json:"spare,omitempty"`
	Random bool  `json:"random,omitempty"` // the values are given as RandomGenerator
	Delay  bool  `json:"delay,omitempty"`
	NoSync bool  `json:"nosync,omitempty"`
	NoEOF  bool  `json:"noeof,omitempty"`
	Gens   []Gen `json:"gens"`
}

// H explores everything but the inputs of the recorded findings; Known explores
// the rest, where the recorded violations are expected and others are reported.
var (
	H     = &sim.Harness{Name: "fake", Gen: genWithout, New: newPlan, Exec: exec, Steps: 2000, MaxStep: 2000000}
	Known = &sim.Harness{Name: "fake-known", Gen: genWith, New: newPlan, Exec: execKnown, Steps: 2000, MaxStep: 2000000}
)

func newPlan() any { return &Plan{} }

// wide reports whether Int63n cannot draw from [lo, hi].
func wide(lo, hi int64) bool { return hi-lo+1 <= 0 && lo <= hi }

// recorded returns which inputs of recorded findings the plan contains.
func (p *Plan) recorded() map[string]bool {
	t := map[string]bool{}
	for i := range p.Vals {
		v := &p.Vals[i]
		if !v.NoTS && (wide(v.Min, v.Max) || v.overflows(2000)) {
			t["wide timestamps"] = true
		}
		if v.Dist == "range" {
			switch v.Kind {
			case "int":
				lo, hi := v.I[1], v.I[2]
				if v.I[3] != 0 || v.I[4] != 0 {
					lo, hi = v.I[3], v.I[4]
				}
				if wide(lo, hi) {
					t["wide range"] = true
				}
			case "uint":
				lo, hi := int64(v.U[1]), int64(v.U[2])
				if len(v.I) == 2 && (v.I[0] != 0 || v.I[1] != 0) {
					lo, hi = v.I[0], v.I[1]
				}
				if wide(lo, hi) || lo > hi || v.U[2] > math.MaxInt64 {
					t["wide range"] = true
				}
			}
		}
	}
	own := 0
	for i := range p.Gens {
		g := &p.Gens[i]
		poll := g.Kind == "agent" && g.Mode == int32(gpb.SubscriptionList_POLL)
		if g.Kind == "fixed" && len(g.Own) > 0 {
			own++
		}
		if p.Random && g.Kind == "agent" {
			t["random generator"] = true
		}
		if poll && len(g.Early) > 0 {
			t["early poll"] = true
		}
		if poll && p.NoEOF && g.Polls > 0 {
			t["poll without eof"] = true
		}
	}
	if p.Spare > 0 && own > 0 {
		t["spare capacity"] = true
	}
	return t
}

func genWithout(r *sim.Rand, t sim.Tier) any {
	for {
		if p := gen(r, t).(*Plan); len(p.recorded()) == 0 {
			return p
		}
	}
}

// genWith returns a plan with the input of exactly one recorded finding.
func genWith(r *sim.Rand, t sim.Tier) any {
	for {
		if p := gen(r, t).(*Plan); len(p.recorded()) == 1 {
			return p
		}
	}
}

// execKnown says in every violation which recorded input the plan contains.
func execKnown(s *sim.Run, plan any) {
	for t := range plan.(*Plan).recorded() {
		s.Tag += " [input: " + t + "]"
	}
	exec(s, plan)
}

func genVal(r *sim.Rand, delay bool, bad int) Val {
	v := Val{Kind: sim.Pick(r, "int", "int", "uint", "uint", "double", "string", "strlist", "bool", "delete", "int", "double", "sync")}
	if v.Kind == "sync" && r.P(60) {
		v.Kind = "int"
	}
	lo := []int64{0, -1, 1, -5, 3, 100, math.MinInt64, math.MaxInt64, math.MinInt64 + 1, math.MaxInt64 - 1, 1 << 62, -1 << 62, math.MinInt32, math.MaxInt32}
	num := func() int64 {
		if r.P(60) {
			return int64(r.Range(-20, 20))
		}
		return lo[r.Intn(len(lo))]
	}
	two := func() (int64, int64) {
		a, b := num(), num()
		if a > b {
			a, b = b, a
		}
		return a, b
	}
	switch v.Kind {
	case "int":
		v.I = []int64{num()}
		if v.Dist = sim.Pick(r, "", "range", "range", "list", "random"); v.Dist == "range" {
			a, b := two()
			x := sim.Pick(r, a, b)
			if d := num(); d > a && d < b {
				x = d
			}
			var da, db int64
			if r.P(50) {
				da, db = two()
			}
			v.I = []int64{x, a, b, da, db}
		}
	case "uint":
		us := []uint64{0, 1, 2, 10, 100, math.MaxInt64 - 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxInt64 + 2, math.MaxUint64 - 1, math.MaxUint64, 1 << 62}
		un := func() uint64 {
			if r.P(60) {
				return uint64(r.Intn(30))
			}
			return us[r.Intn(len(us))]
		}
		v.U = []uint64{un()}
		if v.Dist = sim.Pick(r, "", "range", "range", "list", "random"); v.Dist == "range" {
			a, b := un(), un()
			if a > b {
				a, b = b, a
			}
			x := sim.Pick(r, a, b)
			if d := un(); d > a && d < b {
				x = d
			}
			v.U = []uint64{x, a, b}
			if r.P(50) {
				da, db := two()
				v.I = []int64{da, db}
			}
		}
	case "double":
		fs := []float64{0, 1, -1, 0.5, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-9}
		fn := func() float64 {
			if r.P(60) {
				return float64(r.Range(-40, 40)) / 8
			}
			return fs[r.Intn(len(fs))]
		}
		v.F = []float64{fn()}
		if v.Dist = sim.Pick(r, "", "range", "range", "list", "random"); v.Dist == "range" {
			a, b := fn(), fn()
			if a > b {
				a, b = b, a
			}
			x := sim.Pick(r, a, b)
			if d := fn(); d > a && d < b {
				x = d
			}
			var da, db float64
			if r.P(50) {
				if da, db = fn(), fn(); da > db {
					da, db = db, da
				}
			}
			v.F = []float64{x, a, b, da, db}
		}
	case "string":
		v.S = []string{sim.Pick(r, "", "a", "b")}
		v.Dist = sim.Pick(r, "", "list", "random")
	case "strlist":
		v.S = []string{"x", "y", "z"}[:r.Intn(4)]
		v.Dist = sim.Pick(r, "", "list", "random", "random")
	case "bool":
		v.I = []int64{int64(r.Intn(2))}
		v.Dist = sim.Pick(r, "", "list", "random")
	case "sync":
		v.I = []int64{int64(r.Intn(2))}
	}
	if v.Dist == "list" || v.Dist == "random" {
		for i, n := 0, r.Range(1, 4); i < n; i++ {
			v.Opt = append(v.Opt, int64(r.Range(0, 4)))
		}
	}
	switch {
	case r.P(15):
		v.NoTS = true
	case delay:
		v.T = int64(r.Intn(2000))
		v.Min = int64(r.Intn(100))
		v.Max = v.Min + int64(sim.Pick(r, 0, 0, 1, 50, 1000))
	default:
		v.T = int64(sim.Pick(r, 0, 1, 10, r.Intn(100), r.Intn(1000)))
		v.Min = int64(sim.Pick(r, 0, 0, 1, r.Intn(20)))
		v.Max = v.Min + int64(sim.Pick(r, 0, 0, 1, r.Intn(30)))
		if r.P(6) {
			v.T = sim.Pick[int64](r, 1<<62, math.MaxInt64-1000, math.MaxInt64, -7)
		}
		if r.P(6) {
			v.Max = sim.Pick[int64](r, math.MaxInt64, math.MaxInt64-1, 1<<62, 1<<61)
		}
		if r.P(3) {
			v.Min = v.Max
		}
	}
	v.Repeat = int32(sim.Pick(r, 1, 1, 2, 3, 5, 9, 20))
	if r.P(8) {
		v.Repeat = 0
	}
	if r.P(30) {
		v.Seed = int64(sim.Pick(r, 1, 2, 42, -3, math.MinInt64, r.Intn(1000)))
	}
	if r.P(bad) {
		switch r.Intn(7) {
		case 0:
			v.Min, v.Max, v.NoTS = 5, 4, false
		case 1:
			v.Min, v.Max, v.NoTS = -5, 4, false
		case 2:
			if v.Dist == "list" || v.Dist == "random" {
				v.Opt = nil
			}
		case 3:
			if v.Dist == "range" && len(v.I) == 5 {
				v.I[0], v.I[1] = v.I[1], v.I[0]
				v.I[1], v.I[2] = v.I[2], v.I[1]
			}
		case 4:
			if len(v.F) == 5 {
				v.F[1], v.F[2] = v.F[2], v.F[1]
			}
		case 5:
			v = Val{Kind: "none", T: v.T, Repeat: v.Repeat}
		case 6:
			v.T, v.NoTS = -3, false
		}
	}
	return v
}

func gen(r *sim.Rand, t sim.Tier) any {
	p := &Plan{Seed: int64(sim.Pick(r, 1, 7, -9, r.Intn(1<<30)+1, r.Intn(1<<30)+1)), Delay: r.P(30), NoSync: r.P(15), NoEOF: r.P(20), Random: r.P(15)}
	if r.P(6) {
		p.Seed = 0
	}
	n := r.Intn(7)
	if t == sim.Thorough {
		n = r.Intn(14)
	}
	fixed := r.P(10)
	if fixed {
		p.Spare = r.Intn(3)
		for i := 0; i < n; i++ {
			p.Fixed = append(p.Fixed, Fix{T: int64(r.Intn(1000)), Kind: sim.Pick(r, 0, 0, 0, 1, 2), Pfx: r.P(30)})
		}
	} else {
		bad := sim.Pick(r, 0, 0, 0, 20)
		same := r.P(25) // many values in few timestamps
		for i := 0; i < n; i++ {
			v := genVal(r, p.Delay, bad)
			if same && !v.NoTS {
				v.T, v.Min, v.Max = int64(r.Intn(3)), int64(r.Intn(2)), int64(r.Range(1, 2))
			}
			p.Vals = append(p.Vals, v)
		}
	}
	ng := sim.Pick(r, 1, 2, 2, 3, 4)
	for i := 0; i < ng; i++ {
		g := Gen{Kind: sim.Pick(r, "queue", "agent"), N: sim.Pick(r, 200, 200, r.Range(1, 30))}
		if t == sim.Thorough {
			g.N = sim.Pick(r, 400, 1500, r.Range(1, 30))
		}
		if fixed && g.Kind == "queue" {
			g.Kind = "fixed"
			for j, k := 0, r.Intn(3); j < k; j++ {
				g.Own = append(g.Own, int64(r.Intn(1000)))
			}
		}
		if r.P(50) {
			g.At = int64(r.Range(1, 20))
		}
		if r.P(30) {
			g.Pause = int64(r.Range(1, 5))
		}
		switch g.Kind {
		case "queue":
			if r.P(15) {
				g.Seed = int64(r.Intn(5))
			}
			if r.P(25) {
				for j := range p.Vals {
					if r.P(40) {
						g.Late = append(g.Late, j)
					}
				}
			}
		case "agent":
			g.Mode = int32(sim.Pick(r, gpb.SubscriptionList_STREAM, gpb.SubscriptionList_STREAM, gpb.SubscriptionList_ONCE, gpb.SubscriptionList_POLL))
			g.EOF = r.P(10)
			g.Pfx = sim.Pick(r, "", "", "dev", "other")
			if g.Mode == int32(gpb.SubscriptionList_POLL) {
				g.EOF = false
				g.Polls = r.Intn(3)
				if r.P(30) {
					g.Early = []int{r.Intn(12)}
				}
			}
		}
		p.Gens = append(p.Gens, g)
	}
	return p
}

var words = []string{"", "a", "b", "c", "d"}

func (v *Val) build(i int) *fpb.Value {
	m := &fpb.Value{Path: []string{"v", name(i)}, Repeat: v.Repeat, Seed: v.Seed}
	if !v.NoTS {
		m.Timestamp = &fpb.Timestamp{Timestamp: v.T, DeltaMin: v.Min, DeltaMax: v.Max}
	}
	random := v.Dist == "random"
	list := random || v.Dist == "list"
	switch v.Kind {
	case "int":
		x := &fpb.IntValue{Value: v.I[0]}
		if list {
			x.Distribution = &fpb.IntValue_List{List: &fpb.IntList{Options: append([]int64(nil), v.Opt...), Random: random}}
		} else if v.Dist == "range" {
			x.Distribution = &fpb.IntValue_Range{Range: &fpb.IntRange{Minimum: v.I[1], Maximum: v.I[2], DeltaMin: v.I[3], DeltaMax: v.I[4]}}
		}
		m.Value = &fpb.Value_IntValue{IntValue: x}
	case "uint":
		x := &fpb.UintValue{Value: v.U[0]}
		if list {
			l := &fpb.UintList{Random: random}
			for _, o := range v.Opt {
				l.Options = append(l.Options, uint64(o))
			}
			x.Distribution = &fpb.UintValue_List{List: l}
		} else if v.Dist == "range" {
			g := &fpb.UintRange{Minimum: v.U[1], Maximum: v.U[2]}
			if len(v.I) == 2 {
				g.DeltaMin, g.DeltaMax = v.I[0], v.I[1]
			}
			x.Distribution = &fpb.UintValue_Range{Range: g}
		}
		m.Value = &fpb.Value_UintValue{UintValue: x}
	case "double":
		x := &fpb.DoubleValue{Value: v.F[0]}
		if list {
			l := &fpb.DoubleList{Random: random}
			for _, o := range v.Opt {
				l.Options = append(l.Options, float64(o)/4)
			}
			x.Distribution = &fpb.DoubleValue_List{List: l}
		} else if v.Dist == "range" {
			x.Distribution = &fpb.DoubleValue_Range{Range: &fpb.DoubleRange{Minimum: v.F[1], Maximum: v.F[2], DeltaMin: v.F[3], DeltaMax: v.F[4]}}
		}
		m.Value = &fpb.Value_DoubleValue{DoubleValue: x}
	case "string":
		x := &fpb.StringValue{Value: v.S[0]}
		if list {
			x.Distribution = &fpb.StringValue_List{List: &fpb.StringList{Options: v.words(), Random: random}}
		}
		m.Value = &fpb.Value_StringValue{StringValue: x}
	case "strlist":
		x := &fpb.StringListValue{Value: append([]string(nil), v.S...)}
		if list {
			x.Distribution = &fpb.StringListValue_List{List: &fpb.StringList{Options: v.words(), Random: random}}
		}
		m.Value = &fpb.Value_StringListValue{StringListValue: x}
	case "bool":
		x := &fpb.BoolValue{Value: v.I[0] != 0}
		if list {
			l := &fpb.BoolList{Random: random}
			for _, o := range v.Opt {
				l.Options = append(l.Options, o%2 == 1)
			}
			x.Distribution = &fpb.BoolValue_List{List: l}
		}
		m.Value = &fpb.Value_BoolValue{BoolValue: x}
	case "delete":
		m.Value = &fpb.Value_Delete{Delete: &fpb.DeleteValue{}}
	case "sync":
		m.Value = &fpb.Value_Sync{Sync: uint64(v.I[0])}
	}
	return m
}

func (v *Val) words() []string {
	var l []string
	for _, o := range v.Opt {
		l = append(l, words[o])
	}
	return l
}

// valid tells whether the value can be advanced at all; judged only then.
func (v *Val) valid() bool {
	if v.Repeat == 1 {
		return v.Kind != "none"
	}
	if v.Kind == "none" || !v.NoTS && (v.T < 0 || v.Min < 0 || v.Min > v.Max) {
		return false
	}
	switch v.Dist {
	case "list", "random":
		return len(v.Opt) > 0
	case "range":
		switch v.Kind {
		case "int":
			return v.I[1] <= v.I[2] && v.I[0] >= v.I[1] && v.I[0] <= v.I[2] && v.I[3] <= v.I[4]
		case "uint":
			return v.U[1] <= v.U[2] && v.U[0] >= v.U[1] && v.U[0] <= v.U[2] && (len(v.I) == 0 || v.I[0] <= v.I[1])
		case "double":
			return v.F[1] <= v.F[2] && v.F[0] >= v.F[1] && v.F[0] <= v.F[2] && v.F[3] <= v.F[4]
		}
	}
	return true
}

// overflows tells whether n emissions might run past the last representable timestamp.
func (v *Val) overflows(n int) bool {
	if v.NoTS {
		return false
	}
	if v.Repeat > 0 && int(v.Repeat) < n {
		n = int(v.Repeat)
	}
	left := math.MaxInt64 - max(v.T, 0)
	for i := 1; i < n; i++ {
		if left -= v.Max; left < 0 {
			return true
		}
	}
	return false
}
