// Package htarget simulates goroutines loading configurations into one
// target.Config while others read it (C17).
package htarget

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	pb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/target"
	_ "github.com/openconfig/gnmi/zzsim/h/gen"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// Req, Tgt and Cfg describe a configuration; equal descriptions build equal messages.
type Req struct {
	Name string `json:"n"`
	V    int    `json:"v,omitempty"`
}

type Tgt struct {
	Name   string `json:"n"`
	Req    string `json:"r,omitempty"`
	Addr   []int  `json:"a,omitempty"`
	Cred   int    `json:"c,omitempty"`
	Meta   int    `json:"m,omitempty"`
	Dialer int    `json:"d,omitempty"`
	X      int    `json:"x,omitempty"` // which string of the settings is altered
	Nil    bool   `json:"nil,omitempty"`
}

type Cfg struct {
	Rev  int64 `json:"rev"`
	Inst int   `json:"inst,omitempty"`
	Meta int   `json:"meta,omitempty"`
	Reqs []Req `json:"reqs,omitempty"`
	Tgts []Tgt `json:"tgts,omitempty"`
}

// Op: load (a message built from Cfgs[C]), again (the message this actor passed
// last), edit (that message, edited in place to Cfgs[C], is not loaded), editload
// (is loaded), cur (Current), mutcur (Current, whose result is then edited), nil.
type Op struct {
	Kind  string `json:"k"`
	C     int    `json:"c,omitempty"`
	Pause int64  `json:"p,omitempty"`
}

type Plan struct {
	Base    int     `json:"base"` // -1: NewConfig, -2: NewConfigWithBase(nil)
	Slow    []int64 `json:"slow,omitempty"`
	NoHooks int     `json:"nohooks,omitempty"` // bits: Add, Update, Delete are nil
	Cfgs    []Cfg   `json:"cfgs"`
	Actors  [][]Op  `json:"actors"`
}

var H = &sim.Harness{Name: "target", Gen: gen, New: func() any { return &Plan{} }, Exec: exec, Steps: 400, MaxStep: 400000, Skip: true}

var reqNames = []string{"r1", "r2", "r3", "R1"}
var tgtNames = []string{"t1", "t2", "t3", "T1", "t1 "}

func gen(r *sim.Rand, t sim.Tier) any {
	p := &Plan{Base: sim.Pick(r, -1, -1, -2, 0)}
	invalid := sim.Pick(r, 0, 0, 10, 30)
	stale := sim.Pick(r, 0, 10, 40)
	nr, nt := r.Range(1, len(reqNames)), r.Range(1, len(tgtNames))
	n := r.Range(2, 8)
	if t == sim.Thorough {
		n = r.Range(2, 24)
	}
	rev := sim.Pick[int64](r, 0, 1, -5, math.MinInt64, 1<<40)
	cur := Cfg{Rev: rev}
	for i, k := 0, r.Range(0, 6); i < k; i++ {
		mutate(r, &cur, nr, nt)
	}
	fix(&cur)
	for i := 0; i < n; i++ {
		p.Cfgs = append(p.Cfgs, cur.clone())
		nx := cur.clone()
		if r.P(12) && i > 1 { // back to an older content
			nx = p.Cfgs[r.Intn(i)].clone()
		}
		for j, k := 0, sim.Pick(r, 0, 1, 1, 1, 2, 2, 3, 5); j < k; j++ {
			mutate(r, &nx, nr, nt)
		}
		fix(&nx)
		if r.P(invalid) {
			breakIt(r, &nx)
		}
		nx.Rev = cur.Rev
		switch {
		case r.P(stale):
			nx.Rev = cur.Rev - int64(sim.Pick(r, 0, 0, 1, 3))
		case r.P(5):
			nx.Rev = sim.Pick[int64](r, 0, -1, math.MinInt64, math.MaxInt64-100)
		default:
			nx.Rev += int64(sim.Pick(r, 1, 1, 1, 2, 9))
		}
		cur = nx
	}
	na := sim.Pick(r, 1, 1, 2, 3)
	p.Actors = make([][]Op, na)
	kinds := []string{"load", "again", "edit", "editload", "cur", "mutcur", "nil"}
	w := []int{12, r.Intn(3), r.Intn(3), r.Intn(3), r.Intn(5), r.Intn(2), r.Intn(2)}
	next := 0
	if p.Base == 0 {
		next = 1
	}
	for i, k := 0, r.Range(1, 2*n); i < k; i++ {
		op := Op{Kind: kinds[r.Weighted(w)]}
		switch op.Kind {
		case "load", "edit", "editload":
			op.C = next
			if next < n-1 {
				next++
			}
			if r.P(8) {
				op.C = r.Intn(n)
			}
		}
		if r.P(30) {
			op.Pause = int64(r.Range(1, 10))
		}
		a := r.Intn(na)
		p.Actors[a] = append(p.Actors[a], op)
	}
	if r.P(40) {
		for i := 0; i < 8; i++ {
			p.Slow = append(p.Slow, int64(r.Intn(6)))
		}
	}
	if r.P(5) {
		p.NoHooks = r.Range(1, 7)
	}
	return p
}

func (c *Cfg) clone() Cfg {
	d := *c
	d.Reqs = append([]Req(nil), c.Reqs...)
	d.Tgts = nil
	for _, t := range c.Tgts {
		t.Addr = append([]int(nil), t.Addr...)
		d.Tgts = append(d.Tgts, t)
	}
	return d
}

func (c *Cfg) req(n string) int {
	for i := range c.Reqs {
		if c.Reqs[i].Name == n {
			return i
		}
	}
	return -1
}

func (c *Cfg) tgt(n string) int {
	for i := range c.Tgts {
		if c.Tgts[i].Name == n {
			return i
		}
	}
	return -1
}

// mutate makes one edit.
func mutate(r *sim.Rand, c *Cfg, nr, nt int) {
	rn, tn := reqNames[r.Intn(nr)], tgtNames[r.Intn(nt)]
	ri, ti := c.req(rn), c.tgt(tn)
	switch r.Intn(12) {
	case 0, 1: // edit or add a request
		if ri < 0 {
			c.Reqs = append(c.Reqs, Req{Name: rn, V: reqV(r)})
		} else if v := c.Reqs[ri].V; v >= richV && r.P(60) { // one field away
			c.Reqs[ri].V = v - (v-richV)%deltas + r.Intn(deltas)
		} else {
			c.Reqs[ri].V = reqV(r)
		}
	case 2: // drop a request
		if ri >= 0 {
			c.Reqs = append(c.Reqs[:ri], c.Reqs[ri+1:]...)
		}
	case 3: // rename a request, its users follow
		if ri >= 0 {
			n := reqNames[r.Intn(nr)]
			if c.req(n) < 0 {
				c.Reqs[ri].Name = n
				for i := range c.Tgts {
					if c.Tgts[i].Req == rn {
						c.Tgts[i].Req = n
					}
				}
			}
		}
	case 4: // swap the contents of two requests
		if len(c.Reqs) > 1 {
			i, j := r.Intn(len(c.Reqs)), r.Intn(len(c.Reqs))
			c.Reqs[i].V, c.Reqs[j].V = c.Reqs[j].V, c.Reqs[i].V
		}
	case 5, 6, 7: // add a target, or point it at another request
		if ti < 0 {
			c.Tgts = append(c.Tgts, Tgt{Name: tn, Req: rn, Addr: []int{r.Intn(3)}})
		} else {
			c.Tgts[ti].Req = rn
		}
	case 8: // drop a target
		if ti >= 0 {
			c.Tgts = append(c.Tgts[:ti], c.Tgts[ti+1:]...)
		}
	case 9: // edit a target
		if ti >= 0 {
			t := &c.Tgts[ti]
			switch r.Intn(6) {
			case 5:
				t.X = r.Intn(6)
			case 0:
				t.Addr = append(t.Addr, r.Intn(3))
			case 1:
				t.Addr = []int{r.Intn(3)}
				if r.P(40) {
					t.Addr = append(t.Addr, r.Intn(3))
				}
			case 2:
				t.Cred = r.Intn(5)
			case 3:
				t.Meta = r.Intn(4)
			case 4:
				t.Dialer = r.Intn(3)
			}
		}
	case 10: // rename a target
		if ti >= 0 {
			n := tgtNames[r.Intn(nt)]
			if c.tgt(n) < 0 {
				c.Tgts[ti].Name = n
			}
		}
	case 11:
		c.Inst, c.Meta = r.Intn(3), r.Intn(3)
	}
}

// fix adds the requests that targets miss, which makes c valid.
func fix(c *Cfg) {
	for i := range c.Tgts {
		t := &c.Tgts[i]
		t.Nil = false
		if t.Name == "" {
			t.Name = "t9"
		}
		if t.Req == "" {
			t.Req = "r1"
		}
		if len(t.Addr) == 0 {
			t.Addr = []int{0}
		}
		if c.req(t.Req) < 0 {
			c.Reqs = append(c.Reqs, Req{Name: t.Req})
		}
	}
	seen := map[string]bool{}
	var ts []Tgt
	for _, t := range c.Tgts {
		if !seen[t.Name] {
			ts = append(ts, t)
		}
		seen[t.Name] = true
	}
	c.Tgts = ts
}

func breakIt(r *sim.Rand, c *Cfg) {
	if len(c.Tgts) == 0 {
		c.Tgts = append(c.Tgts, Tgt{Name: "t1", Req: "r1", Addr: []int{1}})
	}
	t := &c.Tgts[r.Intn(len(c.Tgts))]
	switch r.Intn(5) {
	case 0:
		t.Name = ""
	case 1:
		t.Addr = nil
	case 2:
		t.Req = ""
	case 3:
		t.Req = "nosuch"
	case 4:
		t.Nil = true
	}
}

// valid is the reference for Validate.
func (c *Cfg) valid() bool {
	for _, t := range c.Tgts {
		if t.Name == "" || t.Nil || len(t.Addr) == 0 || t.Req == "" || c.req(t.Req) < 0 {
			return false
		}
	}
	return true
}

// Requests from richV on fill any field of the message, from a sequence that
// (v-richV)/deltas selects; (v-richV)%deltas selects what is altered afterwards.
const (
	richV  = 5
	deltas = 12
)

func reqV(r *sim.Rand) int {
	if r.P(50) {
		return r.Intn(richV)
	}
	return richV + r.Intn(40*deltas)
}

func buildReq(v int) *gpb.SubscribeRequest {
	if v >= richV {
		m := &gpb.SubscribeRequest{}
		fill(m.ProtoReflect(), sim.NewRand(uint64((v-richV)/deltas)), 0)
		if d := (v - richV) % deltas; d > 0 {
			alter(m.ProtoReflect(), sim.NewRand(uint64(v)))
		}
		return m
	}
	if v == 4 {
		return nil
	}
	s := &gpb.SubscriptionList{Mode: gpb.SubscriptionList_Mode(v % 2)}
	if v > 0 {
		s.Subscription = append(s.Subscription, &gpb.Subscription{Path: &gpb.Path{Elem: []*gpb.PathElem{{Name: fmt.Sprint("p", v/2), Key: map[string]string{"k": fmt.Sprint(v)}}}}})
	}
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: s}}
}

// scalar is a value of the field's kind.
func scalar(fd protoreflect.FieldDescriptor, r *sim.Rand) protoreflect.Value {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(r.P(50))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		return protoreflect.ValueOfEnum(vs.Get(r.Intn(vs.Len())).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(r.Intn(4)) - 1)
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(r.Intn(4)) - 1)
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(r.Intn(4)))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(r.Intn(4)) << (8 * r.Intn(8)))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(r.Intn(4)) / 2)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(float64(r.Intn(4)) / 2)
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(fmt.Sprint("b", r.Intn(4))))
	}
	return protoreflect.ValueOfString(sim.Pick(r, "", "a", "b", "c", "a/b", "\u00e9"))
}

// fill sets some of m's fields, of any kind and depth.
func fill(m protoreflect.Message, r *sim.Rand, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		pct := 50
		if depth == 0 && fd.Name() == "subscribe" {
			pct = 90
		}
		if !r.P(pct) || depth > 5 {
			continue
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for k := r.Intn(3); k > 0; k-- {
				key := scalar(fd.MapKey(), r).MapKey()
				if fd.MapValue().Message() == nil {
					mp.Set(key, scalar(fd.MapValue(), r))
				} else {
					v := mp.NewValue()
					fill(v.Message(), r, depth+1)
					mp.Set(key, v)
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for k := r.Range(1, 3); k > 0; k-- {
				if fd.Message() == nil {
					l.Append(scalar(fd, r))
				} else {
					v := l.NewElement()
					fill(v.Message(), r, depth+1)
					l.Append(v)
				}
			}
		case fd.Message() != nil:
			fill(m.Mutable(fd).Message(), r, depth+1)
		default:
			m.Set(fd, scalar(fd, r))
		}
	}
}

// alter changes one thing in m: a field set or cleared, an element added or
// dropped, at any depth.
func alter(m protoreflect.Message, r *sim.Rand) {
	fs := m.Descriptor().Fields()
	if fs.Len() == 0 {
		return
	}
	var set []protoreflect.FieldDescriptor
	for i := 0; i < fs.Len(); i++ {
		if m.Has(fs.Get(i)) {
			set = append(set, fs.Get(i))
		}
	}
	if len(set) == 0 || r.P(15) {
		fd := fs.Get(r.Intn(fs.Len()))
		switch {
		case fd.IsMap() || fd.IsList():
		case fd.Message() != nil:
			if !m.Has(fd) {
				m.Mutable(fd)
			}
		default:
			m.Set(fd, scalar(fd, r))
		}
		return
	}
	fd := set[r.Intn(len(set))]
	switch {
	case fd.IsMap():
		mp := m.Mutable(fd).Map()
		if fd.MapValue().Message() == nil {
			mp.Set(scalar(fd.MapKey(), r).MapKey(), scalar(fd.MapValue(), r))
		}
	case fd.IsList():
		l := m.Mutable(fd).List()
		k := r.Intn(l.Len())
		switch {
		case r.P(15) && l.Len() > 1:
			a := l.Get(k)
			l.Set(k, l.Get(0))
			l.Set(0, a)
		case r.P(15) && l.Len() > 1:
			l.Truncate(l.Len() - 1)
		case fd.Message() != nil:
			alter(l.Get(k).Message(), r)
		default:
			l.Set(k, scalar(fd, r))
		}
	case fd.Message() != nil:
		alter(m.Mutable(fd).Message(), r)
	default:
		m.Set(fd, scalar(fd, r))
	}
}

func meta(v int) map[string]string {
	if v == 0 {
		return nil
	}
	m := map[string]string{"a": fmt.Sprint(v)}
	if v > 2 {
		m = map[string]string{"a": "1", "b": "2"}
	}
	return m
}

func buildTgt(t Tgt) *pb.Target {
	if t.Nil {
		return nil
	}
	m := &pb.Target{Request: t.Req, Meta: meta(t.Meta)}
	for _, a := range t.Addr {
		m.Addresses = append(m.Addresses, fmt.Sprintf("addr%d:1", a))
	}
	switch t.Cred {
	case 1:
		m.Credentials = &pb.Credentials{}
	case 2:
		m.Credentials = &pb.Credentials{Username: "u", Password: "p"}
	case 3:
		m.Credentials = &pb.Credentials{Username: "u", Password: "q"}
	case 4:
		m.Credentials = &pb.Credentials{Username: "u", PasswordId: "p"}
	}
	if t.Dialer > 0 {
		m.Dialer = fmt.Sprint("d", t.Dialer)
	}
	if t.X > 0 {
		m.Request = "" // left alone
		alter(m.ProtoReflect(), sim.NewRand(uint64(t.X)))
		m.Request = t.Req
	}
	return m
}

func build(c *Cfg) *pb.Configuration {
	m := &pb.Configuration{Revision: c.Rev, Meta: meta(c.Meta)}
	if c.Inst > 0 {
		m.InstanceId = fmt.Sprint("i", c.Inst)
	}
	for _, q := range c.Reqs {
		if m.Request == nil {
			m.Request = map[string]*gpb.SubscribeRequest{}
		}
		m.Request[q.Name] = buildReq(q.V)
	}
	for _, t := range c.Tgts {
		if m.Target == nil {
			m.Target = map[string]*pb.Target{}
		}
		m.Target[t.Name] = buildTgt(t)
	}
	return m
}

// inPlace gives map old the content of new, editing what both hold.
func inPlace[V any](old, new map[string]V, edit func(o, n V) V) map[string]V {
	if old == nil || new == nil {
		return new
	}
	for k := range old {
		if _, ok := new[k]; !ok {
			delete(old, k)
		}
	}
	for k, n := range new {
		if o, ok := old[k]; ok {
			old[k] = edit(o, n)
		} else {
			old[k] = n
		}
	}
	return old
}

// text is a canonical rendering of a target and its request.
func (c *Cfg) text(t Tgt) string {
	v := 0
	if i := c.req(t.Req); i >= 0 {
		v = c.Reqs[i].V
	}
	return tgtText(buildTgt(t), buildReq(v))
}

var det = proto.MarshalOptions{Deterministic: true}

func tgtText(t *pb.Target, r *gpb.SubscribeRequest) string {
	a, _ := det.Marshal(t)
	b, _ := det.Marshal(r)
	return fmt.Sprintf("%x/%x", a, b)
}

type call struct {
	seq  int64
	kind string
	name string
	text string
}

type load struct {
	actor     int
	cfg       *Cfg // nil: Load(nil)
	call, ret int64
	ok        bool
}

type read struct {
	actor     int
	got       *pb.Configuration
	call, ret int64
}

func exec(s *sim.Run, pl any) {
	p := pl.(*Plan)
	if p.Base >= len(p.Cfgs) || len(p.Cfgs) == 0 {
		return
	}
	for _, a := range p.Actors {
		for _, op := range a {
			if op.C < 0 || op.C >= len(p.Cfgs) {
				return
			}
		}
	}
	var trace []call
	slow := func() {
		s.Y()
		if len(p.Slow) > 0 {
			if d := p.Slow[len(trace)%len(p.Slow)]; d > 0 {
				s.Fault("slow_callback")
				time.Sleep(time.Duration(d))
			}
		}
	}
	record := func(kind string, u target.Update) {
		if sim.RaceEnabled {
			s.Y()
			return
		}
		s.Atomic(func() {
			c := call{kind: kind, name: u.Name}
			if kind != "delete" {
				c.text = tgtText(u.Target, u.Request)
			}
			c.seq = s.Seq()
			s.Logf("  %s %s", kind, u.Name)
			trace = append(trace, c)
		})
		slow()
	}
	h := target.Handler{}
	if p.NoHooks&1 == 0 {
		h.Add = func(u target.Update) { record("add", u) }
	}
	if p.NoHooks&2 == 0 {
		h.Update = func(u target.Update) { record("update", u) }
	}
	if p.NoHooks&4 == 0 {
		h.Delete = func(n string) { record("delete", target.Update{Name: n}) }
	}
	var c *target.Config
	var base *Cfg
	var baseMsg *pb.Configuration
	switch {
	case p.Base == -1:
		c = target.NewConfig(h)
	default:
		if p.Base >= 0 {
			base = &p.Cfgs[p.Base]
			baseMsg = build(base)
		}
		var err error
		c, err = target.NewConfigWithBase(h, baseMsg)
		if base != nil && (err == nil) != base.valid() {
			s.Fail("base-validation", "NewConfigWithBase of a configuration with valid=%v: %v", base.valid(), err)
			return
		}
		if err != nil {
			s.Probe("invalid_base")
			return
		}
	}
	var loads []*load
	var reads []*read
	for a := range p.Actors {
		a := a
		s.Go(func() {
			var msg *pb.Configuration
			var of *Cfg
			if a == 0 {
				msg, of = baseMsg, base
			}
			for _, op := range p.Actors[a] {
				if op.Pause > 0 {
					time.Sleep(time.Duration(op.Pause))
				}
				s.Y()
				switch op.Kind {
				case "cur", "mutcur":
					if sim.RaceEnabled {
						if got := c.Current(); got != nil {
							got.Revision += 7
						}
						continue
					}
					r := &read{actor: a, call: s.Seq()}
					got := c.Current()
					r.ret = s.Seq()
					s.Atomic(func() {
						r.got = proto.Clone(got).(*pb.Configuration)
						reads = append(reads, r)
						s.Logf("a%d current rev %d", a, got.GetRevision())
					})
					if op.Kind == "mutcur" && got != nil {
						got.Revision += 7
						for _, t := range got.Target {
							t.Addresses = nil
						}
						delete(got.Request, "r1")
						got.InstanceId = "mine"
						s.Fault("caller_edits_copy")
					}
					continue
				case "load":
					of = &p.Cfgs[op.C]
					msg = build(of)
				case "nil":
					if sim.RaceEnabled {
						continue
					}
					l := &load{actor: a, call: s.Seq()}
					err := c.Load(nil)
					l.ret, l.ok = s.Seq(), err == nil
					s.Atomic(func() { loads = append(loads, l) })
					continue
				case "again":
				case "edit", "editload":
					if msg == nil {
						continue
					}
					of = &p.Cfgs[op.C]
					s.Fault("caller_edits_message")
					m := build(of)
					msg.Revision, msg.InstanceId = m.Revision, m.InstanceId
					msg.Meta = inPlace(msg.Meta, m.Meta, func(_, n string) string { return n })
					msg.Request = inPlace(msg.Request, m.Request, func(o, n *gpb.SubscribeRequest) *gpb.SubscribeRequest {
						if o == nil || n == nil {
							return n
						}
						proto.Reset(o)
						proto.Merge(o, n)
						return o
					})
					msg.Target = inPlace(msg.Target, m.Target, func(o, n *pb.Target) *pb.Target {
						if o == nil || n == nil {
							return n
						}
						proto.Reset(o)
						proto.Merge(o, n)
						return o
					})
					s.Logf("a%d edits its message to rev %d", a, of.Rev)
				default:
					continue
				}
				if msg == nil || op.Kind == "edit" {
					continue
				}
				if sim.RaceEnabled {
					c.Load(msg)
					continue
				}
				l := &load{actor: a, cfg: of, call: s.Seq()}
				s.Logf("a%d load rev %d valid=%v", a, of.Rev, of.valid())
				err := c.Load(msg)
				l.ret, l.ok = s.Seq(), err == nil
				s.Logf("a%d load rev %d ok=%v", a, of.Rev, l.ok)
				s.Atomic(func() { loads = append(loads, l) })
			}
		})
	}
	s.Join()
	if sim.RaceEnabled {
		s.NonTrivial()
		return
	}
	s.Y()
	fin := &read{actor: -1, call: s.Seq(), got: c.Current()}
	fin.ret = s.Seq()
	reads = append(reads, fin)
	judge(s, p, base, loads, reads, trace)
}

// expect lists the calls that turn old into new; new's targets are all valid.
func expect(p *Plan, old, new *Cfg) []string {
	var out []string
	add := func(bit int, kind, name, text string) {
		if p.NoHooks&bit == 0 {
			out = append(out, kind+" "+name+" "+text)
		}
	}
	for _, t := range new.Tgts {
		tx := new.text(t)
		i := -1
		if old != nil {
			i = old.tgt(t.Name)
		}
		switch {
		case i < 0:
			add(1, "add", t.Name, tx)
		case old.text(old.Tgts[i]) != tx:
			add(2, "update", t.Name, tx)
		}
	}
	if old != nil {
		for _, t := range old.Tgts {
			if new.tgt(t.Name) < 0 {
				add(4, "delete", t.Name, "")
			}
		}
	}
	sort.Strings(out)
	return out
}

func judge(s *sim.Run, p *Plan, base *Cfg, loads []*load, reads []*read, trace []call) {
	if s.Failed() {
		return
	}
	var acc []*load
	for _, l := range loads {
		if l.ok {
			if l.cfg == nil {
				s.Fail("nil-accepted", "Load(nil) returned no error")
				return
			}
			if !l.cfg.valid() {
				s.Fail("invalid-accepted", "an invalid configuration (revision %d) was accepted", l.cfg.Rev)
				return
			}
			acc = append(acc, l)
		}
	}
	sort.SliceStable(acc, func(i, j int) bool { return acc[i].cfg.Rev < acc[j].cfg.Rev })
	for i, l := range acc {
		if base != nil && l.cfg.Rev <= base.Rev {
			s.Fail("stale-accepted", "revision %d accepted over revision %d", l.cfg.Rev, base.Rev)
			return
		}
		for _, k := range acc[:i] {
			if k.cfg.Rev == l.cfg.Rev {
				s.Fail("stale-accepted", "revision %d was accepted twice", l.cfg.Rev)
				return
			}
			if l.ret < k.call {
				s.Fail("stale-accepted", "revision %d accepted after %d had been", k.cfg.Rev, l.cfg.Rev)
				return
			}
		}
	}
	for _, l := range loads {
		if l.ok || l.cfg == nil || !l.cfg.valid() {
			if l.cfg != nil && !l.ok {
				s.Fault("invalid_configuration")
			}
			continue
		}
		why := base != nil && base.Rev >= l.cfg.Rev
		for _, k := range acc {
			if k.cfg.Rev >= l.cfg.Rev && k.call < l.ret {
				why = true
			}
		}
		if !why {
			s.Fail("refused", "a valid configuration with revision %d, greater than every accepted one, was refused", l.cfg.Rev)
			return
		}
		s.Fault("stale_revision")
	}
	// The calls are those of the accepted loads, one load after the other.
	upto := []int{0} // calls made once load i is applied
	cur := base
	at := 0
	for _, l := range acc {
		want := expect(p, cur, l.cfg)
		var got []string
		for i := at; i < len(trace) && i < at+len(want); i++ {
			c := trace[i]
			got = append(got, c.kind+" "+c.name+" "+c.text)
			if c.seq < l.call || c.seq > l.ret {
				s.Fail("outside-load", "%s of %s was called outside the load of revision %d that it belongs to", c.kind, c.name, l.cfg.Rev)
				return
			}
		}
		sort.Strings(got)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			s.Fail("diff", "the load of revision %d must call\n%s\nhandlers saw\n%s", l.cfg.Rev, show(want), show(got))
			return
		}
		if len(want) > 0 && cur != nil {
			s.NonTrivial()
		}
		at += len(want)
		upto = append(upto, at)
		cur = l.cfg
	}
	if at != len(trace) {
		s.Fail("extra-call", "%s of %s belongs to no accepted load", trace[at].kind, trace[at].name)
		return
	}
	s.Count("accepted_loads", len(acc))
	for _, r := range reads {
		ok := false
		for i := 0; i <= len(acc) && !ok; i++ {
			cf := base
			if i > 0 {
				cf = acc[i-1].cfg
				if acc[i-1].call > r.ret {
					continue
				}
			}
			if i < len(acc) && acc[i].ret < r.call {
				continue
			}
			// At some moment of the read exactly these calls had been made.
			if n := upto[i]; (n > 0 && trace[n-1].seq > r.ret) || (n < len(trace) && trace[n].seq < r.call) {
				continue
			}
			if cf == nil {
				ok = r.got == nil || proto.Size(r.got) == 0
			} else {
				ok = proto.Equal(r.got, proto.Clone(build(cf))) // a nil request is an empty one
			}
		}
		if !ok {
			s.Fail("current", "Current (actor %d) returned a configuration (revision %d, %d targets, %d requests) that is none of those accepted around it", r.actor, r.got.GetRevision(), len(r.got.GetTarget()), len(r.got.GetRequest()))
			return
		}
		s.Probe("current_judged")
	}
}

func show(x []string) string {
	var b strings.Builder
	for _, l := range x {
		if len(l) > 60 {
			l = l[:60]
		}
		b.WriteString("  " + l + "\n")
	}
	return b.String()
}
