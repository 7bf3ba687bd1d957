package hbyz

import (
	"math"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"

	gpb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// Messages a peer may send: near-valid ones, then field and wire mutations.

type maker struct {
	r       *sim.Rand
	targets []string
	hostile int // percent of odd choices
	ts      int64
}

func (g *maker) odd() bool { return g.r.Intn(100) < g.hostile }

func (g *maker) name() string {
	if g.odd() {
		return sim.Pick(g.r, "", "*", "meta", "sync", "connected", "connectError", "connectedAddress", "targetLeaves", "latestTimestamp", "targetSize", "...", "openconfig", "a/b", "a[k=1]", "t0", "\x00", "ü", "[", "]", "\\", "serverName")
	}
	return sim.Pick(g.r, "a", "b", "c", "d", "a", "b")
}

func (g *maker) elems() []*gpb.PathElem {
	n := g.r.Weighted([]int{1, 4, 4, 2, 1})
	if g.odd() {
		n = g.r.Weighted([]int{4, 2, 2, 0, 0, 1})
	}
	var es []*gpb.PathElem
	for i := 0; i < n; i++ {
		e := &gpb.PathElem{Name: g.name()}
		if g.r.P(15) {
			e.Key = map[string]string{g.name(): g.name()}
			if g.r.P(30) {
				e.Key[g.name()] = g.name()
			}
		}
		es = append(es, e)
	}
	return es
}

func (g *maker) path() *gpb.Path {
	if g.odd() && g.r.P(30) {
		return nil
	}
	p := &gpb.Path{}
	switch g.r.Weighted([]int{7, 2, 1}) {
	case 0:
		p.Elem = g.elems()
	case 1:
		for _, e := range g.elems() {
			p.Element = append(p.Element, e.Name)
		}
	default:
		if g.odd() {
			p.Elem = g.elems()
			for _, e := range g.elems() {
				p.Element = append(p.Element, e.Name)
			}
		} else if g.r.P(50) {
			for _, n := range []string{"meta", sim.Pick(g.r, "sync", "connected", "connectedAddress", "connectError", "targetLeaves", "serverName", "latestTimestamp", "x", "")}[:g.r.Range(1, 2)] {
				p.Elem = append(p.Elem, &gpb.PathElem{Name: n})
			}
		}
	}
	if g.r.P(10) {
		p.Origin = sim.Pick(g.r, "openconfig", "o", "meta", "a", "*", "")
	}
	if g.odd() && g.r.P(20) {
		p.Target = g.target()
	}
	return p
}

func (g *maker) target() string {
	if g.odd() && g.r.P(30) {
		return sim.Pick(g.r, "", "*", "nope", "meta", "t1", "a")
	}
	return g.targets[g.r.Intn(len(g.targets))]
}

func (g *maker) prefix(t string) *gpb.Path {
	p := &gpb.Path{Target: t}
	if g.odd() {
		if g.r.P(20) {
			return nil
		}
		if g.r.P(20) {
			p.Target = g.target()
		}
	}
	switch g.r.Weighted([]int{6, 2, 1}) {
	case 1:
		q := g.path()
		if q != nil {
			p.Elem, p.Element, p.Origin = q.Elem, q.Element, q.Origin
		}
	case 2:
		p.Origin = sim.Pick(g.r, "openconfig", "o", "meta", "a", "*")
	}
	return p
}

func (g *maker) ints() int64 {
	return sim.Pick(g.r, int64(0), 1, 2, -1, math.MaxInt64, math.MinInt64, 1<<40)
}

func (g *maker) floats() float64 {
	return sim.Pick(g.r, 0.0, 1.5, -2, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64)
}

func (g *maker) bytes() []byte {
	return []byte(sim.Pick(g.r, "", "x", "{\"a\":1}", "[1,\"b\",null]", "null", "3", "{", "\xff\x00", "{\"a\":{\"b\":[]}}", "1e999"))
}

func (g *maker) val(depth int) *gpb.TypedValue {
	if g.odd() && g.r.P(30) {
		return nil
	}
	v := &gpb.TypedValue{}
	k := g.r.Intn(13)
	if !g.odd() {
		k = g.r.Weighted([]int{3, 3, 1, 3, 1, 1, 2, 1, 1})
	}
	switch k {
	case 0:
		v.Value = &gpb.TypedValue_StringVal{StringVal: g.name()}
	case 1:
		v.Value = &gpb.TypedValue_IntVal{IntVal: g.ints()}
	case 2:
		v.Value = &gpb.TypedValue_UintVal{UintVal: uint64(g.ints())}
	case 3:
		v.Value = &gpb.TypedValue_BoolVal{BoolVal: g.r.P(50)}
	case 4:
		v.Value = &gpb.TypedValue_BytesVal{BytesVal: g.bytes()}
	case 5:
		v.Value = &gpb.TypedValue_FloatVal{FloatVal: float32(g.floats())}
	case 6:
		v.Value = &gpb.TypedValue_DoubleVal{DoubleVal: g.floats()}
	case 7:
		v.Value = &gpb.TypedValue_DecimalVal{DecimalVal: &gpb.Decimal64{Digits: g.ints(), Precision: sim.Pick(g.r, uint32(0), 2, math.MaxUint32)}}
	case 8:
		l := &gpb.ScalarArray{}
		if depth < 3 {
			for i := g.r.Intn(3); i > 0; i-- {
				if e := g.val(depth + 1); e != nil {
					l.Element = append(l.Element, e)
				} else {
					l.Element = append(l.Element, &gpb.TypedValue{})
				}
			}
		}
		v.Value = &gpb.TypedValue_LeaflistVal{LeaflistVal: l}
	case 9:
		if g.r.P(50) {
			v.Value = &gpb.TypedValue_JsonVal{JsonVal: g.bytes()}
		} else {
			v.Value = &gpb.TypedValue_JsonIetfVal{JsonIetfVal: g.bytes()}
		}
	case 10:
		v.Value = &gpb.TypedValue_AsciiVal{AsciiVal: g.name()}
	case 11:
		v.Value = &gpb.TypedValue_ProtoBytes{ProtoBytes: g.bytes()}
	case 12:
		a := &anypb.Any{TypeUrl: sim.Pick(g.r, "", "x", "type.googleapis.com/gnmi.Path", "type.googleapis.com/gnmi.Nope", "/"), Value: g.bytes()}
		v.Value = &gpb.TypedValue_AnyVal{AnyVal: a}
	}
	return v
}

func (g *maker) update() *gpb.Update {
	u := &gpb.Update{Path: g.path(), Val: g.val(0)}
	if g.r.P(10) {
		u.Value = &gpb.Value{Value: g.bytes(), Type: gpb.Encoding(g.r.Intn(7))}
		if g.r.P(70) {
			u.Val = nil
		}
	}
	if g.r.P(5) {
		u.Duplicates = uint32(g.ints())
	}
	return u
}

func (g *maker) stamp() int64 {
	if g.odd() && g.r.P(30) {
		return g.ints()
	}
	g.ts += int64(g.r.Intn(3))
	return g.ts
}

func (g *maker) noti(t string) *gpb.Notification {
	n := &gpb.Notification{Timestamp: g.stamp(), Prefix: g.prefix(t), Atomic: g.r.P(10)}
	nu, nd := 1, 0
	switch g.r.Weighted([]int{6, 2, 2, 1}) {
	case 1:
		nu, nd = 0, 1
	case 2:
		nu, nd = g.r.Intn(4), g.r.Intn(3)
	case 3:
		nu, nd = 0, 0
	}
	for i := 0; i < nu; i++ {
		n.Update = append(n.Update, g.update())
	}
	for i := 0; i < nd; i++ {
		p := g.path()
		if p == nil {
			p = &gpb.Path{}
		}
		n.Delete = append(n.Delete, p)
	}
	return n
}

func (g *maker) response(t string) *gpb.SubscribeResponse {
	switch g.r.Weighted([]int{12, 2, 1, 1}) {
	case 1:
		return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_SyncResponse{SyncResponse: g.r.P(80)}}
	case 2:
		if g.odd() {
			return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Error{Error: &gpb.Error{Code: uint32(g.r.Intn(20)), Message: g.name()}}}
		}
	case 3:
		if g.odd() {
			return &gpb.SubscribeResponse{}
		}
	}
	return &gpb.SubscribeResponse{Response: &gpb.SubscribeResponse_Update{Update: g.noti(t)}}
}

func (g *maker) request(t string) *gpb.SubscribeRequest {
	if g.odd() && g.r.P(20) {
		return sim.Pick(g.r, &gpb.SubscribeRequest{}, &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Poll{Poll: &gpb.Poll{}}})
	}
	l := &gpb.SubscriptionList{Prefix: g.prefix(t), Mode: gpb.SubscriptionList_Mode(g.r.Intn(3)), UpdatesOnly: g.r.P(20)}
	if l.Prefix != nil && g.r.P(20) {
		l.Prefix.Target = "*"
	}
	if g.odd() && g.r.P(20) {
		l.Mode = 7
	}
	for i := g.r.Weighted([]int{1, 6, 3, 1}); i > 0; i-- {
		sp := &gpb.Subscription{Path: g.path()}
		if sp.Path != nil && g.r.P(20) {
			sp.Path.Elem = append(sp.Path.Elem, &gpb.PathElem{Name: "*"})
		}
		if g.odd() {
			sp.Mode = gpb.SubscriptionMode(g.r.Intn(5))
			sp.SampleInterval = uint64(g.ints())
		}
		l.Subscription = append(l.Subscription, sp)
	}
	if g.odd() {
		l.Encoding = gpb.Encoding(g.r.Intn(7))
		l.Qos = &gpb.QOSMarking{Marking: 3}
		l.AllowAggregation = true
	}
	return &gpb.SubscribeRequest{Request: &gpb.SubscribeRequest_Subscribe{Subscribe: l}}
}

// warp applies seeded mutations of fields or of the wire form.
func (g *maker) warp(m proto.Message) {
	if !g.odd() {
		return
	}
	if g.r.P(60) {
		for i := g.r.Range(1, 3); i > 0; i-- {
			g.field(m.ProtoReflect(), 0)
		}
		return
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil || len(b) == 0 {
		return
	}
	for try := 0; try < 8; try++ {
		c := g.wire(append([]byte(nil), b...))
		x := m.ProtoReflect().New().Interface()
		if proto.Unmarshal(c, x) == nil {
			proto.Reset(m)
			proto.Merge(m, x)
			return
		}
	}
}

func (g *maker) wire(b []byte) []byte {
	at := func() int { return g.r.Intn(len(b)) }
	for i := g.r.Range(1, 3); i > 0 && len(b) > 0; i-- {
		switch g.r.Intn(6) {
		case 0:
			b[at()] = byte(g.r.Intn(256))
		case 1:
			b[at()] ^= 1 << g.r.Intn(8)
		case 2: // drop one top-level field
			b = g.records(b, false)
		case 3: // repeat one
			b = g.records(b, true)
		case 4:
			b = b[:at()]
		case 5:
			x := at()
			b = append(append(append([]byte(nil), b[:x]...), byte(g.r.Intn(64)), byte(g.r.Intn(4))), b[x:]...)
		}
	}
	return b
}

func (g *maker) records(b []byte, dup bool) []byte {
	var rs [][]byte
	for len(b) > 0 {
		_, _, n := protowire.ConsumeField(b)
		if n < 0 {
			break
		}
		rs = append(rs, b[:n])
		b = b[n:]
	}
	if len(rs) == 0 {
		return b
	}
	k := g.r.Intn(len(rs))
	var out []byte
	for i, x := range rs {
		if i == k && !dup {
			continue
		}
		out = append(out, x...)
		if i == k {
			out = append(out, x...)
		}
	}
	return append(out, b...)
}

// field changes one field somewhere in m.
func (g *maker) field(m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	if fs.Len() == 0 {
		return
	}
	// Prefer what is set.
	var set []protoreflect.FieldDescriptor
	for i := 0; i < fs.Len(); i++ {
		if m.Has(fs.Get(i)) {
			set = append(set, fs.Get(i))
		}
	}
	f := fs.Get(g.r.Intn(fs.Len()))
	if len(set) > 0 && g.r.P(75) {
		f = set[g.r.Intn(len(set))]
	}
	if m.Has(f) && f.Kind() == protoreflect.MessageKind && !f.IsMap() && g.r.P(75) && depth < 6 {
		if f.IsList() {
			l := m.Get(f).List()
			g.field(l.Get(g.r.Intn(l.Len())).Message(), depth+1)
		} else {
			g.field(m.Mutable(f).Message(), depth+1)
		}
		return
	}
	switch {
	case m.Has(f) && g.r.P(50):
		m.Clear(f)
	case f.IsMap():
		m.Mutable(f).Map().Set(protoreflect.ValueOfString(g.name()).MapKey(), m.NewField(f).Map().NewValue())
	case f.IsList():
		l := m.Mutable(f).List()
		if l.Len() > 0 && g.r.P(50) {
			l.Append(l.Get(g.r.Intn(l.Len())))
		} else if f.Kind() == protoreflect.MessageKind {
			l.Append(l.NewElement())
		} else {
			l.Append(g.scalar(f))
		}
	case f.Kind() == protoreflect.MessageKind:
		m.Set(f, m.NewField(f))
	default:
		m.Set(f, g.scalar(f))
	}
}

func (g *maker) scalar(f protoreflect.FieldDescriptor) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(g.bytes())
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(g.name())
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(g.r.P(50))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(g.floats()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(g.floats())
	case protoreflect.EnumKind:
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(g.r.Intn(9) - 1))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(g.ints()))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(uint64(g.ints()))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(g.ints()))
	}
	return protoreflect.ValueOfInt64(g.ints())
}
