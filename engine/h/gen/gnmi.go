// Package gen builds gNMI messages from compact plan descriptions and holds
// the small reference semantics (index paths, matching) the oracles share.
package gen

import (
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zzsim/sim"
)

// ParseElem turns "name[k=v][j=w]" into a path element.
func ParseElem(s string) *pb.PathElem {
	name, rest, _ := strings.Cut(s, "[")
	e := &pb.PathElem{Name: name}
	if rest == "" {
		return e
	}
	e.Key = map[string]string{}
	for _, kv := range strings.Split(strings.TrimSuffix(rest, "]"), "][") {
		k, v, _ := strings.Cut(kv, "=")
		e.Key[k] = v
	}
	return e
}

// ElemIndex is the index form of an element: its name, then its key values
// ordered by key name.
func ElemIndex(s string) []string {
	e := ParseElem(s)
	out := []string{e.Name}
	ks := sim.SortedKeys(e.Key)
	for _, k := range ks {
		out = append(out, e.Key[k])
	}
	return out
}

// Index is the index form of a sequence of elements.
func Index(elems []string) []string {
	var out []string
	for _, e := range elems {
		out = append(out, ElemIndex(e)...)
	}
	return out
}

// PathIndex is the reference index form of a gNMI path without target and origin.
func PathIndex(p *pb.Path) []string {
	if len(p.GetElem()) == 0 {
		return append([]string(nil), p.GetElement()...)
	}
	var out []string
	for _, e := range p.GetElem() {
		out = append(out, e.GetName())
		ks := make([]string, 0, len(e.GetKey()))
		for k := range e.GetKey() {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, e.GetKey()[k])
		}
	}
	return out
}

// FullIndex is origin (if any; that of the prefix or else of the path) + prefix
// + path; the target is left out.
func FullIndex(prefix, path *pb.Path) []string {
	var out []string
	if o := prefix.GetOrigin(); o != "" {
		out = append(out, o)
	} else if o := path.GetOrigin(); o != "" {
		out = append(out, o)
	}
	out = append(out, PathIndex(prefix)...)
	return append(out, PathIndex(path)...)
}

// Elems builds path elements; dep selects the deprecated encoding.
func SetElems(p *pb.Path, elems []string, dep bool) {
	if dep {
		p.Element = Index(elems)
		return
	}
	for _, e := range elems {
		p.Elem = append(p.Elem, ParseElem(e))
	}
}

// Match is the query relation: a pattern matches the leaves at or below it; a
// trailing glob also matches the leaf itself.
func Match(p, l []string) bool {
	if len(p) == 0 {
		return true
	}
	if len(l) == 0 {
		return len(p) == 1 && p[0] == "*"
	}
	if p[0] == "*" || p[0] == l[0] {
		return Match(p[1:], l[1:])
	}
	return false
}

// Compatible reports whether two paths agree on every element they both have.
func Compatible(a, b []string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] && a[i] != "*" && b[i] != "*" {
			return false
		}
	}
	return true
}

func Prefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func Key(p []string) string { return strings.Join(p, "\x1f") }

func Unkey(k string) []string {
	if k == "" {
		return nil
	}
	return strings.Split(k, "\x1f")
}

func Show(k string) string { return "/" + strings.ReplaceAll(k, "\x1f", "/") }

// NumVals is the size of the value pool.
const NumVals = 27

// Val returns value i of the pool. Entries of different types include
// neighbouring values so that comparisons have something to confuse.
func Val(i int) *pb.TypedValue {
	if i < 0 {
		i = -i
	}
	sv := func(s string) *pb.TypedValue { return &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: s}} }
	iv := func(n int64) *pb.TypedValue { return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: n}} }
	ll := func(e ...*pb.TypedValue) *pb.TypedValue {
		return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: e}}}
	}
	switch i % NumVals {
	case 0:
		return iv(1)
	case 1:
		return iv(2)
	case 2:
		return sv("x")
	case 3:
		return sv("y")
	case 4:
		return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: 1}}
	case 5:
		return &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: 2}}
	case 6:
		return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: true}}
	case 7:
		return &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: false}}
	case 8:
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: 1.5}}
	case 9:
		return &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: 1.25}}
	case 10:
		return &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: 1.5}}
	case 11:
		return &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: 1.25}}
	case 12:
		return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte("x")}}
	case 13:
		return &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte("xy")}}
	case 14:
		return ll(iv(1), iv(2))
	case 15:
		return ll(iv(1), iv(3))
	case 16:
		return ll(iv(1))
	case 17:
		return ll()
	case 18:
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: 15, Precision: 1}}}
	case 19:
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: 15, Precision: 2}}}
	case 20:
		return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: 16, Precision: 1}}}
	case 21:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: []byte(`{"a":1}`)}}
	case 22:
		return &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: []byte(`{"a":2}`)}}
	case 23:
		return sv("")
	case 24:
		return iv(0)
	case 25:
		return ll(sv("x"), sv("y"))
	case 26:
		return ll(sv("x"), sv("z"))
	}
	return nil
}

// Leaf is one stored entry: a plain leaf or an atomic container.
type Leaf struct {
	TS     int64
	Atomic bool
	Ups    []Upd
}

type Upd struct {
	Path string // index key relative to the leaf (atomic) or "" (plain)
	Val  *pb.TypedValue
}

// LeafOf is the reference content of a stored notification.
func LeafOf(n *pb.Notification) *Leaf {
	l := &Leaf{TS: n.GetTimestamp(), Atomic: n.GetAtomic()}
	if n.GetAtomic() {
		for _, u := range n.GetUpdate() {
			l.Ups = append(l.Ups, Upd{Key(PathIndex(u.GetPath())), u.GetVal()})
		}
		return l
	}
	if len(n.GetUpdate()) > 0 {
		l.Ups = []Upd{{"", n.GetUpdate()[0].GetVal()}}
	}
	return l
}

// SameContent compares everything but the timestamp.
func (l *Leaf) SameContent(m *Leaf) bool {
	if l.Atomic != m.Atomic || len(l.Ups) != len(m.Ups) {
		return false
	}
	for i := range l.Ups {
		if l.Ups[i].Path != m.Ups[i].Path || !proto.Equal(l.Ups[i].Val, m.Ups[i].Val) {
			return false
		}
	}
	return true
}

// ShowVal formats a value without the random spacing of the proto formatter.
func ShowVal(v *pb.TypedValue) string {
	return strings.Join(strings.Fields(v.String()), " ")
}

func (l *Leaf) String() string {
	if l == nil {
		return "absent"
	}
	var b strings.Builder
	for i, u := range l.Ups {
		if i > 0 {
			b.WriteString(", ")
		}
		if l.Atomic {
			b.WriteString(Show(u.Path) + "=")
		}
		b.WriteString(ShowVal(u.Val))
	}
	if l.Atomic {
		return "atomic{" + b.String() + "}"
	}
	return b.String()
}
