package gen

import (
	"encoding/json"
	"fmt"
	"math/big"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"

	_ "github.com/openconfig/gnmi/proto/gnmi"
)

// Lazily initialised state of the protobuf runtime is set up before the first
// run, so that the first run of a process takes the same steps as later ones.
func init() {
	protoregistry.GlobalTypes.RangeMessages(func(mt protoreflect.MessageType) bool {
		if p := mt.Descriptor().ParentFile().Package(); p == "google.protobuf" {
			return true
		}
		for v := 0; v < 16; v++ {
			warm(mt, v)
		}
		return true
	})
	protoregistry.GlobalTypes.RangeEnums(func(et protoreflect.EnumType) bool {
		vs := et.Descriptor().Values()
		vs.ByNumber(0)
		vs.ByName("x")
		for i := 0; i < vs.Len(); i++ {
			_ = fmt.Sprint(et.New(vs.Get(i).Number()))
		}
		return true
	})
	_ = fmt.Sprintf("%v %+v", new(big.Float), struct{ A any }{1})
	json.Marshal(map[string]any{"a": 1.5})
}

func warm(mt protoreflect.MessageType, variant int) {
	m := mt.New()
	fill(m, 0, variant)
	x := m.Interface()
	y := proto.Clone(x)
	_ = proto.Equal(x, y)
	_ = fmt.Sprint(x)
	_ = prototext.Format(x)
	_, _ = protojson.Marshal(x)
	_, _ = json.Marshal(x)
	_ = proto.Size(x)
	if b, err := proto.Marshal(x); err == nil {
		_ = proto.Unmarshal(b, mt.New().Interface())
	}
	if b, err := prototext.Marshal(x); err == nil {
		_ = prototext.Unmarshal(b, mt.New().Interface())
	}
	proto.Merge(y, x)
	proto.Reset(y)
}

func fill(m protoreflect.Message, depth, variant int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if f.Kind() == protoreflect.MessageKind && depth > 3 {
			continue
		}
		// Of each oneof, one member per variant.
		if od := f.ContainingOneof(); od != nil && od.Fields().Get(variant%od.Fields().Len()).Number() != f.Number() {
			continue
		}
		switch {
		case f.IsMap():
			mp := m.Mutable(f).Map()
			k := f.MapKey().Default().MapKey()
			if f.MapValue().Kind() == protoreflect.MessageKind {
				v := mp.NewValue()
				fill(v.Message(), depth+1, variant)
				mp.Set(k, v)
			} else {
				mp.Set(k, f.MapValue().Default())
			}
		case f.IsList():
			l := m.Mutable(f).List()
			if f.Kind() == protoreflect.MessageKind {
				v := l.NewElement()
				fill(v.Message(), depth+1, variant)
				l.Append(v)
			} else {
				l.Append(l.NewElement())
			}
		case f.Kind() == protoreflect.MessageKind:
			fill(m.Mutable(f).Message(), depth+1, variant)
		default:
			m.Set(f, f.Default())
		}
	}
}
