package gen

import (
	"encoding/base64"
	"math"
	"sort"
	"strconv"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// Tree describes a message as a value that encoding/json carries unchanged, so
// that a plan can hold (and the minimiser reduce) arbitrary messages.
func Tree(m proto.Message) any { return tree(m.ProtoReflect()) }

func tree(m protoreflect.Message) any {
	t := map[string]any{}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if !m.Has(f) {
			continue
		}
		v := m.Get(f)
		switch {
		case f.IsList():
			l := []any{}
			for j := 0; j < v.List().Len(); j++ {
				l = append(l, one(f, v.List().Get(j)))
			}
			t[string(f.Name())] = l
		case f.IsMap():
			var ks []string
			v.Map().Range(func(k protoreflect.MapKey, _ protoreflect.Value) bool {
				ks = append(ks, k.String())
				return true
			})
			sort.Strings(ks)
			mm := map[string]any{}
			for _, k := range ks {
				mm[k] = one(f.MapValue(), v.Map().Get(protoreflect.ValueOfString(k).MapKey()))
			}
			t[string(f.Name())] = mm
		default:
			t[string(f.Name())] = one(f, v)
		}
	}
	return t
}

func one(f protoreflect.FieldDescriptor, v protoreflect.Value) any {
	switch f.Kind() {
	case protoreflect.MessageKind, protoreflect.GroupKind:
		return tree(v.Message())
	case protoreflect.BytesKind:
		return base64.StdEncoding.EncodeToString(v.Bytes())
	case protoreflect.StringKind:
		return v.String()
	case protoreflect.BoolKind:
		return v.Bool()
	case protoreflect.FloatKind, protoreflect.DoubleKind:
		return strconv.FormatUint(math.Float64bits(v.Float()), 16)
	case protoreflect.EnumKind:
		return strconv.FormatInt(int64(v.Enum()), 10)
	case protoreflect.Uint32Kind, protoreflect.Uint64Kind, protoreflect.Fixed32Kind, protoreflect.Fixed64Kind:
		return strconv.FormatUint(v.Uint(), 10)
	}
	return strconv.FormatInt(v.Int(), 10)
}

// Build fills m from a tree; what does not fit is left out.
func Build(t any, m proto.Message) {
	build(t, m.ProtoReflect())
}

func build(t any, m protoreflect.Message) {
	mm, _ := t.(map[string]any)
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		x, ok := mm[string(f.Name())]
		if !ok || x == nil {
			continue
		}
		switch {
		case f.IsList():
			l, _ := x.([]any)
			ml := m.Mutable(f).List()
			for _, e := range l {
				if f.Kind() == protoreflect.MessageKind {
					n := ml.NewElement()
					build(e, n.Message())
					ml.Append(n)
				} else if v, ok := scalar(f, e); ok {
					ml.Append(v)
				}
			}
		case f.IsMap():
			l, _ := x.(map[string]any)
			var ks []string
			for k := range l {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if v, ok := scalar(f.MapValue(), l[k]); ok {
					m.Mutable(f).Map().Set(protoreflect.ValueOfString(k).MapKey(), v)
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			build(x, m.Mutable(f).Message())
		default:
			if v, ok := scalar(f, x); ok {
				m.Set(f, v)
			}
		}
	}
}

func scalar(f protoreflect.FieldDescriptor, x any) (protoreflect.Value, bool) {
	s, _ := x.(string)
	switch f.Kind() {
	case protoreflect.BytesKind:
		b, err := base64.StdEncoding.DecodeString(s)
		return protoreflect.ValueOfBytes(b), err == nil
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(s), true
	case protoreflect.BoolKind:
		b, _ := x.(bool)
		return protoreflect.ValueOfBool(b), true
	case protoreflect.FloatKind:
		u, err := strconv.ParseUint(s, 16, 64)
		return protoreflect.ValueOfFloat32(float32(math.Float64frombits(u))), err == nil
	case protoreflect.DoubleKind:
		u, err := strconv.ParseUint(s, 16, 64)
		return protoreflect.ValueOfFloat64(math.Float64frombits(u)), err == nil
	case protoreflect.EnumKind:
		n, err := strconv.ParseInt(s, 10, 32)
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(n)), err == nil
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		n, err := strconv.ParseUint(s, 10, 32)
		return protoreflect.ValueOfUint32(uint32(n)), err == nil
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		n, err := strconv.ParseUint(s, 10, 64)
		return protoreflect.ValueOfUint64(n), err == nil
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		n, err := strconv.ParseInt(s, 10, 32)
		return protoreflect.ValueOfInt32(int32(n)), err == nil
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		n, err := strconv.ParseInt(s, 10, 64)
		return protoreflect.ValueOfInt64(n), err == nil
	}
	return protoreflect.Value{}, false
}
