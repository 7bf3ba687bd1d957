package he2e

import (
	"fmt"
	"strings"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/value"
	"google.golang.org/protobuf/proto"
)

// val is one value of the pool: what a device sends, the Go value a client is
// to see, and its text in each form of output.
type val struct {
	tv  *pb.TypedValue
	old *pb.Value // the deprecated field instead
	lib any
}

// update puts v into an update.
func (v *val) update(u *pb.Update) {
	if v.old != nil {
		u.Value = proto.Clone(v.old).(*pb.Value)
	} else {
		u.Val = proto.Clone(v.tv).(*pb.TypedValue)
	}
}

func str(s string) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_StringVal{StringVal: s}}
}
func num(i int64) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_IntVal{IntVal: i}}
}
func list(e ...*pb.TypedValue) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_LeaflistVal{LeaflistVal: &pb.ScalarArray{Element: e}}}
}
func dec(d int64, p uint32) *pb.TypedValue {
	return &pb.TypedValue{Value: &pb.TypedValue_DecimalVal{DecimalVal: &pb.Decimal64{Digits: d, Precision: p}}}
}

var vals = []val{
	{tv: str("up"), lib: "up"},
	{tv: str("down"), lib: "down"},
	{tv: str(""), lib: ""},
	{tv: str("a, b: \"c\" {x}"), lib: "a, b: \"c\" {x}"},
	{tv: str("grüße\t\\n"), lib: "grüße\t\\n"},
	{tv: num(0), lib: int64(0)},
	{tv: num(-5), lib: int64(-5)},
	{tv: num(1 << 62), lib: int64(1 << 62)},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: 5}}, lib: uint64(5)},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_UintVal{UintVal: 1<<64 - 1}}, lib: uint64(1<<64 - 1)},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: true}}, lib: true},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_BoolVal{BoolVal: false}}, lib: false},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: 2.5}}, lib: 2.5},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_DoubleVal{DoubleVal: 1e300}}, lib: 1e300},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_FloatVal{FloatVal: 0.1}}, lib: float32(0.1)},
	{tv: dec(314, 2), lib: float32(3.14)},
	{tv: dec(-7, 0), lib: float32(-7)},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_BytesVal{BytesVal: []byte{0, 255, 'a'}}}, lib: []byte{0, 255, 'a'}},
	{tv: list(str("x"), str("y, z")), lib: []any{"x", "y, z"}},
	{tv: list(num(1), str("m"), list(num(2))), lib: []any{int64(1), "m", []any{int64(2)}}},
	{tv: list(), lib: []any{}},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_JsonVal{JsonVal: []byte(`{"k": [1, "v"], "j": null}`)}},
		lib: value.DeprecatedScalar{Message: "Deprecated TypedValue_JsonVal", Value: map[string]any{"k": []any{float64(1), "v"}, "j": nil}}},
	{tv: &pb.TypedValue{Value: &pb.TypedValue_JsonIetfVal{JsonIetfVal: []byte(`"q"`)}},
		lib: value.DeprecatedScalar{Message: "Deprecated TypedValue_JsonIetfVal", Value: "q"}},
	{old: &pb.Value{Value: []byte("raw"), Type: pb.Encoding_BYTES}, lib: []byte("raw")},
	{old: &pb.Value{Value: []byte(`"was"`), Type: pb.Encoding_JSON}, lib: "was"},
	{old: &pb.Value{Value: []byte(`12`), Type: pb.Encoding_JSON_IETF}, lib: float64(12)},
}

// numVals is the size of the pool; the synthetic target sends only the first ones.
var numVals = len(vals)

// text renders value i as seen by a kind of client: "lib", "group", "single" or "proto".
func text(i int, kind string) string {
	v := &vals[((i%numVals)+numVals)%numVals]
	switch kind {
	case "lib":
		return goText(v.lib)
	case "group":
		return groupText(v.lib)
	case "single":
		return fmt.Sprintf("%v", v.lib)
	}
	u := &pb.Update{}
	v.update(u)
	return protoText(u)
}

func goText(v any) string { return fmt.Sprintf("%T %#v", v, v) }

func groupText(v any) string {
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("%q", v)
	case []any:
		var s []string
		for _, e := range v {
			s = append(s, groupText(e))
		}
		return "[" + strings.Join(s, ", ") + "]"
	}
	return fmt.Sprintf("%v", v)
}

func protoText(u *pb.Update) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(&pb.Update{Val: u.GetVal(), Value: u.GetValue()})
	return fmt.Sprintf("%x %v", b, err)
}
