package checks

import (
	"fmt"
	"unicode/utf8"

	"github.com/google/uuid"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/literal"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C02"] = c02 }

// litDirect builds a non-null value of the default variation with the functions
// made for its kind: those of package literal and the named ones of expr.
func litDirect(l *spec.LS, r *vk.R) (string, func() (expr.Literal, error)) {
	null := l.T.N == types.NullabilityNullable
	ok := func(f func() expr.Literal) func() (expr.Literal, error) {
		return func() (expr.Literal, error) { return f(), nil }
	}
	alt := r.Bool()
	kids := func() []expr.Literal { return spec.LitGos(l.Kids, false) }
	entries := func() (v expr.MapLiteralValue) {
		for i := 0; i < len(l.Kids); i += 2 {
			v = append(v, struct{ Key, Value expr.Literal }{l.Kids[i].Go(false), l.Kids[i+1].Go(false)})
		}
		return v
	}
	switch l.T.K {
	case spec.Bool:
		return "bool", ok(func() expr.Literal { return literal.NewBool(l.Bl, null) })
	case spec.I8:
		return "i8", ok(func() expr.Literal { return literal.NewInt8(int8(l.I), null) })
	case spec.I16:
		return "i16", ok(func() expr.Literal { return literal.NewInt16(int16(l.I), null) })
	case spec.I32:
		return "i32", ok(func() expr.Literal { return literal.NewInt32(int32(l.I), null) })
	case spec.I64:
		return "i64", ok(func() expr.Literal { return literal.NewInt64(l.I, null) })
	case spec.Fp32:
		return "fp32", ok(func() expr.Literal { return literal.NewFloat32(float32(l.F), null) })
	case spec.Fp64:
		return "fp64", ok(func() expr.Literal { return literal.NewFloat64(l.F, null) })
	case spec.String:
		return "string", ok(func() expr.Literal { return literal.NewString(l.S, null) })
	case spec.Binary:
		return "NewByteSliceLiteral", ok(func() expr.Literal { return expr.NewByteSliceLiteral(l.B, null) })
	case spec.UUID:
		if alt {
			return "NewUUID", func() (expr.Literal, error) {
				u, err := uuid.FromBytes(l.B)
				if err != nil {
					return nil, err
				}
				return literal.NewUUID(u, null)
			}
		}
		return "NewUUIDFromBytes", func() (expr.Literal, error) { return literal.NewUUIDFromBytes(l.B, null) }
	case spec.Date:
		return "NewDate", func() (expr.Literal, error) { return literal.NewDate(int(l.I), null) }
	case spec.Timestamp:
		return "NewTimestampFromMicros", func() (expr.Literal, error) { return literal.NewTimestampFromMicros(l.I, null) }
	case spec.TimestampTz:
		return "NewTimestampTZFromMicros", func() (expr.Literal, error) { return literal.NewTimestampTZFromMicros(l.I, null) }
	case spec.PTime:
		return "NewPrecisionTimeLiteral", ok(func() expr.Literal {
			return expr.NewPrecisionTimeLiteral(l.I, types.TimePrecision(l.T.Len), l.T.N)
		})
	case spec.PTimestamp:
		return "NewPrecisionTimestamp", func() (expr.Literal, error) {
			return literal.NewPrecisionTimestamp(types.TimePrecision(l.T.Len), l.I, null)
		}
	case spec.PTimestampTz:
		return "NewPrecisionTimestampTz", func() (expr.Literal, error) {
			return literal.NewPrecisionTimestampTz(types.TimePrecision(l.T.Len), l.I, null)
		}
	case spec.IntervalYear:
		return "NewIntervalYearsToMonth", func() (expr.Literal, error) { return literal.NewIntervalYearsToMonth(l.Y, l.M, null) }
	case spec.IntervalDay:
		if !l.Micros && l.T.Len == 6 {
			return "NewIntervalDaysToSecond", func() (expr.Literal, error) {
				return literal.NewIntervalDaysToSecond(l.D, l.Sec, l.Sub, null)
			}
		}
	case spec.FixedChar:
		if alt {
			return "NewFixedCharLiteral", ok(func() expr.Literal { return expr.NewFixedCharLiteral(types.FixedChar(l.S), null) })
		}
		return "NewFixedChar", func() (expr.Literal, error) { return literal.NewFixedChar(l.S, null) }
	case spec.FixedBinary:
		if alt {
			return "NewFixedBinaryLiteral", ok(func() expr.Literal { return expr.NewFixedBinaryLiteral(types.FixedBinary(l.B), null) })
		}
		return "NewFixedBinary", func() (expr.Literal, error) { return literal.NewFixedBinary(l.B, null) }
	case spec.Struct:
		return "NewNestedLiteral", ok(func() expr.Literal { return expr.NewNestedLiteral(expr.StructLiteralValue(kids()), null) })
	case spec.List:
		if len(l.Kids) == 0 {
			return "NewEmptyList", func() (expr.Literal, error) { return literal.NewEmptyList(l.T.Kids[0].Go(), null) }
		}
		if alt {
			return "NewNestedLiteral", ok(func() expr.Literal { return expr.NewNestedLiteral(expr.ListLiteralValue(kids()), null) })
		}
		return "NewList", func() (expr.Literal, error) { return literal.NewList(kids(), null) }
	case spec.Map:
		if len(l.Kids) == 0 {
			return "NewEmptyMap", func() (expr.Literal, error) {
				return literal.NewEmptyMap(l.T.Kids[0].Go(), l.T.Kids[1].Go(), null)
			}
		}
		if alt {
			return "NewNestedLiteral", ok(func() expr.Literal { return expr.NewNestedLiteral(entries(), null) })
		}
		return "NewMap", func() (expr.Literal, error) { return literal.NewMap(entries(), null) }
	case spec.UDT:
		if !l.IsAny {
			return "NewUserDefinedLiteral", func() (expr.Literal, error) {
				var ps []types.TypeParam
				for _, p := range l.T.Params {
					ps = append(ps, p.Go())
				}
				return literal.NewUserDefinedLiteral(l.T.Ref, expr.StructLiteralValue(kids()), null, ps)
			}
		}
	}
	return "", nil
}

// c02direct: what the functions made for one kind of literal build is the
// literal of their arguments, and lists and maps of unlike or missing members
// are refused.
func c02direct(t *vk.T) {
	r := t.R
	ty := spec.GenLitType(r, 2)
	if t.Index < 2000 {
		ty = &spec.TS{K: spec.Kind(t.Index % int(spec.NumKinds)), N: types.Nullability(1 + t.Index/7%2)}
		if ty.K == spec.NumPrimitive || ty.K == spec.NumScalar || ty.K == spec.Func {
			ty.K = spec.List
		}
		spec.FillType(r, ty, spec.TypeOpt{Depth: 1, NoUnspec: true, NoFunc: true, NoUDT: true})
		spec.ClampLit(r, ty)
	}
	ty.Var = 0
	if ty.K == spec.IntervalDay && r.Bool() {
		ty.Len = 6
	}
	l := spec.GenLit(r, ty)
	what, build := litDirect(l, r)
	t.Desc = func() string { return what + " for " + l.Full() }
	if l.Null || build == nil {
		return
	}
	var g expr.Literal
	var err error
	if !t.NoPanic(what, func() { g, err = build() }) {
		return
	}
	t.Must(err == nil && g != nil, "direct-refused:"+what, "%v, %v", g, err)
	want := l.Proto()
	t.Check(pb.Equal(g.ToProtoLiteral(), want), "direct:"+what, "encodes to another literal:\n%s", pdiff(want, g.ToProtoLiteral()))
	t.Check(pb.Equal(types.TypeToProto(g.GetType()), ty.Proto()), "direct-type:"+what, "type %v:\n%s", g.GetType(), pdiff(ty.Proto(), types.TypeToProto(g.GetType())))
	d := expr.LiteralFromProto(g.ToProtoLiteral())
	t.Check(d != nil && d.Equals(g) && g.Equals(d), "direct-roundtrip:"+what, "decodes to %v", d)
	t.Obs(what, l.Full())
	t.Sample("%s %s", what, l.Full())

	refused := func(key string, f func() (expr.Literal, error)) {
		var g expr.Literal
		var err error
		if t.NoPanic(key, func() { g, err = f() }) {
			t.Check(err != nil && g == nil, "direct-accepted:"+key, "%v, %v", g, err)
		}
	}
	null := r.Bool()
	other := func(k *spec.TS) expr.Literal {
		if r.P(1, 4) {
			return nil
		}
		return spec.GenLit(r, otherType(r, k, true)).Go(false)
	}
	switch {
	case l.T.K == spec.List && len(l.Kids) > 1:
		kids := spec.LitGos(l.Kids, false)
		kids[r.N(len(kids))] = other(l.T.Kids[0])
		refused("NewList", func() (expr.Literal, error) { return literal.NewList(kids, null) })
	case l.T.K == spec.List:
		refused("NewList", func() (expr.Literal, error) { return literal.NewList([]expr.Literal{nil}[:r.N(2)], null) })
		refused("NewEmptyList", func() (expr.Literal, error) { return literal.NewEmptyList(nil, null) })
	case l.T.K == spec.Map && len(l.Kids) > 2:
		var v expr.MapLiteralValue
		bad := r.N(len(l.Kids))
		for i := 0; i < len(l.Kids); i += 2 {
			k, x := l.Kids[i].Go(false), l.Kids[i+1].Go(false)
			switch bad {
			case i:
				k = other(l.T.Kids[0])
			case i + 1:
				x = other(l.T.Kids[1])
			}
			v = append(v, struct{ Key, Value expr.Literal }{k, x})
		}
		refused("NewMap", func() (expr.Literal, error) { return literal.NewMap(v, null) })
	case l.T.K == spec.Map:
		k, v := l.T.Kids[0].Go(), l.T.Kids[1].Go()
		refused("NewMap", func() (expr.Literal, error) { return literal.NewMap(nil, null) })
		refused("NewEmptyMap", func() (expr.Literal, error) { return literal.NewEmptyMap(nil, v, null) })
		refused("NewEmptyMap", func() (expr.Literal, error) { return literal.NewEmptyMap(k, nil, null) })
	case l.T.K == spec.VarChar:
		g, err := literal.NewVarChar(l.S, null)
		t.Must(err == nil, "direct-refused:NewVarChar", "%v", err)
		p := g.ToProtoLiteral()
		vc := p.GetVarChar()
		t.Check(vc.GetValue() == l.S && p.GetNullable() == null && int(vc.GetLength()) >= utf8.RuneCountInString(l.S), "direct:NewVarChar", "%v", p)
		d := expr.LiteralFromProto(p)
		t.Check(d != nil && d.Equals(g), "direct-roundtrip:NewVarChar", "decodes to %v", d)
	}
}

func c02(c *vk.C) {
	c.Rule("literal-roundtrip: random literals of every kind (boundary values, nullability, variation, nesting to depth 2), built through constructors and as structs, encoded by the library and by an independent encoder, decoded from the message and from its wire bytes; non-trivial = distinct literal")
	c.Rule("constructors: every function made for one kind of literal (package literal, the named ones of expr) on random arguments of its kind against the literal they describe; lists and maps with a member of another type, of another nullability or missing are refused")
	c.Rule("literal-equality: a literal against a copy, a single-component mutation or another literal; unrepresentable: protobuf literals no library literal can carry, on their own and nested, must give an error from ExprFromProto and nil from LiteralFromProto")
	reg := expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())
	c.ParSection("literal-roundtrip", c.Scale(200000, 3000000), func(t *vk.T) {
		r := t.R
		var ty *spec.TS
		if t.Index < 600 { // every kind
			ty = &spec.TS{K: spec.Kind(t.Index % int(spec.NumKinds)), N: types.Nullability(1 + t.Index/7%2), Var: uint32(t.Index % 3)}
			if ty.K == spec.NumPrimitive || ty.K == spec.NumScalar || ty.K == spec.Func {
				ty.K = spec.IntervalDay
			}
			spec.FillType(r, ty, spec.TypeOpt{Depth: 1, NoUnspec: true, NoFunc: true, NoUDT: true})
			spec.ClampLit(r, ty)
		} else {
			ty = spec.GenLitType(r, 2)
		}
		l := spec.GenLit(r, ty)
		k := ty.K.String()
		if l.Null {
			k = "null"
		}
		ctor := r.Bool()
		t.Desc = func() string { return fmt.Sprintf("%s (constructors: %v)", l.Full(), ctor) }
		t.Phase = "building " + k
		g := l.Go(ctor)
		want := l.Proto()
		t.Check(types.TypeToProto(g.GetType()).String() != "" && pb.Equal(types.TypeToProto(g.GetType()), ty.Proto()), "type:"+k, "literal type is %v:\n%s", g.GetType(), pdiff(ty.Proto(), types.TypeToProto(g.GetType())))
		enc := g.ToProtoLiteral()
		t.Check(pb.Equal(enc, want), "encode:"+k, "encoding differs:\n%s", pdiff(want, enc))
		t.Check(pb.Equal(g.ToProto().GetLiteral(), want) && pb.Equal(g.ToProtoFuncArg().GetValue().GetLiteral(), want), "encode-wrapped:"+k, "ToProto/ToProtoFuncArg carry another literal")
		b, err := pb.Marshal(want)
		t.Must(err == nil, "marshal", "%v", err)
		var wire proto.Expression_Literal
		t.Must(pb.Unmarshal(b, &wire) == nil, "unmarshal", "unmarshal")
		for _, src := range []*proto.Expression_Literal{want, &wire} {
			var d expr.Literal
			if !t.NoPanic("LiteralFromProto "+k, func() { d = expr.LiteralFromProto(src) }) {
				return
			}
			t.Must(d != nil, "decode-nil:"+k, "decoded to nil")
			t.Check(d.Equals(g), "decode-equal:"+k, "decoded %v does not equal %v", d, g)
			t.Check(g.Equals(d), "decode-equal-rev:"+k, "%v does not equal decoded %v", g, d)
			t.Check(d.GetType().Equals(g.GetType()) && g.GetType().Equals(d.GetType()), "decode-type:"+k, "decoded type %v, want %v", d.GetType(), g.GetType())
			t.Check(pb.Equal(types.TypeToProto(d.GetType()), ty.Proto()), "decode-type-proto:"+k, "decoded type:\n%s", pdiff(ty.Proto(), types.TypeToProto(d.GetType())))
			t.Check(pb.Equal(d.ToProtoLiteral(), want), "reencode:"+k, "re-encoding differs:\n%s", pdiff(want, d.ToProtoLiteral()))
			e, err := expr.ExprFromProto(&proto.Expression{RexType: &proto.Expression_Literal_{Literal: src}}, nil, reg)
			t.Check(err == nil && e != nil && e.Equals(g), "expr:"+k, "ExprFromProto gives %v, %v", e, err)
			t.NoPanic("strings of "+k, func() { _, _ = d.String(), d.ValueString() })
			t.Check(d.String() == g.String(), "string:"+k, "%q vs %q", d, g)
			if i, ok := d.(interface{ IsoValueString() string }); ok {
				t.NoPanic("iso string of "+k, func() { i.IsoValueString() })
			}
		}
		t.Check(pb.Equal(g.ToProtoLiteral(), want), "encode-again:"+k, "second encoding differs")
		t.Obs(l.Full())
		t.Sample("%s", l.Full())
	})
	c.ParSection("literal-equality", c.Scale(200000, 3000000), func(t *vk.T) {
		r := t.R
		l := spec.GenLit(r, spec.GenLitType(r, 2))
		var o *spec.LS
		switch r.N(4) {
		case 0:
			o = l.Clone()
		case 1:
			o = spec.GenLit(r, spec.GenLitType(r, 1))
		default:
			o = spec.MutateLit(r, l)
		}
		want := l.Full() == o.Full()
		t.Desc = func() string { return l.Full() + "  vs  " + o.Full() }
		t.Phase = "literal equality"
		a, b := l.Go(r.Bool()), o.Go(r.Bool())
		t.Check(a.Equals(b) == want, fmt.Sprintf("equals:%v:%v:want-%v", l.T.K, o.T.K, want), "Equals=%v", !want)
		t.Check(b.Equals(a) == want, fmt.Sprintf("equals-sym:%v:%v:want-%v", l.T.K, o.T.K, want), "reverse Equals=%v", !want)
		t.Check(pb.Equal(a.ToProtoLiteral(), b.ToProtoLiteral()) == want, "encode-injective:"+l.T.K.String(), "encodings equal=%v want %v", !want, want)
		t.Obs(l.Full(), o.Full())
	})
	c.ParSection("constructors", c.Scale(60000, 1000000), c02direct)
	c.Section("unrepresentable", c.Scale(6000, 60000), func(t *vk.T) {
		r := t.R
		what, bad := badLiteral(r)
		in := bad
		depth := r.N(3)
		for i := 0; i < depth; i++ {
			good := spec.GenLit(r, &spec.TS{K: spec.I32, N: types.NullabilityRequired}).Proto()
			o := &proto.Expression_Literal{}
			switch r.N(4) {
			case 0:
				o.LiteralType = &proto.Expression_Literal_Struct_{Struct: &proto.Expression_Literal_Struct{Fields: []*proto.Expression_Literal{good, in}}}
			case 1:
				o.LiteralType = &proto.Expression_Literal_List_{List: &proto.Expression_Literal_List{Values: []*proto.Expression_Literal{good, in}}}
			case 2:
				o.LiteralType = &proto.Expression_Literal_Map_{Map: &proto.Expression_Literal_Map{KeyValues: []*proto.Expression_Literal_Map_KeyValue{{Key: good, Value: good}, {Key: good, Value: in}}}}
			case 3:
				o.LiteralType = &proto.Expression_Literal_Map_{Map: &proto.Expression_Literal_Map{KeyValues: []*proto.Expression_Literal_Map_KeyValue{{Key: in, Value: good}}}}
			}
			in = o
		}
		t.Desc = func() string { return fmt.Sprintf("%s at depth %d: %v", what, depth, in) }
		var d expr.Literal
		if t.NoPanic("LiteralFromProto "+what, func() { d = expr.LiteralFromProto(in) }) {
			t.Check(d == nil, "accepted:"+what, "decoded to %v", d)
		}
		var e expr.Expression
		var err error
		if t.NoPanic("ExprFromProto "+what, func() {
			e, err = expr.ExprFromProto(&proto.Expression{RexType: &proto.Expression_Literal_{Literal: in}}, nil, reg)
		}) {
			t.Check(err != nil, "no-error:"+what, "ExprFromProto gives %v without an error", e)
		}
		t.Obs(what, depth, in)
	})
	// values that do not state their precision count microseconds
	c.Section("interval-day-default", 500, func(t *vk.T) {
		r := t.R
		v := &proto.Expression_Literal_IntervalDayToSecond{Days: int32(r.Uint32()), Seconds: int32(r.Uint32())}
		if r.Bool() {
			v.PrecisionMode = &proto.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: int32(r.Uint32())}
		}
		t.Desc = func() string { return v.String() }
		p := &proto.Expression_Literal{LiteralType: &proto.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: v}}
		d := expr.LiteralFromProto(p)
		g, err := expr.NewLiteral[*types.IntervalDayToSecond](v, false)
		t.Must(d != nil && err == nil, "decode", "nil or %v", err)
		want := &types.IntervalDayType{Precision: types.PrecisionMicroSeconds, Nullability: types.NullabilityRequired}
		t.Check(d.GetType().Equals(want) && g.GetType().Equals(want), "type", "types %v %v", d.GetType(), g.GetType())
		t.Check(d.Equals(g) && pb.Equal(d.ToProtoLiteral(), p), "same", "differ")
		t.Obs(v.String())
		p12 := &proto.Expression_Literal_IntervalDayToSecond{PrecisionMode: &proto.Expression_Literal_IntervalDayToSecond_Precision{Precision: int32(10 + r.N(5))}}
		_, err = expr.NewLiteral[*types.IntervalDayToSecond](p12, false)
		t.Check(err != nil, "bad-precision-accepted", "precision %d accepted", p12.GetPrecision())
	})
}

// badLiteral makes a protobuf literal that no library literal can carry.
func badLiteral(r *vk.R) (string, *proto.Expression_Literal) {
	l := &proto.Expression_Literal{Nullable: r.Bool()}
	prec := vk.PickOf(r, int32(-1), 10, 11, 1<<31-1, -1<<31)
	switch r.N(17) {
	case 0:
		return "unset", l
	case 1:
		l.LiteralType = &proto.Expression_Literal_I8{I8: vk.PickOf(r, int32(128), -129, 255, 256, 1<<31-1, -1<<31)}
		return "i8-range", l
	case 2:
		l.LiteralType = &proto.Expression_Literal_I16{I16: vk.PickOf(r, int32(32768), -32769, 65535, 65536, 1<<31-1)}
		return "i16-range", l
	case 3:
		l.LiteralType = &proto.Expression_Literal_PrecisionTime_{PrecisionTime: &proto.Expression_Literal_PrecisionTime{Precision: prec, Value: 1}}
		return "precision_time-precision", l
	case 4:
		l.LiteralType = &proto.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: &proto.Expression_Literal_PrecisionTimestamp{Precision: prec, Value: 1}}
		return "precision_timestamp-precision", l
	case 5:
		l.LiteralType = &proto.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: &proto.Expression_Literal_PrecisionTimestamp{Precision: prec, Value: 1}}
		return "precision_timestamp_tz-precision", l
	case 6:
		l.LiteralType = &proto.Expression_Literal_PrecisionTime_{PrecisionTime: &proto.Expression_Literal_PrecisionTime{Precision: 3, Value: -1 - int64(r.N(5))}}
		return "precision_time-negative", l
	case 7:
		l.LiteralType = &proto.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: &proto.Expression_Literal_IntervalDayToSecond{PrecisionMode: &proto.Expression_Literal_IntervalDayToSecond_Precision{Precision: prec}}}
		return "interval_day-precision", l
	case 8:
		d := &proto.Expression_Literal_IntervalDayToSecond{Days: 1, PrecisionMode: &proto.Expression_Literal_IntervalDayToSecond_Precision{Precision: prec}}
		l.LiteralType = &proto.Expression_Literal_IntervalCompound_{IntervalCompound: &proto.Expression_Literal_IntervalCompound{IntervalDayToSecond: d}}
		return "interval_compound-precision", l
	case 9:
		d := &proto.Expression_Literal_IntervalDayToSecond{Days: 1}
		l.LiteralType = &proto.Expression_Literal_IntervalCompound_{IntervalCompound: &proto.Expression_Literal_IntervalCompound{IntervalDayToSecond: d}}
		return "interval_compound-mode", l
	case 10:
		d := &proto.Expression_Literal_IntervalDayToSecond{Days: 1, Subseconds: vk.PickOf(r, int64(1), -1, 1<<40), PrecisionMode: &proto.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: 3}}
		l.LiteralType = &proto.Expression_Literal_IntervalCompound_{IntervalCompound: &proto.Expression_Literal_IntervalCompound{IntervalDayToSecond: d}}
		return "interval_compound-two-values", l
	case 11:
		l.LiteralType = &proto.Expression_Literal_List_{List: &proto.Expression_Literal_List{}}
		return "list-empty", l
	case 12:
		l.LiteralType = &proto.Expression_Literal_Map_{Map: &proto.Expression_Literal_Map{}}
		return "map-empty", l
	case 13:
		l.LiteralType = &proto.Expression_Literal_Decimal_{Decimal: &proto.Expression_Literal_Decimal{Value: make([]byte, vk.PickOf(r, 0, 1, 15, 17, 32)), Precision: 5, Scale: 1}}
		return "decimal-width", l
	case 14:
		l.LiteralType = &proto.Expression_Literal_VarChar_{VarChar: &proto.Expression_Literal_VarChar{Value: "x", Length: vk.PickOf(r, uint32(1<<31), 1<<32-1)}}
		return "varchar-length", l
	case 15:
		u := &proto.Expression_Literal_UserDefined{TypeAnchorType: &proto.Expression_Literal_UserDefined_TypeAliasReference{TypeAliasReference: uint32(r.N(3))}, Val: &proto.Expression_Literal_UserDefined_Struct{Struct: &proto.Expression_Literal_Struct{}}}
		l.LiteralType = &proto.Expression_Literal_UserDefined_{UserDefined: u}
		return "user-defined-alias", l
	}
	u := &proto.Expression_Literal_UserDefined{TypeAnchorType: &proto.Expression_Literal_UserDefined_TypeReference{TypeReference: uint32(r.N(3))}}
	l.LiteralType = &proto.Expression_Literal_UserDefined_{UserDefined: u}
	return "user-defined-unset", l
}
