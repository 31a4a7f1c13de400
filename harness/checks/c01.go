package checks

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C01"] = c01 }

func c01(c *vk.C) {
	opt := spec.TypeOpt{Depth: 3}
	c.Rule("type-roundtrip: random types over all kinds/nullabilities/variations/parameters nested to depth 3, each encoded by the library and by an independent encoder; non-trivial = distinct type structure")
	c.Rule("proto-roundtrip: the independent encodings decoded and re-encoded; type-equality: pairs (copy, single-component mutation, independent type), equality must coincide with model identity")
	c.Section("type-roundtrip", c.Scale(40000, 600000), func(t *vk.T) {
		var s *spec.TS
		if t.Index < int(spec.NumScalar)*3 { // every scalar kind with every nullability
			s = &spec.TS{K: spec.Kind(t.Index / 3), N: types.Nullability(t.Index % 3)}
			if s.K == spec.NumPrimitive {
				s.K = spec.UDT
			}
			spec.FillType(t.R, s, opt)
			s.Var = uint32(t.Index % 5)
			if s.K == spec.Func {
				s.Var = 0
			}
		} else {
			s = spec.GenType(t.R, opt)
		}
		k := s.K.String()
		t.Desc = func() string { return s.Full() }
		t.Phase = "building " + k
		g := s.Go()
		want := s.Proto()
		t.Check(g.GetNullability() == s.N, "nullability:"+k, "GetNullability=%v want %v", g.GetNullability(), s.N)
		t.Check(g.GetTypeVariationReference() == s.Var, "variation:"+k, "variation=%v want %v", g.GetTypeVariationReference(), s.Var)
		t.Check(g.ShortString() == s.K.Short(), "short:"+k, "short name %q want %q", g.ShortString(), s.K.Short())
		var enc *proto.Type
		if !t.NoPanic("TypeToProto "+k, func() { enc = types.TypeToProto(g) }) {
			return
		}
		t.Check(pb.Equal(enc, want), "encode:"+k, "encoding differs:\n%s", pdiff(want, enc))
		if tp, ok := g.(interface{ ToProto() *proto.Type }); ok {
			t.Check(pb.Equal(tp.ToProto(), want), "ToProto:"+k, "ToProto differs:\n%s", pdiff(want, tp.ToProto()))
		}
		fa := g.ToProtoFuncArg()
		t.Check(pb.Equal(fa.GetType(), want), "funcarg:"+k, "ToProtoFuncArg differs:\n%s", pdiff(want, fa.GetType()))
		var dec types.Type
		if !t.NoPanic("TypeFromProto "+k, func() { dec = types.TypeFromProto(want) }) {
			return
		}
		t.Check(dec != nil && dec.Equals(g) && g.Equals(dec), "decode-equal:"+k, "decoded %v not equal to %v", dec, g)
		t.Check(dec.ShortString() == g.ShortString() && dec.String() == g.String(), "decode-names:"+k, "names differ: %v %v", dec, g)
		var re *proto.Type
		if t.NoPanic("TypeToProto(decoded) "+k, func() { re = types.TypeToProto(dec) }) {
			t.Check(pb.Equal(re, want), "reencode:"+k, "re-encoding differs:\n%s", pdiff(want, re))
		}
		// copies with another nullability differ in exactly that
		for n := types.Nullability(0); n < 3; n++ {
			w := g.WithNullability(n)
			var we *proto.Type
			if t.NoPanic("TypeToProto(WithNullability) "+k, func() { we = types.TypeToProto(w) }) {
				t.Check(pb.Equal(we, s.With(n).Proto()), "with-nullability:"+k, "WithNullability(%v):\n%s", n, pdiff(s.With(n).Proto(), we))
			}
		}
		t.Check(pb.Equal(types.TypeToProto(g), want), "with-nullability-mutates:"+k, "the type changed after WithNullability on it:\n%s", pdiff(want, types.TypeToProto(g)))
		t.Obs(s.Full())
		t.Sample("%s -> %v", s.Full(), g)
	})
	// the compound-interval and year-month value types have their own modifiers
	c.Section("value-modifiers", 3000, func(t *vk.T) {
		r := t.R
		p, v, n := types.TimePrecision(r.N(10)), uint32(r.N(5)), types.Nullability(r.N(3))
		want := (&spec.TS{K: spec.IntervalCompound, N: n, Var: v, Len: int32(p)}).Proto()
		x := types.NewIntervalCompoundType()
		ops := []int{0, 1, 2}
		vk.Shuffle(r, ops)
		t.Desc = func() string { return fmt.Sprint("order ", ops, " p=", p, " var=", v, " null=", n) }
		for _, op := range ops {
			switch op {
			case 0:
				x = x.WithPrecision(p)
			case 1:
				x = x.WithTypeVariationRef(v)
			case 2:
				x = x.WithNullability(n).(types.IntervalCompoundType)
			}
		}
		t.Check(pb.Equal(x.ToProto(), want), "interval_compound-modifiers", "modifiers lost something:\n%s", pdiff(want, x.ToProto()))
		y := types.NewIntervalYearToMonthType()
		if r.Bool() {
			y = y.WithTypeVariationRef(v).WithNullability(n).(types.IntervalYearToMonthType)
		} else {
			y = y.WithNullability(n).(types.IntervalYearToMonthType).WithTypeVariationRef(v)
		}
		wy := (&spec.TS{K: spec.IntervalYear, N: n, Var: v}).Proto()
		t.Check(pb.Equal(y.ToProto(), wy), "interval_year_to_month-modifiers", "modifiers lost something:\n%s", pdiff(wy, y.ToProto()))
		var e *proto.Type
		if t.NoPanic("TypeToProto IntervalYearToMonthType", func() { e = types.TypeToProto(y) }) {
			t.Check(pb.Equal(e, wy), "encode:IntervalYearToMonthType", "encoding differs:\n%s", pdiff(wy, e))
			d := types.TypeFromProto(e)
			t.Check(d.Equals(y) && y.Equals(d), "decode-equal:IntervalYearToMonthType", "%T %v and %T %v do not compare equal", d, d, y, y)
			y2 := types.NewIntervalYearToMonthType().WithTypeVariationRef(v + 1).WithNullability(n)
			t.Check(!d.Equals(y2) && !y2.Equals(d), "equal-differs:IntervalYearToMonthType", "types with different variations compare equal")
		}
		// an interval_day without precision means microseconds
		dd := types.TypeFromProto(&proto.Type{Kind: &proto.Type_IntervalDay_{IntervalDay: &proto.Type_IntervalDay{Nullability: proto.Type_Nullability(n), TypeVariationReference: v}}})
		t.Check(dd.Equals((&spec.TS{K: spec.IntervalDay, N: n, Var: v, Len: 6}).Go()), "interval_day-default-precision", "decoded as %v", dd)
		t.Obs(ops, p, v, n)
	})
	// every name of a type gives the type of that name, and no other does
	c.Section("names", int(spec.NumKinds)*5, func(t *vk.T) {
		k := spec.Kind(t.Index % int(spec.NumKinds))
		if k == spec.NumPrimitive || k == spec.NumScalar {
			return
		}
		r := t.R
		name := k.String()
		n, length := types.Nullability(1+r.N(2)), int32(1+r.N(1000))
		want := &spec.TS{K: k, N: n}
		t.Desc = func() string { return name }
		judge := func(what string, g types.Type) {
			got := types.TypeToProto(g)
			t.Check(pb.Equal(got, want.Proto()), what+":"+name, "the type named %q is %v:\n%s", name, g, pdiff(want.Proto(), got))
			t.Check(g.ShortString() == k.Short(), what+":"+name, "its short name is %q", g.ShortString())
		}
		simple, err1 := types.SimpleTypeNameToType(types.TypeName(name))
		fixed, err2 := types.FixedTypeNameToType(types.TypeName(name))
		listed := types.GetTypeNameToTypeMap()[name]
		if short := types.GetShortTypeName(types.TypeName(name)); k < spec.NumScalar {
			t.Check(short == k.Short(), "short-name:"+name, "the short name of %q is %q", name, short)
		}
		switch k {
		case spec.FixedChar, spec.VarChar, spec.FixedBinary:
			t.Must(err1 != nil && err2 == nil && listed != nil, "name:"+name, "simple %v, fixed %v, listed %v", err1, err2, listed)
			want.Len = length
			judge("fixed-name", fixed.WithLength(length).WithNullability(n))
			t.Check(fixed.GetLength() == 0, "fixed-name-changed", "taking a length left %d in the named type", fixed.GetLength())
			l, ok := listed.WithNullability(n).(types.FixedType)
			t.Must(ok, "listed-name:"+name, "%T", listed)
			judge("listed-name", l.WithLength(length))
		case spec.Decimal, spec.PTime, spec.PTimestamp, spec.PTimestampTz, spec.IntervalDay:
			t.Must(err1 != nil && err2 != nil && listed != nil, "name:"+name, "simple %v, fixed %v, listed %v", err1, err2, listed)
			judge("listed-name", listed.WithNullability(n))
		case spec.IntervalCompound, spec.Struct, spec.List, spec.Map, spec.Func:
			t.Check(err1 != nil && err2 != nil && listed == nil, "name:"+name, "simple %v, fixed %v, listed %v", err1, err2, listed)
		default:
			t.Must(err1 == nil && err2 != nil && listed != nil, "name:"+name, "simple %v, fixed %v, listed %v", err1, err2, listed)
			judge("simple-name", simple.WithNullability(n))
			judge("listed-name", listed.WithNullability(n))
		}
		bad := types.TypeName(vk.PickOf(r, "", "I8", "i8 ", "int", name+"x", "x"+name, "null", "any"))
		_, err1 = types.SimpleTypeNameToType(bad)
		_, err2 = types.FixedTypeNameToType(bad)
		t.Check(err1 != nil && err2 != nil && types.GetTypeNameToTypeMap()[string(bad)] == nil, "unknown-name", "%q names a type", bad)
		t.Obs(name, n, length)
	})
	c.Section("type-equality", c.Scale(40000, 500000), func(t *vk.T) {
		s := spec.GenType(t.R, opt)
		var o *spec.TS
		switch t.R.N(4) {
		case 0:
			o = s.Clone()
		case 1:
			o = spec.GenType(t.R, opt)
		default:
			o = spec.MutateType(t.R, s, opt)
		}
		t.Desc = func() string { return s.Full() + "  vs  " + o.Full() }
		t.Phase = "type equality"
		a, b := s.Go(), o.Go()
		want := s.Equal(o)
		t.Check(a.Equals(b) == want, fmt.Sprintf("equals:%v:%v:want-%v", s.K, o.K, want), "Equals=%v want %v", !want, want)
		t.Check(b.Equals(a) == want, fmt.Sprintf("equals-sym:%v:%v:want-%v", s.K, o.K, want), "reverse Equals=%v want %v", !want, want)
		da, db := types.TypeFromProto(s.Proto()), types.TypeFromProto(o.Proto())
		t.Check(da.Equals(db) == want && da.Equals(b) == want && a.Equals(db) == want, fmt.Sprintf("equals-decoded:%v:%v:want-%v", s.K, o.K, want), "decoded Equals=%v want %v", !want, want)
		t.Check(pb.Equal(types.TypeToProto(a), types.TypeToProto(b)) == want, "encode-injective:"+s.K.String(), "encodings equal=%v want %v", !want, want)
		if !want {
			t.Obs(s.Full(), "~", o.Full())
		}
	})
	c.Section("named-struct", c.Scale(4000, 50000), func(t *vk.T) {
		s := &spec.TS{K: spec.Struct, N: types.NullabilityRequired, Var: vk.PickOf(t.R, uint32(0), 0, 7)}
		for i, n := 0, t.R.N(5); i < n; i++ {
			s.Kids = append(s.Kids, spec.GenType(t.R, spec.TypeOpt{Depth: 2}))
		}
		var count func(x *spec.TS) int
		count = func(x *spec.TS) int {
			switch x.K {
			case spec.Struct:
				n := len(x.Kids)
				for _, k := range x.Kids {
					n += count(k)
				}
				return n
			case spec.List, spec.Map:
				n := 0
				for _, k := range x.Kids {
					n += count(k)
				}
				return n
			}
			return 0
		}
		want := count(s)
		t.Desc = func() string { return s.Full() }
		st := s.Go().(*types.StructType)
		t.Check(st.DepthFirstNameCount() == want, "name-count", "DepthFirstNameCount=%d want %d", st.DepthFirstNameCount(), want)
		names := make([]string, want)
		for i := range names {
			names[i] = fmt.Sprintf("n%d", i)
		}
		p := &proto.NamedStruct{Names: names, Struct: s.Proto().GetStruct()}
		ns := types.NewNamedStructFromProto(p)
		t.Check(pb.Equal(ns.ToProto(), p), "named-struct-roundtrip", "differs:\n%s", pdiff(p, ns.ToProto()))
		t.NoPanic("NamedStruct.String", func() { _ = ns.String() })
		rt := types.NewRecordTypeFromStruct(ns.Struct)
		t.Check(int(rt.FieldCount()) == len(s.Kids), "record-field-count", "%d want %d", rt.FieldCount(), len(s.Kids))
		// a record has no type variation of its own
		plain := *s
		plain.Var = 0
		t.Check(pb.Equal(types.TypeToProto(rt.AsStructType()), plain.Proto()), "record-as-struct", "AsStructType differs")
		for i, k := range s.Kids {
			t.Check(rt.GetFieldRef(int32(i)).Equals(k.Go()), "record-field", "field %d", i)
		}
		t.Obs(s.Full())
	})
}
