package spec

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/harness/vk"
)

// LS is a literal: a type and a value of it.
type LS struct {
	T            *TS
	Null         bool
	Bl           bool
	I            int64 // integers, dates, times, timestamps, precision values
	F            float64
	S            string
	B            []byte // binary kinds, decimal (16 bytes little endian)
	Y, M, D, Sec int32
	Sub          int64
	Micros       bool  // interval_day in the deprecated microseconds form (value in Sub)
	Kids         []*LS // list, struct, map (key, value, ...), user-defined struct
	AnyURL       string
	Any          []byte
	IsAny        bool
}

// Proto is the independent encoding.
func (l *LS) Proto() *proto.Expression_Literal {
	o := &proto.Expression_Literal{Nullable: l.T.N == types.NullabilityNullable, TypeVariationReference: l.T.Var}
	if l.Null {
		o.Nullable = true
		o.LiteralType = &proto.Expression_Literal_Null{Null: l.T.Proto()}
		return o
	}
	switch l.T.K {
	case Bool:
		o.LiteralType = &proto.Expression_Literal_Boolean{Boolean: l.Bl}
	case I8:
		o.LiteralType = &proto.Expression_Literal_I8{I8: int32(l.I)}
	case I16:
		o.LiteralType = &proto.Expression_Literal_I16{I16: int32(l.I)}
	case I32:
		o.LiteralType = &proto.Expression_Literal_I32{I32: int32(l.I)}
	case I64:
		o.LiteralType = &proto.Expression_Literal_I64{I64: l.I}
	case Fp32:
		o.LiteralType = &proto.Expression_Literal_Fp32{Fp32: float32(l.F)}
	case Fp64:
		o.LiteralType = &proto.Expression_Literal_Fp64{Fp64: l.F}
	case String:
		o.LiteralType = &proto.Expression_Literal_String_{String_: l.S}
	case Binary:
		o.LiteralType = &proto.Expression_Literal_Binary{Binary: l.B}
	case Timestamp:
		o.LiteralType = &proto.Expression_Literal_Timestamp{Timestamp: l.I}
	case Date:
		o.LiteralType = &proto.Expression_Literal_Date{Date: int32(l.I)}
	case Time:
		o.LiteralType = &proto.Expression_Literal_Time{Time: l.I}
	case TimestampTz:
		o.LiteralType = &proto.Expression_Literal_TimestampTz{TimestampTz: l.I}
	case UUID:
		o.LiteralType = &proto.Expression_Literal_Uuid{Uuid: l.B}
	case IntervalYear:
		o.LiteralType = &proto.Expression_Literal_IntervalYearToMonth_{IntervalYearToMonth: &proto.Expression_Literal_IntervalYearToMonth{Years: l.Y, Months: l.M}}
	case IntervalDay:
		o.LiteralType = &proto.Expression_Literal_IntervalDayToSecond_{IntervalDayToSecond: l.iday()}
	case IntervalCompound:
		c := &proto.Expression_Literal_IntervalCompound{}
		if l.Y != 0 || l.M != 0 {
			c.IntervalYearToMonth = &proto.Expression_Literal_IntervalYearToMonth{Years: l.Y, Months: l.M}
		}
		if l.D != 0 || l.Sec != 0 || l.Sub != 0 || l.T.Len != 0 {
			c.IntervalDayToSecond = l.iday()
		}
		o.LiteralType = &proto.Expression_Literal_IntervalCompound_{IntervalCompound: c}
	case FixedChar:
		o.LiteralType = &proto.Expression_Literal_FixedChar{FixedChar: l.S}
	case VarChar:
		o.LiteralType = &proto.Expression_Literal_VarChar_{VarChar: &proto.Expression_Literal_VarChar{Value: l.S, Length: uint32(l.T.Len)}}
	case FixedBinary:
		o.LiteralType = &proto.Expression_Literal_FixedBinary{FixedBinary: l.B}
	case Decimal:
		o.LiteralType = &proto.Expression_Literal_Decimal_{Decimal: &proto.Expression_Literal_Decimal{Value: l.B, Precision: l.T.Prec, Scale: l.T.Scal}}
	case PTime:
		o.LiteralType = &proto.Expression_Literal_PrecisionTime_{PrecisionTime: &proto.Expression_Literal_PrecisionTime{Precision: l.T.Len, Value: l.I}}
	case PTimestamp:
		o.LiteralType = &proto.Expression_Literal_PrecisionTimestamp_{PrecisionTimestamp: &proto.Expression_Literal_PrecisionTimestamp{Precision: l.T.Len, Value: l.I}}
	case PTimestampTz:
		o.LiteralType = &proto.Expression_Literal_PrecisionTimestampTz{PrecisionTimestampTz: &proto.Expression_Literal_PrecisionTimestamp{Precision: l.T.Len, Value: l.I}}
	case Struct:
		o.LiteralType = &proto.Expression_Literal_Struct_{Struct: &proto.Expression_Literal_Struct{Fields: LitProtos(l.Kids)}}
	case List:
		if len(l.Kids) == 0 {
			o.LiteralType = &proto.Expression_Literal_EmptyList{EmptyList: l.T.Proto().GetList()}
		} else {
			o.LiteralType = &proto.Expression_Literal_List_{List: &proto.Expression_Literal_List{Values: LitProtos(l.Kids)}}
		}
	case Map:
		if len(l.Kids) == 0 {
			o.LiteralType = &proto.Expression_Literal_EmptyMap{EmptyMap: l.T.Proto().GetMap()}
		} else {
			m := &proto.Expression_Literal_Map{}
			for i := 0; i < len(l.Kids); i += 2 {
				m.KeyValues = append(m.KeyValues, &proto.Expression_Literal_Map_KeyValue{Key: l.Kids[i].Proto(), Value: l.Kids[i+1].Proto()})
			}
			o.LiteralType = &proto.Expression_Literal_Map_{Map: m}
		}
	case UDT:
		u := l.udt()
		o.LiteralType = &proto.Expression_Literal_UserDefined_{UserDefined: u}
	default:
		panic("spec: literal kind " + l.T.K.String())
	}
	return o
}

func (l *LS) udt() *proto.Expression_Literal_UserDefined {
	u := &proto.Expression_Literal_UserDefined{TypeAnchorType: &proto.Expression_Literal_UserDefined_TypeReference{TypeReference: l.T.Ref}}
	for _, p := range l.T.Params {
		u.TypeParameters = append(u.TypeParameters, p.Proto())
	}
	if l.IsAny {
		u.Val = &proto.Expression_Literal_UserDefined_Value{Value: &anypb.Any{TypeUrl: l.AnyURL, Value: l.Any}}
	} else {
		u.Val = &proto.Expression_Literal_UserDefined_Struct{Struct: &proto.Expression_Literal_Struct{Fields: LitProtos(l.Kids)}}
	}
	return u
}

func (l *LS) iday() *proto.Expression_Literal_IntervalDayToSecond {
	o := &proto.Expression_Literal_IntervalDayToSecond{Days: l.D, Seconds: l.Sec}
	if l.Micros {
		o.PrecisionMode = &proto.Expression_Literal_IntervalDayToSecond_Microseconds{Microseconds: int32(l.Sub)}
	} else {
		o.PrecisionMode = &proto.Expression_Literal_IntervalDayToSecond_Precision{Precision: l.T.Len}
		o.Subseconds = l.Sub
	}
	return o
}

// LitProtos encodes a list.
func LitProtos(ls []*LS) []*proto.Expression_Literal {
	out := make([]*proto.Expression_Literal, len(ls))
	for i, x := range ls {
		out[i] = x.Proto()
	}
	return out
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func prim[T interface {
	bool | int8 | int16 | ~int32 | ~int64 | float32 | float64 | ~string
}](v T, t types.Type) expr.Literal {
	return &expr.PrimitiveLiteral[T]{Value: v, Type: t}
}

// Go builds the library's literal; ctor selects the constructor functions over
// struct values where both exist.
func (l *LS) Go(ctor bool) expr.Literal {
	t := l.T.Go()
	null := l.T.N == types.NullabilityNullable
	if l.Null {
		if ctor {
			return expr.NewNullLiteral(l.T.With(types.NullabilityRequired).Go())
		}
		return &expr.NullLiteral{Type: t}
	}
	ctor = ctor && l.T.Var == 0
	switch l.T.K {
	case Bool:
		if ctor {
			return must(expr.NewLiteral(l.Bl, null))
		}
		return prim(l.Bl, t)
	case I8:
		if ctor {
			return must(expr.NewLiteral(int8(l.I), null))
		}
		return prim(int8(l.I), t)
	case I16:
		if ctor {
			return must(expr.NewLiteral(int16(l.I), null))
		}
		return prim(int16(l.I), t)
	case I32:
		if ctor {
			return must(expr.NewLiteral(int32(l.I), null))
		}
		return prim(int32(l.I), t)
	case I64:
		if ctor {
			return must(expr.NewLiteral(l.I, null))
		}
		return prim(l.I, t)
	case Fp32:
		if ctor {
			return must(expr.NewLiteral(float32(l.F), null))
		}
		return prim(float32(l.F), t)
	case Fp64:
		if ctor {
			return must(expr.NewLiteral(l.F, null))
		}
		return prim(l.F, t)
	case String:
		if ctor {
			return must(expr.NewLiteral(l.S, null))
		}
		return prim(l.S, t)
	case Binary:
		if ctor {
			return must(expr.NewLiteral(l.B, null))
		}
		return &expr.ByteSliceLiteral[[]byte]{Value: l.B, Type: t}
	case Timestamp:
		if ctor {
			return must(expr.NewLiteral(types.Timestamp(l.I), null))
		}
		return prim(types.Timestamp(l.I), t)
	case Date:
		if ctor {
			return must(expr.NewLiteral(types.Date(l.I), null))
		}
		return prim(types.Date(l.I), t)
	case Time:
		if ctor {
			return must(expr.NewLiteral(types.Time(l.I), null))
		}
		return prim(types.Time(l.I), t)
	case TimestampTz:
		if ctor {
			return must(expr.NewLiteral(types.TimestampTz(l.I), null))
		}
		return prim(types.TimestampTz(l.I), t)
	case UUID:
		if ctor {
			return must(expr.NewLiteral(types.UUID(l.B), null))
		}
		return &expr.ByteSliceLiteral[types.UUID]{Value: l.B, Type: t}
	case IntervalYear:
		if ctor {
			return must(expr.NewLiteral(&types.IntervalYearToMonth{Years: l.Y, Months: l.M}, null))
		}
		return expr.IntervalYearToMonthLiteral{Years: l.Y, Months: l.M, Nullability: l.T.N, TypeVariationRef: l.T.Var}
	case IntervalDay:
		if ctor {
			return must(expr.NewLiteral(l.iday(), null))
		}
		return &expr.ProtoLiteral{Value: l.iday(), Type: t}
	case IntervalCompound:
		return expr.IntervalCompoundLiteral{Years: l.Y, Months: l.M, Days: l.D, Seconds: l.Sec, SubSeconds: l.Sub,
			SubSecondPrecision: types.TimePrecision(l.T.Len), Nullability: l.T.N, TypeVariationRef: l.T.Var}
	case FixedChar:
		if ctor {
			return must(expr.NewLiteral(types.FixedChar(l.S), null))
		}
		return prim(types.FixedChar(l.S), t)
	case VarChar:
		if ctor {
			return must(expr.NewLiteral(&types.VarChar{Value: l.S, Length: uint32(l.T.Len)}, null))
		}
		return &expr.ProtoLiteral{Value: l.S, Type: t}
	case FixedBinary:
		if ctor {
			return must(expr.NewLiteral(types.FixedBinary(l.B), null))
		}
		return &expr.ByteSliceLiteral[types.FixedBinary]{Value: l.B, Type: t}
	case Decimal:
		if ctor {
			return must(expr.NewLiteral(&types.Decimal{Value: bytes.Clone(l.B), Precision: l.T.Prec, Scale: l.T.Scal}, null))
		}
		return &expr.ProtoLiteral{Value: bytes.Clone(l.B), Type: t}
	case PTime:
		if ctor {
			return must(expr.NewLiteral(&types.PrecisionTime{Precision: l.T.Len, Value: l.I}, null))
		}
		return &expr.ProtoLiteral{Value: l.I, Type: t}
	case PTimestamp:
		if ctor {
			return expr.NewPrecisionTimestampLiteral(l.I, types.TimePrecision(l.T.Len), l.T.N)
		}
		return &expr.ProtoLiteral{Value: l.I, Type: t}
	case PTimestampTz:
		if ctor {
			return expr.NewPrecisionTimestampTzLiteral(l.I, types.TimePrecision(l.T.Len), l.T.N)
		}
		return &expr.ProtoLiteral{Value: l.I, Type: t}
	case Struct:
		v := expr.StructLiteralValue(LitGos(l.Kids, ctor))
		if ctor {
			return must(expr.NewLiteral(v, null))
		}
		return &expr.StructLiteral{Value: v, Type: t}
	case List:
		v := expr.ListLiteralValue(LitGos(l.Kids, ctor))
		if ctor && len(v) > 0 {
			return must(expr.NewLiteral(v, null))
		}
		if ctor {
			return expr.NewEmptyListLiteral(l.T.Kids[0].Go(), null)
		}
		return &expr.ListLiteral{Value: v, Type: t}
	case Map:
		var v expr.MapLiteralValue
		for i := 0; i < len(l.Kids); i += 2 {
			v = append(v, struct{ Key, Value expr.Literal }{l.Kids[i].Go(ctor), l.Kids[i+1].Go(ctor)})
		}
		if ctor && len(v) > 0 {
			return must(expr.NewLiteral(v, null))
		}
		if ctor {
			return expr.NewEmptyMapLiteral(l.T.Kids[0].Go(), l.T.Kids[1].Go(), null)
		}
		return &expr.MapLiteral{Value: v, Type: t}
	case UDT:
		if ctor {
			return must(expr.NewLiteral(l.udt(), null))
		}
		return &expr.ProtoLiteral{Value: l.udt().Val, Type: t}
	}
	panic("spec: literal kind " + l.T.K.String())
}

// LitGos builds a list.
func LitGos(ls []*LS, ctor bool) []expr.Literal {
	out := make([]expr.Literal, len(ls))
	for i, x := range ls {
		out[i] = x.Go(ctor)
	}
	return out
}

// Full is a canonical text of the literal.
func (l *LS) Full() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s=", l.T.Full())
	if l.Null {
		b.WriteString("null")
		return b.String()
	}
	switch l.T.K {
	case Bool:
		fmt.Fprint(&b, l.Bl)
	case Fp32, Fp64:
		fmt.Fprintf(&b, "%x", l.F)
	case String, FixedChar, VarChar:
		fmt.Fprintf(&b, "%q", l.S)
	case Binary, FixedBinary, UUID, Decimal:
		fmt.Fprintf(&b, "%x", l.B)
	case IntervalYear, IntervalDay, IntervalCompound:
		fmt.Fprintf(&b, "%d/%d/%d/%d/%d/%v", l.Y, l.M, l.D, l.Sec, l.Sub, l.Micros)
	case Struct, List, Map, UDT:
		if l.IsAny {
			fmt.Fprintf(&b, "any %q %x", l.AnyURL, l.Any)
		}
		b.WriteByte('[')
		for _, k := range l.Kids {
			b.WriteString(k.Full())
			b.WriteByte(',')
		}
		b.WriteByte(']')
	default:
		fmt.Fprint(&b, l.I)
	}
	return b.String()
}

// Clone is a deep copy.
func (l *LS) Clone() *LS {
	o := *l
	o.T = l.T.Clone()
	o.B = bytes.Clone(l.B)
	o.Any = bytes.Clone(l.Any)
	o.Kids = nil
	for _, k := range l.Kids {
		o.Kids = append(o.Kids, k.Clone())
	}
	return &o
}

// GenLitType makes a type that literals can have.
func GenLitType(r *vk.R, depth int) *TS {
	t := GenType(r, TypeOpt{Depth: depth, NoUnspec: true, NoFunc: true})
	ClampLit(r, t)
	return t
}

// ClampLit keeps fixed-length types short enough to write values of.
func ClampLit(r *vk.R, t *TS) {
	switch t.K {
	case FixedChar, FixedBinary:
		t.Len = int32(r.N(12))
	}
	for _, k := range t.Kids {
		ClampLit(r, k)
	}
}

var strs = []string{"", "a", "abc", "hello world", "é", "日本語", "\x00", "a'b\"c\\", "P1Y", "null", " ", "12:00", strings.Repeat("x", 300)}

// GenStr makes a valid UTF-8 string.
func GenStr(r *vk.R) string {
	if r.P(2, 3) {
		return vk.Pick(r, strs)
	}
	b := make([]rune, r.N(12))
	for i := range b {
		b[i] = vk.PickOf(r, rune(r.N(128)), rune('a'+r.N(26)), 'ß', '→', '😀')
	}
	return string(b)
}

func genBytes(r *vk.R, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

var i64s = []int64{0, 1, -1, 2, 127, -128, 128, 255, 256, 32767, -32768, 1 << 31, -1 << 31, 1<<31 - 1, 999, 1000, 86399999999, 86400000000, 1<<63 - 1, -1 << 63, 1700000000}

// GenInt makes an integer of the given width.
func GenInt(r *vk.R, bits int) int64 {
	v := vk.Pick(r, i64s)
	if r.Bool() {
		v = int64(r.Uint64())
	}
	if r.P(1, 4) {
		v = int64(r.N(1000)) - 500
	}
	return v << (64 - bits) >> (64 - bits)
}

// Pow10 is 10^n.
func Pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// DecBytes is the 16-byte little-endian two's complement form.
func DecBytes(v *big.Int) []byte {
	x := new(big.Int).Set(v)
	if x.Sign() < 0 {
		x.Add(x, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	be := x.FillBytes(make([]byte, 16))
	out := make([]byte, 16)
	for i := range be {
		out[15-i] = be[i]
	}
	return out
}

// DecValue reads the 16-byte form back.
func DecValue(b []byte) *big.Int {
	be := make([]byte, len(b))
	for i := range b {
		be[len(b)-1-i] = b[i]
	}
	v := new(big.Int).SetBytes(be)
	if len(be) > 0 && be[0]&0x80 != 0 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return v
}

// GenDec makes an unscaled decimal of at most prec digits.
func GenDec(r *vk.R, prec int) *big.Int {
	if prec <= 0 {
		return new(big.Int)
	}
	lim := Pow10(prec)
	var v *big.Int
	switch r.N(5) {
	case 0:
		v = big.NewInt(0)
	case 1:
		v = new(big.Int).Sub(lim, big.NewInt(1))
	case 2:
		v = big.NewInt(int64(r.N(100)))
		v.Mod(v, lim)
	default:
		v = new(big.Int).SetBytes(genBytes(r, 17))
		v.Mod(v, Pow10(1+r.N(prec)))
	}
	if r.Bool() {
		v.Neg(v)
	}
	return v
}

// GenLit makes a literal of the given type.
func GenLit(r *vk.R, t *TS) *LS {
	l := &LS{T: t}
	if t.N == types.NullabilityNullable && r.P(1, 8) {
		l.Null = true
		return l
	}
	switch t.K {
	case Bool:
		l.Bl = r.Bool()
	case I8:
		l.I = GenInt(r, 8)
	case I16:
		l.I = GenInt(r, 16)
	case I32, Date:
		l.I = GenInt(r, 32)
	case I64, Timestamp, TimestampTz, PTimestamp, PTimestampTz:
		l.I = GenInt(r, 64)
	case Time, PTime:
		l.I = GenInt(r, 64)
		if l.I < 0 {
			l.I = ^l.I
		}
	case Fp32:
		l.F = float64(vk.PickOf(r, float32(0), 1, -1, 0.1, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1)), float32(r.NormFloat64())))
	case Fp64:
		l.F = vk.PickOf(r, 0, 1, -1, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), r.NormFloat64())
	case String, VarChar:
		l.S = GenStr(r)
	case FixedChar:
		for len(l.S) < int(t.Len) {
			l.S += string(rune('a' + r.N(26)))
		}
		if t.Len >= 2 && r.P(1, 4) {
			l.S = "é" + l.S[2:]
		}
	case Binary:
		l.B = genBytes(r, r.N(20))
	case FixedBinary:
		l.B = genBytes(r, int(t.Len))
	case UUID:
		l.B = genBytes(r, 16)
	case Decimal:
		l.B = DecBytes(GenDec(r, int(t.Prec)))
	case IntervalYear:
		l.Y, l.M = int32(GenInt(r, 32)), int32(GenInt(r, 32))
	case IntervalDay, IntervalCompound:
		if r.P(3, 4) {
			l.D = int32(GenInt(r, 32))
		}
		if r.P(3, 4) {
			l.Sec = int32(GenInt(r, 32))
		}
		if r.P(3, 4) {
			l.Sub = GenInt(r, 64)
		}
		if t.K == IntervalCompound && r.P(3, 4) {
			l.Y = int32(GenInt(r, 32))
			l.M = int32(GenInt(r, 32))
		}
		if t.K == IntervalDay && t.Len == 6 && r.P(1, 2) {
			l.Micros = true
			l.Sub = GenInt(r, 32)
		}
	case Struct:
		for _, k := range t.Kids {
			l.Kids = append(l.Kids, GenLit(r, k))
		}
	case List:
		for i, n := 0, r.N(4); i < n; i++ {
			l.Kids = append(l.Kids, GenLit(r, t.Kids[0]))
		}
	case Map:
		for i, n := 0, r.N(3); i < n; i++ {
			l.Kids = append(l.Kids, GenLit(r, t.Kids[0]), GenLit(r, t.Kids[1]))
		}
	case UDT:
		if r.Bool() {
			l.IsAny = true
			l.AnyURL = vk.PickOf(r, "", "type.googleapis.com/x", "u")
			l.Any = genBytes(r, r.N(8))
		} else {
			for i, n := 0, r.N(3); i < n; i++ {
				l.Kids = append(l.Kids, GenLit(r, GenLitType(r, 1)))
			}
		}
	default:
		panic("spec: literal kind " + t.K.String())
	}
	return l
}

// MutateLit changes one component of the literal (value, or type flags).
func MutateLit(r *vk.R, l *LS) *LS {
	for tries := 0; tries < 60; tries++ {
		m := l.Clone()
		x := m
		deep := false
		for len(x.Kids) > 0 && !x.IsAny && r.P(2, 3) {
			x = x.Kids[r.N(len(x.Kids))]
			deep = true
		}
		if !deep && r.P(1, 4) {
			if r.Bool() {
				x.T.Var++
			} else if !x.Null {
				x.T.N = 3 - x.T.N
			}
		} else if !x.Null {
			switch x.T.K {
			case Struct, List, Map, UDT:
				if x.T.K == UDT && !deep && r.Bool() {
					x.T.Ref++
				} else if x.T.K == UDT && x.IsAny {
					x.Any = append(x.Any, 1)
				} else if len(x.Kids) > 0 && x.T.K == List {
					x.Kids = append(x.Kids, x.Kids[0].Clone())
				}
			default:
				n := GenLit(r, x.T)
				if !n.Null {
					*x = *n
				}
			}
		}
		if m.Full() != l.Full() {
			return m
		}
	}
	m := l.Clone()
	m.T.Var++
	return m
}
