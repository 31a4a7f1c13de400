// Package spec holds models that are independent of the library: what a type,
// literal, expression or relation is, how it is written in protobuf and what
// the Substrait specification says about it.
package spec

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"

	"verif/harness/vk"
)

type Kind int

const (
	Bool Kind = iota
	I8
	I16
	I32
	I64
	Fp32
	Fp64
	String
	Binary
	Timestamp
	Date
	Time
	IntervalYear
	TimestampTz
	UUID
	NumPrimitive // ---- kinds below take parameters
	IntervalDay
	IntervalCompound
	FixedChar
	VarChar
	FixedBinary
	Decimal
	PTime
	PTimestamp
	PTimestampTz
	NumScalar // ---- kinds below nest
	Struct
	List
	Map
	Func
	UDT
	NumKinds
)

var kindNames = map[Kind]string{Bool: "boolean", I8: "i8", I16: "i16", I32: "i32", I64: "i64", Fp32: "fp32", Fp64: "fp64", String: "string",
	Binary: "binary", Timestamp: "timestamp", Date: "date", Time: "time", IntervalYear: "interval_year", TimestampTz: "timestamp_tz", UUID: "uuid",
	IntervalDay: "interval_day", IntervalCompound: "interval_compound", FixedChar: "fixedchar", VarChar: "varchar", FixedBinary: "fixedbinary",
	Decimal: "decimal", PTime: "precision_time", PTimestamp: "precision_timestamp", PTimestampTz: "precision_timestamp_tz", Struct: "struct",
	List: "list", Map: "map", Func: "func", UDT: "u!"}

var kindShort = map[Kind]string{Bool: "bool", I8: "i8", I16: "i16", I32: "i32", I64: "i64", Fp32: "fp32", Fp64: "fp64", String: "str",
	Binary: "vbin", Timestamp: "ts", Date: "date", Time: "time", IntervalYear: "iyear", TimestampTz: "tstz", UUID: "uuid",
	IntervalDay: "iday", IntervalCompound: "icompound", FixedChar: "fchar", VarChar: "vchar", FixedBinary: "fbin",
	Decimal: "dec", PTime: "pt", PTimestamp: "pts", PTimestampTz: "ptstz", Struct: "struct",
	List: "list", Map: "map", Func: "func", UDT: ""}

func (k Kind) String() string { return kindNames[k] }
func (k Kind) Short() string  { return kindShort[k] }

// P is a parameter of a user-defined type.
type P struct {
	Which int // 0 null 1 bool 2 int 3 enum 4 string 5 type
	B     bool
	I     int64
	S     string
	T     *TS
}

// TS is a concrete data type.
type TS struct {
	K          Kind
	N          types.Nullability
	Var        uint32
	Len        int32 // length or time precision
	Prec, Scal int32
	Kids       []*TS // list:1 map:2 struct:n func: params..., return
	Ref        uint32
	Params     []*P
}

func nn(n types.Nullability) proto.Type_Nullability { return proto.Type_Nullability(n) }

// Proto is the protobuf encoding of the type, written independently of the library.
func (t *TS) Proto() *proto.Type {
	n, v := nn(t.N), t.Var
	switch t.K {
	case Bool:
		return &proto.Type{Kind: &proto.Type_Bool{Bool: &proto.Type_Boolean{Nullability: n, TypeVariationReference: v}}}
	case I8:
		return &proto.Type{Kind: &proto.Type_I8_{I8: &proto.Type_I8{Nullability: n, TypeVariationReference: v}}}
	case I16:
		return &proto.Type{Kind: &proto.Type_I16_{I16: &proto.Type_I16{Nullability: n, TypeVariationReference: v}}}
	case I32:
		return &proto.Type{Kind: &proto.Type_I32_{I32: &proto.Type_I32{Nullability: n, TypeVariationReference: v}}}
	case I64:
		return &proto.Type{Kind: &proto.Type_I64_{I64: &proto.Type_I64{Nullability: n, TypeVariationReference: v}}}
	case Fp32:
		return &proto.Type{Kind: &proto.Type_Fp32{Fp32: &proto.Type_FP32{Nullability: n, TypeVariationReference: v}}}
	case Fp64:
		return &proto.Type{Kind: &proto.Type_Fp64{Fp64: &proto.Type_FP64{Nullability: n, TypeVariationReference: v}}}
	case String:
		return &proto.Type{Kind: &proto.Type_String_{String_: &proto.Type_String{Nullability: n, TypeVariationReference: v}}}
	case Binary:
		return &proto.Type{Kind: &proto.Type_Binary_{Binary: &proto.Type_Binary{Nullability: n, TypeVariationReference: v}}}
	case Timestamp:
		return &proto.Type{Kind: &proto.Type_Timestamp_{Timestamp: &proto.Type_Timestamp{Nullability: n, TypeVariationReference: v}}}
	case Date:
		return &proto.Type{Kind: &proto.Type_Date_{Date: &proto.Type_Date{Nullability: n, TypeVariationReference: v}}}
	case Time:
		return &proto.Type{Kind: &proto.Type_Time_{Time: &proto.Type_Time{Nullability: n, TypeVariationReference: v}}}
	case IntervalYear:
		return &proto.Type{Kind: &proto.Type_IntervalYear_{IntervalYear: &proto.Type_IntervalYear{Nullability: n, TypeVariationReference: v}}}
	case TimestampTz:
		return &proto.Type{Kind: &proto.Type_TimestampTz{TimestampTz: &proto.Type_TimestampTZ{Nullability: n, TypeVariationReference: v}}}
	case UUID:
		return &proto.Type{Kind: &proto.Type_Uuid{Uuid: &proto.Type_UUID{Nullability: n, TypeVariationReference: v}}}
	case IntervalDay:
		p := t.Len
		return &proto.Type{Kind: &proto.Type_IntervalDay_{IntervalDay: &proto.Type_IntervalDay{Precision: &p, Nullability: n, TypeVariationReference: v}}}
	case IntervalCompound:
		return &proto.Type{Kind: &proto.Type_IntervalCompound_{IntervalCompound: &proto.Type_IntervalCompound{Precision: t.Len, Nullability: n, TypeVariationReference: v}}}
	case FixedChar:
		return &proto.Type{Kind: &proto.Type_FixedChar_{FixedChar: &proto.Type_FixedChar{Length: t.Len, Nullability: n, TypeVariationReference: v}}}
	case VarChar:
		return &proto.Type{Kind: &proto.Type_Varchar{Varchar: &proto.Type_VarChar{Length: t.Len, Nullability: n, TypeVariationReference: v}}}
	case FixedBinary:
		return &proto.Type{Kind: &proto.Type_FixedBinary_{FixedBinary: &proto.Type_FixedBinary{Length: t.Len, Nullability: n, TypeVariationReference: v}}}
	case Decimal:
		return &proto.Type{Kind: &proto.Type_Decimal_{Decimal: &proto.Type_Decimal{Precision: t.Prec, Scale: t.Scal, Nullability: n, TypeVariationReference: v}}}
	case PTime:
		return &proto.Type{Kind: &proto.Type_PrecisionTime_{PrecisionTime: &proto.Type_PrecisionTime{Precision: t.Len, Nullability: n, TypeVariationReference: v}}}
	case PTimestamp:
		return &proto.Type{Kind: &proto.Type_PrecisionTimestamp_{PrecisionTimestamp: &proto.Type_PrecisionTimestamp{Precision: t.Len, Nullability: n, TypeVariationReference: v}}}
	case PTimestampTz:
		return &proto.Type{Kind: &proto.Type_PrecisionTimestampTz{PrecisionTimestampTz: &proto.Type_PrecisionTimestampTZ{Precision: t.Len, Nullability: n, TypeVariationReference: v}}}
	case Struct:
		return &proto.Type{Kind: &proto.Type_Struct_{Struct: &proto.Type_Struct{Types: Protos(t.Kids), Nullability: n, TypeVariationReference: v}}}
	case List:
		return &proto.Type{Kind: &proto.Type_List_{List: &proto.Type_List{Type: t.Kids[0].Proto(), Nullability: n, TypeVariationReference: v}}}
	case Map:
		return &proto.Type{Kind: &proto.Type_Map_{Map: &proto.Type_Map{Key: t.Kids[0].Proto(), Value: t.Kids[1].Proto(), Nullability: n, TypeVariationReference: v}}}
	case Func:
		k := len(t.Kids) - 1
		return &proto.Type{Kind: &proto.Type_Func_{Func: &proto.Type_Func{ParameterTypes: Protos(t.Kids[:k]), ReturnType: t.Kids[k].Proto(), Nullability: n}}}
	case UDT:
		u := &proto.Type_UserDefined{TypeReference: t.Ref, Nullability: n, TypeVariationReference: v}
		for _, p := range t.Params {
			u.TypeParameters = append(u.TypeParameters, p.Proto())
		}
		return &proto.Type{Kind: &proto.Type_UserDefined_{UserDefined: u}}
	}
	panic("spec: kind")
}

func (p *P) Proto() *proto.Type_Parameter {
	switch p.Which {
	case 0:
		return &proto.Type_Parameter{Parameter: &proto.Type_Parameter_Null{}}
	case 1:
		return &proto.Type_Parameter{Parameter: &proto.Type_Parameter_Boolean{Boolean: p.B}}
	case 2:
		return &proto.Type_Parameter{Parameter: &proto.Type_Parameter_Integer{Integer: p.I}}
	case 3:
		return &proto.Type_Parameter{Parameter: &proto.Type_Parameter_Enum{Enum: p.S}}
	case 4:
		return &proto.Type_Parameter{Parameter: &proto.Type_Parameter_String_{String_: p.S}}
	}
	return &proto.Type_Parameter{Parameter: &proto.Type_Parameter_DataType{DataType: p.T.Proto()}}
}

func Protos(ts []*TS) []*proto.Type {
	out := make([]*proto.Type, len(ts))
	for i, t := range ts {
		out[i] = t.Proto()
	}
	return out
}

// Go builds the library's value for the type through its public API.
func (t *TS) Go() types.Type {
	n, v := t.N, t.Var
	switch t.K {
	case Bool:
		return &types.BooleanType{Nullability: n, TypeVariationRef: v}
	case I8:
		return &types.Int8Type{Nullability: n, TypeVariationRef: v}
	case I16:
		return &types.Int16Type{Nullability: n, TypeVariationRef: v}
	case I32:
		return &types.Int32Type{Nullability: n, TypeVariationRef: v}
	case I64:
		return &types.Int64Type{Nullability: n, TypeVariationRef: v}
	case Fp32:
		return &types.Float32Type{Nullability: n, TypeVariationRef: v}
	case Fp64:
		return &types.Float64Type{Nullability: n, TypeVariationRef: v}
	case String:
		return &types.StringType{Nullability: n, TypeVariationRef: v}
	case Binary:
		return &types.BinaryType{Nullability: n, TypeVariationRef: v}
	case Timestamp:
		return &types.TimestampType{Nullability: n, TypeVariationRef: v}
	case Date:
		return &types.DateType{Nullability: n, TypeVariationRef: v}
	case Time:
		return &types.TimeType{Nullability: n, TypeVariationRef: v}
	case IntervalYear:
		return &types.IntervalYearType{Nullability: n, TypeVariationRef: v}
	case TimestampTz:
		return &types.TimestampTzType{Nullability: n, TypeVariationRef: v}
	case UUID:
		return &types.UUIDType{Nullability: n, TypeVariationRef: v}
	case IntervalDay:
		return &types.IntervalDayType{Nullability: n, TypeVariationRef: v, Precision: types.TimePrecision(t.Len)}
	case IntervalCompound:
		return types.NewIntervalCompoundType().WithPrecision(types.TimePrecision(t.Len)).WithTypeVariationRef(v).WithNullability(n)
	case FixedChar:
		return &types.FixedCharType{Nullability: n, TypeVariationRef: v, Length: t.Len}
	case VarChar:
		return &types.VarCharType{Nullability: n, TypeVariationRef: v, Length: t.Len}
	case FixedBinary:
		return &types.FixedBinaryType{Nullability: n, TypeVariationRef: v, Length: t.Len}
	case Decimal:
		return &types.DecimalType{Nullability: n, TypeVariationRef: v, Precision: t.Prec, Scale: t.Scal}
	case PTime:
		return &types.PrecisionTimeType{Nullability: n, TypeVariationRef: v, Precision: types.TimePrecision(t.Len)}
	case PTimestamp:
		return &types.PrecisionTimestampType{Nullability: n, TypeVariationRef: v, Precision: types.TimePrecision(t.Len)}
	case PTimestampTz:
		return &types.PrecisionTimestampTzType{PrecisionTimestampType: types.PrecisionTimestampType{Nullability: n, TypeVariationRef: v, Precision: types.TimePrecision(t.Len)}}
	case Struct:
		return &types.StructType{Nullability: n, TypeVariationRef: v, Types: Gos(t.Kids)}
	case List:
		return &types.ListType{Nullability: n, TypeVariationRef: v, Type: t.Kids[0].Go()}
	case Map:
		return &types.MapType{Nullability: n, TypeVariationRef: v, Key: t.Kids[0].Go(), Value: t.Kids[1].Go()}
	case Func:
		k := len(t.Kids) - 1
		return &types.FuncType{Nullability: n, ParameterTypes: Gos(t.Kids[:k]), ReturnType: t.Kids[k].Go()}
	case UDT:
		u := &types.UserDefinedType{Nullability: n, TypeVariationRef: v, TypeReference: t.Ref}
		for _, p := range t.Params {
			u.TypeParameters = append(u.TypeParameters, p.Go())
		}
		return u
	}
	panic("spec: kind")
}

func (p *P) Go() types.TypeParam {
	switch p.Which {
	case 0:
		return types.NullParameter{}
	case 1:
		return types.BooleanParameter(p.B)
	case 2:
		return types.IntegerParameter(p.I)
	case 3:
		return types.EnumParameter(p.S)
	case 4:
		return types.StringParameter(p.S)
	}
	return &types.DataTypeParameter{Type: p.T.Go()}
}

func Gos(ts []*TS) []types.Type {
	out := make([]types.Type, len(ts))
	for i, t := range ts {
		out[i] = t.Go()
	}
	return out
}

// FromGo reads a library type back into the model through its encoding.
func FromGo(t types.Type) *TS { return FromProto(types.TypeToProto(t)) }

// FromProto reads a protobuf type into the model.
func FromProto(p *proto.Type) *TS {
	N := func(n proto.Type_Nullability) types.Nullability { return types.Nullability(n) }
	switch k := p.GetKind().(type) {
	case *proto.Type_Bool:
		return &TS{K: Bool, N: N(k.Bool.GetNullability()), Var: k.Bool.GetTypeVariationReference()}
	case *proto.Type_I8_:
		return &TS{K: I8, N: N(k.I8.GetNullability()), Var: k.I8.GetTypeVariationReference()}
	case *proto.Type_I16_:
		return &TS{K: I16, N: N(k.I16.GetNullability()), Var: k.I16.GetTypeVariationReference()}
	case *proto.Type_I32_:
		return &TS{K: I32, N: N(k.I32.GetNullability()), Var: k.I32.GetTypeVariationReference()}
	case *proto.Type_I64_:
		return &TS{K: I64, N: N(k.I64.GetNullability()), Var: k.I64.GetTypeVariationReference()}
	case *proto.Type_Fp32:
		return &TS{K: Fp32, N: N(k.Fp32.GetNullability()), Var: k.Fp32.GetTypeVariationReference()}
	case *proto.Type_Fp64:
		return &TS{K: Fp64, N: N(k.Fp64.GetNullability()), Var: k.Fp64.GetTypeVariationReference()}
	case *proto.Type_String_:
		return &TS{K: String, N: N(k.String_.GetNullability()), Var: k.String_.GetTypeVariationReference()}
	case *proto.Type_Binary_:
		return &TS{K: Binary, N: N(k.Binary.GetNullability()), Var: k.Binary.GetTypeVariationReference()}
	case *proto.Type_Timestamp_:
		return &TS{K: Timestamp, N: N(k.Timestamp.GetNullability()), Var: k.Timestamp.GetTypeVariationReference()}
	case *proto.Type_Date_:
		return &TS{K: Date, N: N(k.Date.GetNullability()), Var: k.Date.GetTypeVariationReference()}
	case *proto.Type_Time_:
		return &TS{K: Time, N: N(k.Time.GetNullability()), Var: k.Time.GetTypeVariationReference()}
	case *proto.Type_IntervalYear_:
		return &TS{K: IntervalYear, N: N(k.IntervalYear.GetNullability()), Var: k.IntervalYear.GetTypeVariationReference()}
	case *proto.Type_TimestampTz:
		return &TS{K: TimestampTz, N: N(k.TimestampTz.GetNullability()), Var: k.TimestampTz.GetTypeVariationReference()}
	case *proto.Type_Uuid:
		return &TS{K: UUID, N: N(k.Uuid.GetNullability()), Var: k.Uuid.GetTypeVariationReference()}
	case *proto.Type_IntervalDay_:
		pr := int32(6)
		if k.IntervalDay.Precision != nil {
			pr = *k.IntervalDay.Precision
		}
		return &TS{K: IntervalDay, N: N(k.IntervalDay.GetNullability()), Var: k.IntervalDay.GetTypeVariationReference(), Len: pr}
	case *proto.Type_IntervalCompound_:
		return &TS{K: IntervalCompound, N: N(k.IntervalCompound.GetNullability()), Var: k.IntervalCompound.GetTypeVariationReference(), Len: k.IntervalCompound.GetPrecision()}
	case *proto.Type_FixedChar_:
		return &TS{K: FixedChar, N: N(k.FixedChar.GetNullability()), Var: k.FixedChar.GetTypeVariationReference(), Len: k.FixedChar.GetLength()}
	case *proto.Type_Varchar:
		return &TS{K: VarChar, N: N(k.Varchar.GetNullability()), Var: k.Varchar.GetTypeVariationReference(), Len: k.Varchar.GetLength()}
	case *proto.Type_FixedBinary_:
		return &TS{K: FixedBinary, N: N(k.FixedBinary.GetNullability()), Var: k.FixedBinary.GetTypeVariationReference(), Len: k.FixedBinary.GetLength()}
	case *proto.Type_Decimal_:
		return &TS{K: Decimal, N: N(k.Decimal.GetNullability()), Var: k.Decimal.GetTypeVariationReference(), Prec: k.Decimal.GetPrecision(), Scal: k.Decimal.GetScale()}
	case *proto.Type_PrecisionTime_:
		return &TS{K: PTime, N: N(k.PrecisionTime.GetNullability()), Var: k.PrecisionTime.GetTypeVariationReference(), Len: k.PrecisionTime.GetPrecision()}
	case *proto.Type_PrecisionTimestamp_:
		return &TS{K: PTimestamp, N: N(k.PrecisionTimestamp.GetNullability()), Var: k.PrecisionTimestamp.GetTypeVariationReference(), Len: k.PrecisionTimestamp.GetPrecision()}
	case *proto.Type_PrecisionTimestampTz:
		return &TS{K: PTimestampTz, N: N(k.PrecisionTimestampTz.GetNullability()), Var: k.PrecisionTimestampTz.GetTypeVariationReference(), Len: k.PrecisionTimestampTz.GetPrecision()}
	case *proto.Type_Struct_:
		return &TS{K: Struct, N: N(k.Struct.GetNullability()), Var: k.Struct.GetTypeVariationReference(), Kids: FromProtos(k.Struct.GetTypes())}
	case *proto.Type_List_:
		return &TS{K: List, N: N(k.List.GetNullability()), Var: k.List.GetTypeVariationReference(), Kids: []*TS{FromProto(k.List.GetType())}}
	case *proto.Type_Map_:
		return &TS{K: Map, N: N(k.Map.GetNullability()), Var: k.Map.GetTypeVariationReference(), Kids: []*TS{FromProto(k.Map.GetKey()), FromProto(k.Map.GetValue())}}
	case *proto.Type_Func_:
		return &TS{K: Func, N: N(k.Func.GetNullability()), Kids: append(FromProtos(k.Func.GetParameterTypes()), FromProto(k.Func.GetReturnType()))}
	case *proto.Type_UserDefined_:
		t := &TS{K: UDT, N: N(k.UserDefined.GetNullability()), Var: k.UserDefined.GetTypeVariationReference(), Ref: k.UserDefined.GetTypeReference()}
		for _, x := range k.UserDefined.GetTypeParameters() {
			q := &P{}
			switch y := x.Parameter.(type) {
			case *proto.Type_Parameter_Boolean:
				q.Which, q.B = 1, y.Boolean
			case *proto.Type_Parameter_Integer:
				q.Which, q.I = 2, y.Integer
			case *proto.Type_Parameter_Enum:
				q.Which, q.S = 3, y.Enum
			case *proto.Type_Parameter_String_:
				q.Which, q.S = 4, y.String_
			case *proto.Type_Parameter_DataType:
				q.Which, q.T = 5, FromProto(y.DataType)
			}
			t.Params = append(t.Params, q)
		}
		return t
	}
	panic(fmt.Sprintf("spec: proto kind %T", p.GetKind()))
}

func FromProtos(ps []*proto.Type) []*TS {
	out := make([]*TS, len(ps))
	for i, p := range ps {
		out[i] = FromProto(p)
	}
	return out
}

// Clone is a deep copy.
func (t *TS) Clone() *TS {
	if t == nil {
		return nil
	}
	o := *t
	o.Kids = nil
	for _, k := range t.Kids {
		o.Kids = append(o.Kids, k.Clone())
	}
	o.Params = nil
	for _, p := range t.Params {
		q := *p
		q.T = p.T.Clone()
		o.Params = append(o.Params, &q)
	}
	return &o
}

// With is a copy with another nullability.
func (t *TS) With(n types.Nullability) *TS { o := t.Clone(); o.N = n; return o }

// Equal compares structure.
func (t *TS) Equal(o *TS) bool { return t.Full() == o.Full() }

// Full is a canonical unambiguous text of the type (the model's identity).
func (t *TS) Full() string {
	if t == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s/%d/%d", t.K, t.N, t.Var)
	switch t.K {
	case IntervalDay, IntervalCompound, FixedChar, VarChar, FixedBinary, PTime, PTimestamp, PTimestampTz:
		fmt.Fprintf(&b, "(%d)", t.Len)
	case Decimal:
		fmt.Fprintf(&b, "(%d,%d)", t.Prec, t.Scal)
	case Struct, List, Map, Func:
		b.WriteByte('<')
		for _, k := range t.Kids {
			b.WriteString(k.Full())
			b.WriteByte(';')
		}
		b.WriteByte('>')
	case UDT:
		fmt.Fprintf(&b, "#%d<", t.Ref)
		for _, p := range t.Params {
			fmt.Fprintf(&b, "%d|%v|%d|%q|%s;", p.Which, p.B, p.I, p.S, p.T.Full())
		}
		b.WriteByte('>')
	}
	return b.String()
}

func (t *TS) String() string { return t.Full() }

// TypeOpt steers generation.
type TypeOpt struct {
	Depth    int
	NoVar    bool // no variation references
	NoUnspec bool // nullability always nullable or required
	NoFunc   bool
	NoUDT    bool
	NoNest   bool
	Req      bool // all required
}

func (o TypeOpt) deeper() TypeOpt { o.Depth--; return o }

var boundaryLens = []int32{0, 1, 2, 3, 7, 10, 38, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1}

// GenType makes a random type.
func GenType(r *vk.R, o TypeOpt) *TS {
	t := &TS{N: GenNull(r, o)}
	if !o.NoVar && r.P(1, 4) {
		t.Var = vk.PickOf(r, uint32(1), 2, 7, 1<<16, 1<<31, ^uint32(0))
	}
	nest := o.Depth > 0 && !o.NoNest && r.P(1, 2)
	if !nest {
		for {
			t.K = Kind(r.N(int(NumScalar)))
			if t.K != NumPrimitive {
				break
			}
		}
		if !o.NoUDT && r.P(1, 12) {
			t.K = UDT
			t.Ref = vk.PickOf(r, uint32(0), 1, 2, 9, 1<<20)
			return t
		}
	} else {
		for {
			t.K = Kind(int(NumScalar) + 1 + r.N(5))
			if t.K == Func && o.NoFunc || t.K == UDT && o.NoUDT {
				continue
			}
			break
		}
	}
	FillType(r, t, o)
	return t
}

// GenNull makes a nullability.
func GenNull(r *vk.R, o TypeOpt) types.Nullability {
	if o.Req {
		return types.NullabilityRequired
	}
	if !o.NoUnspec && r.P(1, 8) {
		return types.NullabilityUnspecified
	}
	return types.Nullability(1 + r.N(2))
}

// FillType fills the parameters of a type whose kind is set.
func FillType(r *vk.R, t *TS, o TypeOpt) {
	switch t.K {
	case IntervalDay, IntervalCompound, PTime, PTimestamp, PTimestampTz:
		t.Len = int32(r.N(10))
	case FixedChar, VarChar, FixedBinary:
		if r.Bool() {
			t.Len = vk.Pick(r, boundaryLens)
		} else {
			t.Len = int32(r.N(100))
		}
	case Decimal:
		t.Prec = int32(1 + r.N(38))
		t.Scal = int32(r.N(int(t.Prec) + 1))
	case Struct:
		for i, n := 0, r.N(4); i < n; i++ {
			t.Kids = append(t.Kids, GenType(r, o.deeper()))
		}
	case List:
		t.Kids = []*TS{GenType(r, o.deeper())}
	case Map:
		t.Kids = []*TS{GenType(r, o.deeper()), GenType(r, o.deeper())}
	case Func:
		t.Var = 0
		for i, n := 0, r.N(4); i <= n; i++ {
			t.Kids = append(t.Kids, GenType(r, o.deeper()))
		}
	case UDT:
		t.Ref = vk.PickOf(r, uint32(0), 1, 2, 9, 1<<20)
		for i, n := 0, r.N(5); i < n; i++ {
			p := &P{Which: r.N(6)}
			switch p.Which {
			case 1:
				p.B = r.Bool()
			case 2:
				p.I = vk.PickOf(r, int64(0), 1, -1, 10, 1<<40, -1<<63, 1<<63-1)
			case 3, 4:
				p.S = vk.PickOf(r, "", "a", "b", "A B", "é\x00x")
			case 5:
				p.T = GenType(r, o.deeper())
			}
			t.Params = append(t.Params, p)
		}
	}
}

// MutateType changes exactly one component of the type, somewhere in it.
func MutateType(r *vk.R, t *TS, o TypeOpt) *TS {
	m := t.Clone()
	for tries := 0; tries < 50; tries++ {
		m = t.Clone()
		x := m
		for len(x.Kids) > 0 && r.P(2, 3) {
			x = x.Kids[r.N(len(x.Kids))]
		}
		switch r.N(6) {
		case 0:
			x.N = types.Nullability(r.N(3))
		case 1:
			if !o.NoVar && x.K != Func {
				x.Var += uint32(1 + r.N(3))
			}
		case 2:
			x.Len = (x.Len + 1 + int32(r.N(8))) % 10
		case 3:
			if r.Bool() {
				x.Prec++
			} else {
				x.Scal++
			}
		case 4:
			if len(x.Params) > 0 && r.Bool() {
				i := r.N(len(x.Params))
				p := x.Params[i]
				switch p.Which {
				case 1:
					p.B = !p.B
				case 2:
					p.I++
				case 3:
					if r.Bool() {
						p.Which = 4
					} else {
						p.S += "x"
					}
				case 4:
					if r.Bool() {
						p.Which = 3
					} else {
						p.S += "x"
					}
				case 5:
					p.T = MutateType(r, p.T, o)
				default:
					*p = P{Which: 1}
				}
			} else if x.K == UDT {
				if r.Bool() {
					x.Ref++
				} else if r.Bool() {
					x.Params = append(x.Params, &P{Which: 0})
				} else if len(x.Params) > 0 {
					x.Params = x.Params[:len(x.Params)-1]
				}
			} else if x.K == Struct || x.K == Func {
				if r.Bool() {
					x.Kids = append(x.Kids, GenType(r, TypeOpt{NoUDT: true, NoVar: o.NoVar, NoUnspec: o.NoUnspec}))
				} else if len(x.Kids) > 1 {
					if r.Bool() {
						x.Kids = x.Kids[1:]
					} else {
						x.Kids[0], x.Kids[1] = x.Kids[1], x.Kids[0]
					}
				}
			}
		case 5:
			if x.K < NumPrimitive {
				x.K = Kind(r.N(int(NumPrimitive)))
			} else if x.K == FixedChar || x.K == VarChar || x.K == FixedBinary {
				x.K = vk.PickOf(r, FixedChar, VarChar, FixedBinary)
			} else if x.K == PTime || x.K == PTimestamp || x.K == PTimestampTz || x.K == IntervalDay || x.K == IntervalCompound {
				x.K = vk.PickOf(r, PTime, PTimestamp, PTimestampTz, IntervalDay, IntervalCompound)
			}
		}
		if !m.Equal(t) {
			return m
		}
	}
	m.N = (m.N + 1) % 3
	return m
}
