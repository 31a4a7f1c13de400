package spec

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/substrait-io/substrait-go/v8/types"
	ip "github.com/substrait-io/substrait-go/v8/types/integer_parameters"

	"verif/harness/vk"
)

// PT is the model of a type expression of a function signature.
type PT struct {
	K    string // "scalar", "any", "int1" (one integer parameter), "decimal", "list", "map", "struct", "func", "udt"
	Name string // scalar, int1: type name; any: "any", "any1"...; udt: name
	Null bool
	Ints []IP
	Kids []*PT // func: parameters then return type
	UDT  []UP
}

// IP is an integer parameter: a number or a variable.
type IP struct {
	Var string
	N   int32
}

// UP is a parameter of a user-defined type.
type UP struct {
	T *PT
	S string // name
	N int32
	I bool // is an integer
}

// E is an expression of a return type derivation.
type E struct {
	Op   string // num, var, not, if, call, or a binary operator
	Num  int64
	Name string
	Args []*E
}

// Asg is name = expression.
type Asg struct {
	Name string
	E    *E
}

// PD is a type expression: derivation lines (if any) and a type.
type PD struct {
	Asgs []Asg
	T    *PT
}

var PScalars = []string{"boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp", "timestamp_tz", "date", "time", "interval_year", "uuid"}
var PInt1 = []string{"fixedchar", "varchar", "fixedbinary", "interval_day", "precision_time", "precision_timestamp", "precision_timestamp_tz"}

// pshort is the signature table of the Substrait specification.
var pshort = map[string]string{"boolean": "bool", "i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "fp32": "fp32", "fp64": "fp64",
	"string": "str", "binary": "vbin", "timestamp": "ts", "timestamp_tz": "tstz", "date": "date", "time": "time", "interval_year": "iyear", "uuid": "uuid",
	"fixedchar": "fchar", "varchar": "vchar", "fixedbinary": "fbin", "interval_day": "iday", "precision_time": "pt", "precision_timestamp": "pts", "precision_timestamp_tz": "ptstz"}

// Short is the name of the type in compound function names.
func (p *PT) Short() string {
	switch p.K {
	case "scalar", "int1":
		return pshort[p.Name]
	case "any":
		return "any"
	case "decimal":
		return "dec"
	case "udt":
		return "u!" + p.Name
	}
	return p.K
}

func (i IP) String() string {
	if i.Var != "" {
		return "$" + i.Var
	}
	return strconv.Itoa(int(i.N))
}

// Dump is the canonical form of the structure.
func (p *PT) Dump() string {
	var b strings.Builder
	b.WriteString(p.K)
	if p.Name != "" {
		b.WriteString(":" + p.Name)
	}
	if p.Null {
		b.WriteString("?")
	}
	b.WriteString("(")
	for _, i := range p.Ints {
		b.WriteString(i.String() + ",")
	}
	for _, k := range p.Kids {
		b.WriteString(k.Dump() + ",")
	}
	for _, u := range p.UDT {
		switch {
		case u.T != nil:
			b.WriteString(u.T.Dump() + ",")
		case u.I:
			fmt.Fprintf(&b, "#%d,", u.N)
		default:
			b.WriteString("'" + u.S + ",")
		}
	}
	b.WriteString(")")
	return b.String()
}

func (e *E) Dump() string {
	switch e.Op {
	case "num":
		return strconv.FormatInt(e.Num, 10)
	case "var":
		return "$" + e.Name
	}
	s := "(" + e.Op
	if e.Op == "call" {
		s += ":" + e.Name
	}
	for _, a := range e.Args {
		s += " " + a.Dump()
	}
	return s + ")"
}

func (d *PD) Dump() string {
	s := ""
	for _, a := range d.Asgs {
		s += a.Name + ":=" + a.E.Dump() + ";"
	}
	return s + d.T.Dump()
}

// ---- reading the library's structure

func dumpInt(i ip.IntegerParameter) string {
	switch v := i.(type) {
	case *ip.ConcreteIntParam:
		return strconv.Itoa(int(*v))
	case *ip.VariableIntParam:
		return "$" + string(*v)
	}
	return fmt.Sprintf("<%T>", i)
}

// DumpLib is Dump of a library type expression, read from its exported fields.
func DumpLib(t types.FuncDefArgType) string {
	q := func(n types.Nullability) string {
		switch n {
		case types.NullabilityNullable:
			return "?"
		case types.NullabilityRequired:
			return ""
		}
		return fmt.Sprintf("<nullability %d>", n)
	}
	sc := func(n string, t interface{ GetNullability() types.Nullability }, ref uint32) string {
		s := "scalar:" + n + q(t.GetNullability()) + "()"
		if ref != 0 {
			s += fmt.Sprintf("[var %d]", ref)
		}
		return s
	}
	i1 := func(n string, nl types.Nullability, o ip.IntegerParameter) string {
		return "int1:" + n + q(nl) + "(" + dumpInt(o) + ",)"
	}
	list := func(ts []types.FuncDefArgType) string {
		s := ""
		for _, k := range ts {
			s += DumpLib(k) + ","
		}
		return s
	}
	switch t := t.(type) {
	case *types.BooleanType:
		return sc("boolean", t, t.TypeVariationRef)
	case *types.Int8Type:
		return sc("i8", t, t.TypeVariationRef)
	case *types.Int16Type:
		return sc("i16", t, t.TypeVariationRef)
	case *types.Int32Type:
		return sc("i32", t, t.TypeVariationRef)
	case *types.Int64Type:
		return sc("i64", t, t.TypeVariationRef)
	case *types.Float32Type:
		return sc("fp32", t, t.TypeVariationRef)
	case *types.Float64Type:
		return sc("fp64", t, t.TypeVariationRef)
	case *types.StringType:
		return sc("string", t, t.TypeVariationRef)
	case *types.BinaryType:
		return sc("binary", t, t.TypeVariationRef)
	case *types.TimestampType:
		return sc("timestamp", t, t.TypeVariationRef)
	case *types.TimestampTzType:
		return sc("timestamp_tz", t, t.TypeVariationRef)
	case *types.DateType:
		return sc("date", t, t.TypeVariationRef)
	case *types.TimeType:
		return sc("time", t, t.TypeVariationRef)
	case *types.IntervalYearType:
		return sc("interval_year", t, t.TypeVariationRef)
	case *types.UUIDType:
		return sc("uuid", t, t.TypeVariationRef)
	case *types.AnyType:
		return "any:" + t.Name + q(t.Nullability) + "()"
	case *types.ParameterizedFixedCharType:
		return i1("fixedchar", t.Nullability, t.IntegerOption)
	case *types.ParameterizedVarCharType:
		return i1("varchar", t.Nullability, t.IntegerOption)
	case *types.ParameterizedFixedBinaryType:
		return i1("fixedbinary", t.Nullability, t.IntegerOption)
	case *types.ParameterizedIntervalDayType:
		return i1("interval_day", t.Nullability, t.IntegerOption)
	case *types.ParameterizedPrecisionTimeType:
		return i1("precision_time", t.Nullability, t.IntegerOption)
	case *types.ParameterizedPrecisionTimestampType:
		return i1("precision_timestamp", t.Nullability, t.IntegerOption)
	case *types.ParameterizedPrecisionTimestampTzType:
		return i1("precision_timestamp_tz", t.Nullability, t.IntegerOption)
	case *types.ParameterizedDecimalType:
		return "decimal" + q(t.Nullability) + "(" + dumpInt(t.Precision) + "," + dumpInt(t.Scale) + ",)"
	case *types.ParameterizedListType:
		return "list" + q(t.Nullability) + "(" + DumpLib(t.Type) + ",)"
	case *types.ParameterizedMapType:
		return "map" + q(t.Nullability) + "(" + DumpLib(t.Key) + "," + DumpLib(t.Value) + ",)"
	case *types.ParameterizedStructType:
		return "struct" + q(t.Nullability) + "(" + list(t.Types) + ")"
	case *types.ParameterizedFuncType:
		return "func" + q(t.Nullability) + "(" + list(t.Parameters) + DumpLib(t.Return) + ",)"
	case *types.ParameterizedUserDefinedType:
		s := "udt:" + t.Name + q(t.Nullability) + "("
		for _, p := range t.TypeParameters {
			switch p := p.(type) {
			case *types.DataTypeUDTParam:
				s += DumpLib(p.Type) + ","
			case *types.IntegerUDTParam:
				s += fmt.Sprintf("#%d,", p.Integer)
			case *types.StringUDTParam:
				s += "'" + p.StringVal + ","
			default:
				s += fmt.Sprintf("<%T>,", p)
			}
		}
		return s + ")"
	case *types.OutputDerivation:
		s := ""
		for _, a := range t.Assignments {
			s += a.Name + ":=" + dumpExpr(a.Value) + ";"
		}
		return s + DumpLib(t.FinalType)
	}
	return fmt.Sprintf("<%T>", t)
}

func dumpExpr(e types.Expr) string {
	switch e := e.(type) {
	case *types.LiteralNumber:
		return strconv.FormatInt(e.Value, 10)
	case types.StringParameter:
		return "$" + string(e)
	case *types.BinaryExpr:
		return "(" + e.Op.String() + " " + dumpExpr(e.Left) + " " + dumpExpr(e.Right) + ")"
	case *types.IfExpr:
		return "(if " + dumpExpr(e.Condition) + " " + dumpExpr(e.Then) + " " + dumpExpr(e.Else) + ")"
	case *types.NotExpr:
		return "(not " + dumpExpr(e.Expr) + ")"
	case *types.FunctionCallExpr:
		s := "(call:" + e.Name
		for _, a := range e.Args {
			s += " " + dumpExpr(a)
		}
		return s + ")"
	}
	return fmt.Sprintf("<%T>", e)
}

// Lib builds the library value of the type expression.
func (p *PT) Lib() types.FuncDefArgType {
	n := types.NullabilityRequired
	if p.Null {
		n = types.NullabilityNullable
	}
	in := func(i IP) ip.IntegerParameter {
		if i.Var != "" {
			return ip.NewVariableIntParam(i.Var)
		}
		return ip.NewConcreteIntParam(i.N)
	}
	switch p.K {
	case "scalar":
		switch p.Name {
		case "boolean":
			return &types.BooleanType{Nullability: n}
		case "i8":
			return &types.Int8Type{Nullability: n}
		case "i16":
			return &types.Int16Type{Nullability: n}
		case "i32":
			return &types.Int32Type{Nullability: n}
		case "i64":
			return &types.Int64Type{Nullability: n}
		case "fp32":
			return &types.Float32Type{Nullability: n}
		case "fp64":
			return &types.Float64Type{Nullability: n}
		case "string":
			return &types.StringType{Nullability: n}
		case "binary":
			return &types.BinaryType{Nullability: n}
		case "timestamp":
			return &types.TimestampType{Nullability: n}
		case "timestamp_tz":
			return &types.TimestampTzType{Nullability: n}
		case "date":
			return &types.DateType{Nullability: n}
		case "time":
			return &types.TimeType{Nullability: n}
		case "interval_year":
			return &types.IntervalYearType{Nullability: n}
		case "uuid":
			return &types.UUIDType{Nullability: n}
		}
	case "any":
		return &types.AnyType{Name: p.Name, Nullability: n}
	case "int1":
		o := in(p.Ints[0])
		switch p.Name {
		case "fixedchar":
			return &types.ParameterizedFixedCharType{IntegerOption: o, Nullability: n}
		case "varchar":
			return &types.ParameterizedVarCharType{IntegerOption: o, Nullability: n}
		case "fixedbinary":
			return &types.ParameterizedFixedBinaryType{IntegerOption: o, Nullability: n}
		case "interval_day":
			return &types.ParameterizedIntervalDayType{IntegerOption: o, Nullability: n}
		case "precision_time":
			return &types.ParameterizedPrecisionTimeType{IntegerOption: o, Nullability: n}
		case "precision_timestamp":
			return &types.ParameterizedPrecisionTimestampType{IntegerOption: o, Nullability: n}
		case "precision_timestamp_tz":
			return &types.ParameterizedPrecisionTimestampTzType{IntegerOption: o, Nullability: n}
		}
	case "decimal":
		return &types.ParameterizedDecimalType{Precision: in(p.Ints[0]), Scale: in(p.Ints[1]), Nullability: n}
	case "list":
		return &types.ParameterizedListType{Type: p.Kids[0].Lib(), Nullability: n}
	case "map":
		return &types.ParameterizedMapType{Key: p.Kids[0].Lib(), Value: p.Kids[1].Lib(), Nullability: n}
	case "struct":
		return &types.ParameterizedStructType{Types: libs(p.Kids), Nullability: n}
	case "func":
		k := len(p.Kids) - 1
		return &types.ParameterizedFuncType{Parameters: libs(p.Kids[:k]), Return: p.Kids[k].Lib(), Nullability: n}
	case "udt":
		var ps []types.UDTParameter
		for _, u := range p.UDT {
			switch {
			case u.T != nil:
				ps = append(ps, &types.DataTypeUDTParam{Type: u.T.Lib()})
			case u.I:
				ps = append(ps, &types.IntegerUDTParam{Integer: u.N})
			default:
				ps = append(ps, &types.StringUDTParam{StringVal: u.S})
			}
		}
		return &types.ParameterizedUserDefinedType{Name: p.Name, Nullability: n, TypeParameters: ps}
	}
	panic("spec: unknown type expression " + p.K)
}

func libs(ps []*PT) (out []types.FuncDefArgType) {
	for _, p := range ps {
		out = append(out, p.Lib())
	}
	return
}

func (e *E) lib() types.Expr {
	switch e.Op {
	case "num":
		return &types.LiteralNumber{Value: e.Num}
	case "var":
		return types.StringParameter(e.Name)
	case "not":
		return &types.NotExpr{Expr: e.Args[0].lib()}
	case "if":
		return &types.IfExpr{Condition: e.Args[0].lib(), Then: e.Args[1].lib(), Else: e.Args[2].lib()}
	case "call":
		f := &types.FunctionCallExpr{Name: e.Name}
		for _, a := range e.Args {
			f.Args = append(f.Args, a.lib())
		}
		return f
	}
	return &types.BinaryExpr{Op: types.GetBinaryOpType(e.Op), Left: e.Args[0].lib(), Right: e.Args[1].lib()}
}

// Lib builds the library value.
func (d *PD) Lib() types.FuncDefArgType {
	if len(d.Asgs) == 0 {
		return d.T.Lib()
	}
	o := &types.OutputDerivation{FinalType: d.T.Lib()}
	for _, a := range d.Asgs {
		o.Assignments = append(o.Assignments, types.Assignment{Name: a.Name, Value: a.E.lib()})
	}
	return o
}

// ---- generators

// PTOpt bounds generated type expressions.
type PTOpt struct {
	Depth  int
	Vars   []string // integer variable names to use; nil: none
	Anys   []string // any names to use
	NoFunc bool
	NoUDT  bool
	Small  bool // keep integer parameters within what values of the types allow
	UDTs   []string
}

var bigInts = []int32{0, 1, 2, 5, 9, 38, 255, 65536, math.MaxInt32, math.MaxInt32 - 1, -1, math.MinInt32}

func (o PTOpt) int(r *vk.R) IP {
	if len(o.Vars) > 0 && r.P(1, 2) {
		return IP{Var: vk.Pick(r, o.Vars)}
	}
	if o.Small {
		return IP{N: int32(r.N(10))}
	}
	if r.P(1, 3) {
		return IP{N: vk.Pick(r, bigInts)}
	}
	return IP{N: int32(r.N(40))}
}

// GenPT makes a type expression.
func GenPT(r *vk.R, o PTOpt) *PT {
	p := &PT{Null: r.P(1, 3)}
	n := 10
	if o.Depth <= 0 {
		n = 6
	}
	d := o
	d.Depth--
	switch k := r.N(n); {
	case k <= 2:
		p.K, p.Name = "scalar", vk.Pick(r, PScalars)
	case k == 3:
		p.K, p.Name = "int1", vk.Pick(r, PInt1)
		p.Ints = []IP{o.int(r)}
	case k == 4:
		p.K = "decimal"
		p.Ints = []IP{o.int(r), o.int(r)}
		if o.Small && p.Ints[0].Var == "" && p.Ints[1].Var == "" {
			p.Ints[0].N += p.Ints[1].N
		}
	case k == 5:
		if len(o.Anys) == 0 {
			p.K, p.Name = "scalar", vk.Pick(r, PScalars)
		} else {
			p.K, p.Name = "any", vk.Pick(r, o.Anys)
		}
	case k == 6:
		p.K, p.Kids = "list", []*PT{GenPT(r, d)}
	case k == 7:
		p.K, p.Kids = "map", []*PT{GenPT(r, d), GenPT(r, d)}
	case k == 8:
		if o.NoFunc || r.Bool() {
			p.K = "struct"
			for i := r.Range(1, 3); i > 0; i-- {
				p.Kids = append(p.Kids, GenPT(r, d))
			}
		} else {
			p.K = "func"
			for i := r.Range(2, 4); i > 0; i-- {
				p.Kids = append(p.Kids, GenPT(r, d))
			}
		}
	default:
		if o.NoUDT {
			p.K, p.Kids = "list", []*PT{GenPT(r, d)}
			break
		}
		p.K = "udt"
		if len(o.UDTs) > 0 {
			p.Name = vk.Pick(r, o.UDTs)
			break
		}
		p.Name = PIdent(r)
		for i := r.N(3); i > 0; i-- {
			switch r.N(4) {
			case 0:
				p.UDT = append(p.UDT, UP{I: true, N: o2int(r)})
			case 1:
				p.UDT = append(p.UDT, UP{S: PIdent(r)})
			default:
				p.UDT = append(p.UDT, UP{T: GenPT(r, d)})
			}
		}
	}
	return p
}

func o2int(r *vk.R) int32 {
	if r.P(1, 3) {
		return vk.Pick(r, bigInts)
	}
	return int32(r.N(50))
}

// PIdent makes an identifier which is not a keyword.
func PIdent(r *vk.R) string {
	for {
		const first, rest = "abcdefghijklmnopqrstuvwxyzABCXYZ_$", "abcdefghijklmnopqrstuvwxyzABCXYZ_$0123456789"
		s := string(first[r.N(len(first))])
		for i := r.N(6); i > 0; i-- {
			s += string(rest[r.N(len(rest))])
		}
		if _, kw := keywords[strings.ToLower(s)]; !kw && !isAnyVar(s) {
			return s
		}
	}
}

// GenE makes a derivation expression; kind is 'i' or 'b'.
func GenE(r *vk.R, depth int, vars []string, kind byte) *E {
	if kind == 'i' {
		if depth <= 0 || r.P(1, 4) {
			if len(vars) > 0 && r.P(2, 3) {
				return &E{Op: "var", Name: vk.Pick(r, vars)}
			}
			if r.P(1, 8) {
				return &E{Op: "num", Num: vk.PickOf[int64](r, 0, -1, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1<<32)}
			}
			return &E{Op: "num", Num: int64(r.Range(-3, 40))}
		}
		switch r.N(6) {
		case 0, 1, 2:
			return &E{Op: vk.PickOf(r, "+", "-", "*", "/"), Args: []*E{GenE(r, depth-1, vars, 'i'), GenE(r, depth-1, vars, 'i')}}
		case 3:
			return &E{Op: "if", Args: []*E{GenE(r, depth-1, vars, 'b'), GenE(r, depth-1, vars, 'i'), GenE(r, depth-1, vars, 'i')}}
		case 4:
			return &E{Op: "call", Name: vk.PickOf(r, "min", "max"), Args: []*E{GenE(r, depth-1, vars, 'i'), GenE(r, depth-1, vars, 'i')}}
		default:
			return &E{Op: "call", Name: "abs", Args: []*E{GenE(r, depth-1, vars, 'i')}}
		}
	}
	if depth <= 0 || r.P(2, 3) {
		return &E{Op: vk.PickOf(r, "<", "<=", ">", ">=", "=", "!="), Args: []*E{GenE(r, depth-1, vars, 'i'), GenE(r, depth-1, vars, 'i')}}
	}
	if r.P(1, 3) {
		return &E{Op: "not", Args: []*E{GenE(r, depth-1, vars, 'b')}}
	}
	return &E{Op: vk.PickOf(r, "and", "or"), Args: []*E{GenE(r, depth-1, vars, 'b'), GenE(r, depth-1, vars, 'b')}}
}

// ---- rendering

// Pr renders type expressions with random (or, with a nil source, plain) layout.
type Pr struct{ R *vk.R }

func (p Pr) p(num, den int) bool { return p.R != nil && p.R.P(num, den) }

func (p Pr) ws() string {
	if !p.p(1, 4) {
		return ""
	}
	return vk.PickOf(p.R, " ", "  ", "\t", " \t ", "\r ")
}

// sep separates two word-like tokens.
func (p Pr) sep() string {
	if p.p(1, 4) {
		return vk.PickOf(p.R, "  ", "\t", " \t ")
	}
	return " "
}

func (p Pr) kw(s string) string {
	if !p.p(1, 3) {
		return s
	}
	if p.R.Bool() {
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' && p.R.Bool() {
			b[i] = c - 32
		}
	}
	return string(b)
}

func (p Pr) int(i IP) string {
	if i.Var != "" {
		return i.Var
	}
	return strconv.Itoa(int(i.N))
}

// PT renders a type.
func (p Pr) PT(t *PT) string {
	name, args := "", []string(nil)
	q := ""
	if t.Null {
		q = p.ws() + "?"
	}
	switch t.K {
	case "scalar", "any":
		return p.kw(t.Name) + q
	case "int1":
		name = t.Name
	case "udt":
		name = ""
	default:
		name = t.K
	}
	for _, i := range t.Ints {
		args = append(args, p.int(i))
	}
	for _, k := range t.Kids {
		s := p.PT(k)
		if p.p(1, 12) {
			s = "(" + p.ws() + s + p.ws() + ")"
		}
		args = append(args, s)
	}
	for _, u := range t.UDT {
		switch {
		case u.T != nil:
			args = append(args, p.PT(u.T))
		case u.I:
			args = append(args, strconv.Itoa(int(u.N)))
		default:
			args = append(args, u.S)
		}
	}
	join := func(xs []string) string {
		s := ""
		for i, x := range xs {
			if i > 0 {
				s += p.ws() + "," + p.ws()
				if p.R == nil || p.p(1, 2) {
					s += " "
				}
			}
			s += x
		}
		return s
	}
	head := p.kw(name)
	if t.K == "udt" {
		head = p.kw("u!") + p.ws() + t.Name
	}
	head += q
	if len(args) == 0 {
		return head
	}
	if t.K == "func" {
		k := len(args) - 1
		ps := join(args[:k])
		if k != 1 || p.p(1, 3) {
			ps = "(" + p.ws() + ps + p.ws() + ")"
		}
		return head + p.ws() + "<" + p.ws() + ps + p.sep() + "->" + p.ws() + args[k] + p.ws() + ">"
	}
	return head + p.ws() + "<" + p.ws() + join(args) + p.ws() + ">"
}

// E renders an expression; operands of operators are parenthesised.
func (p Pr) E(e *E) string {
	sub := func(a *E) string {
		s := p.E(a)
		if a.Op == "num" || a.Op == "var" || a.Op == "call" {
			if p.p(1, 10) {
				return "(" + s + ")"
			}
			return s
		}
		return "(" + p.ws() + s + p.ws() + ")"
	}
	free := func(a *E) string {
		if p.p(1, 3) {
			return p.E(a)
		}
		return sub(a)
	}
	switch e.Op {
	case "num":
		return strconv.FormatInt(e.Num, 10)
	case "var":
		return e.Name
	case "not":
		return "!" + p.ws() + sub(e.Args[0])
	case "call":
		s := p.kw(e.Name) + p.ws() + "("
		for i, a := range e.Args {
			if i > 0 {
				s += "," + p.sep()
			}
			s += p.ws() + p.E(a)
		}
		return s + ")"
	case "if":
		if p.p(1, 2) {
			return sub(e.Args[0]) + p.sep() + "?" + p.sep() + sub(e.Args[1]) + p.sep() + ":" + p.sep() + sub(e.Args[2])
		}
		return p.kw("if") + p.sep() + free(e.Args[0]) + p.sep() + p.kw("then") + p.sep() + free(e.Args[1]) + p.sep() + p.kw("else") + p.sep() + sub(e.Args[2])
	}
	l, r := sub(e.Args[0]), sub(e.Args[1])
	if isBinop(e.Args[0].Op) && p.p(1, 3) {
		l = p.E(e.Args[0]) // operators associate to the left
	}
	return l + p.sep() + p.kw(e.Op) + p.sep() + r
}

// PD renders a type expression.
func (p Pr) PD(d *PD) string {
	if len(d.Asgs) == 0 {
		s := p.PT(d.T)
		if p.p(1, 10) {
			s = "(" + s + ")"
		}
		return p.ws() + s + p.ws()
	}
	s := p.ws()
	for _, a := range d.Asgs {
		v := p.E(a.E)
		for e := a.E; isBinop(e.Op); e = e.Args[0] {
			if e.Op == "=" {
				v = "(" + v + ")" // name = name = ... could be read in two ways
				break
			}
		}
		s += a.Name + p.ws() + "=" + p.sep() + v + p.ws() + "\n"
		for p.p(1, 6) {
			s += vk.PickOf(p.R, "\n", "\r\n")
		}
	}
	s += p.PT(d.T)
	for p.p(1, 6) {
		s += "\n"
	}
	return s
}

func isBinop(op string) bool {
	switch op {
	case "+", "-", "*", "/", "<", "<=", ">", ">=", "=", "!=", "and", "or":
		return true
	}
	return false
}

// ---- reference parser

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("if then else func boolean i8 i16 i32 i64 fp32 fp64 string binary timestamp timestamp_tz date time interval_year interval_day " +
		"interval_compound uuid decimal precision_time precision_timestamp precision_timestamp_tz fixedchar varchar fixedbinary struct nstruct list map " +
		"bool str vbin ts tstz iyear iday icompound dec pt pts ptstz fchar vchar fbin any and or") {
		keywords[k] = true
	}
}

func isAnyVar(s string) bool {
	return len(s) == 4 && strings.EqualFold(s[:3], "any") && s[3] >= '0' && s[3] <= '9'
}

// ErrUnspecified: the text uses syntax whose meaning is not settled (the
// grammar has it but no type structure is defined for it here).
var ErrUnspecified = errors.New("unspecified")

type tok struct {
	k string // keyword (lower case), "id", "num", "anyvar", "u!", "nl", "eof", or the punctuation
	s string
}

type rp struct {
	toks []tok
	i    int
}

type rerr struct{ e error }

func (p *rp) fail(f string, a ...any) { panic(rerr{fmt.Errorf(f, a...)}) }
func (p *rp) peek() string            { return p.toks[p.i].k }
func (p *rp) at(n int) string {
	if p.i+n < len(p.toks) {
		return p.toks[p.i+n].k
	}
	return "eof"
}
func (p *rp) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *rp) want(k string) tok {
	if p.peek() != k {
		p.fail("expected %s, found %s", k, p.peek())
	}
	return p.next()
}
func (p *rp) opt(k string) bool {
	if p.peek() == k {
		p.i++
		return true
	}
	return false
}

func lex(s string) ([]tok, error) {
	var out []tok
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	isL := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' }
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			return nil, ErrUnspecified // block comments are broken in the grammar
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\r' && s[i] != '\n' {
				i++
			}
		case c == '\n':
			out = append(out, tok{"nl", ""})
			i++
		case c == ' ' || c == '\t' || c == '\r':
			// longest match: "\r\n" is a newline where it starts a token, but blanks before \r win
			j := i
			for j < len(s) && (s[j] == ' ' || s[j] == '\t' || s[j] == '\r') {
				j++
			}
			if c == '\r' && j == i+1 && j < len(s) && s[j] == '\n' {
				out = append(out, tok{"nl", ""})
				j++
			}
			i = j
		case isD(c) || c == '-' && i+1 < len(s) && isD(s[i+1]):
			j := i
			if c == '-' {
				j++
			}
			if s[j] == '0' {
				j++
			} else {
				for j < len(s) && isD(s[j]) {
					j++
				}
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case isL(c):
			if (c == 'u' || c == 'U') && i+1 < len(s) && s[i+1] == '!' {
				out = append(out, tok{"u!", ""})
				i += 2
				continue
			}
			j := i
			for j < len(s) && (isL(s[j]) || isD(s[j])) {
				j++
			}
			w := s[i:j]
			switch lw := strings.ToLower(w); {
			case isAnyVar(w):
				out = append(out, tok{"anyvar", lw})
			case keywords[lw]:
				out = append(out, tok{lw, w})
			default:
				out = append(out, tok{"id", w})
			}
			i = j
		default:
			n := 1
			if i+1 < len(s) {
				switch s[i : i+2] {
				case "::", "!=", ">=", "<=", ":=", "->":
					n = 2
				}
			}
			k := s[i : i+n]
			if !strings.Contains(" :: + - * / % = != >= <= > < ! ( ) [ ] , : ? # . := -> ", " "+k+" ") {
				return nil, fmt.Errorf("unknown character %q", k)
			}
			out = append(out, tok{k, ""})
			i += n
		}
	}
	return append(out, tok{"eof", ""}), nil
}

// node is what an expression of the reference parser yields.
type node struct {
	t *PT
	e *E
	d *PD
	q bool // identifier?
}

// RefParse is an independent reading of the type syntax: the structure, an
// error for text outside it, or ErrUnspecified.
func RefParse(s string) (pd *PD, err error) {
	defer func() {
		if r := recover(); r != nil {
			re, ok := r.(rerr)
			if !ok {
				panic(r)
			}
			pd, err = nil, re.e
		}
	}()
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return nil, ErrUnspecified // case folding of letters beyond ASCII
		}
	}
	toks, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &rp{toks: toks}
	n := p.start()
	p.want("eof")
	switch {
	case n.d != nil:
		return n.d, nil
	case n.t != nil:
		return &PD{T: n.t}, nil
	}
	return nil, fmt.Errorf("not a type")
}

func (p *rp) E(n node) *E {
	if n.q {
		panic(rerr{ErrUnspecified})
	}
	if n.e == nil {
		p.fail("a type is not an expression")
	}
	return n.e
}

var startsExpr = map[string]bool{"(": true, "id": true, "num": true, "anyvar": true, "u!": true, "if": true, "!": true}

func init() {
	for k := range keywords {
		switch k {
		case "then", "else", "and", "or", "bool", "str", "vbin", "ts", "tstz", "iyear", "iday", "icompound", "dec", "pt", "pts", "ptstz", "fchar", "vchar", "fbin":
		default:
			startsExpr[k] = true
		}
	}
}

func (p *rp) expr(min int) node {
	n := p.primary()
	for {
		k := p.peek()
		switch {
		case isBinop(k) && min <= 4:
			l := n
			p.next()
			r := p.expr(5)
			n = node{e: &E{Op: k, Args: []*E{p.E(l), p.E(r)}}}
		case k == "?" && min <= 1:
			p.next()
			a := p.expr(0)
			p.want(":")
			b := p.expr(2)
			n = node{e: &E{Op: "if", Args: []*E{p.E(n), p.E(a), p.E(b)}}}
		default:
			return n
		}
	}
}

// start is an expression where assignment lines may stand: they yield a type,
// so that anywhere else "id =" can only be a comparison.
func (p *rp) start() node {
	if p.peek() == "id" && p.at(1) == "=" && p.multiline() {
		return p.derivation()
	}
	return p.expr(0)
}

func (p *rp) primary() node {
	switch k := p.peek(); k {
	case "(":
		p.next()
		n := p.start()
		p.want(")")
		return n
	case "num":
		v, err := strconv.ParseInt(p.next().s, 10, 64)
		if err != nil {
			p.fail("%v", err)
		}
		return node{e: &E{Op: "num", Num: v}}
	case "!":
		p.next()
		return node{e: &E{Op: "not", Args: []*E{p.E(p.expr(2))}}}
	case "if":
		p.next()
		c := p.expr(0)
		p.want("then")
		a := p.expr(0)
		p.want("else")
		b := p.expr(3)
		return node{e: &E{Op: "if", Args: []*E{p.E(c), p.E(a), p.E(b)}}}
	case "id":
		if p.at(1) == "=" && p.multiline() {
			panic(rerr{ErrUnspecified}) // a comparison, or assignment lines in the middle of an expression
		}
		name := p.next().s
		if p.peek() == "(" {
			p.next()
			e := &E{Op: "call", Name: strings.ToLower(name)}
			if p.peek() != ")" {
				e.Args = append(e.Args, p.E(p.expr(0)))
				for p.opt(",") {
					e.Args = append(e.Args, p.E(p.expr(0)))
				}
			}
			p.want(")")
			return node{e: e}
		}
		q := false
		if p.peek() == "?" && !startsExpr[p.at(1)] {
			p.next()
			q = true
		}
		return node{e: &E{Op: "var", Name: name}, q: q}
	}
	return node{t: p.typ()}
}

// multiline: whether a newline follows before the enclosing parenthesis (or the text) ends.
func (p *rp) multiline() bool {
	d := 0
	for j := p.i; j < len(p.toks); j++ {
		switch p.toks[j].k {
		case "(":
			d++
		case ")":
			d--
			if d < 0 {
				return false
			}
		case "nl":
			return true
		}
	}
	return false
}

func (p *rp) derivation() node {
	d := &PD{}
	for {
		name := p.want("id").s
		p.want("=")
		if p.peek() == "id" && p.at(1) == "=" {
			panic(rerr{ErrUnspecified})
		}
		e := p.expr(0)
		d.Asgs = append(d.Asgs, Asg{name, p.E(e)})
		p.want("nl")
		for p.opt("nl") {
		}
		if !(p.peek() == "id" && p.at(1) == "=") {
			break
		}
	}
	d.T = p.typ()
	for p.opt("nl") {
	}
	return node{d: d}
}

func (p *rp) num32() int32 {
	v, err := strconv.ParseInt(p.want("num").s, 10, 32)
	if err != nil {
		p.fail("%v", err)
	}
	return int32(v)
}

func (p *rp) intParam() IP {
	if p.peek() == "id" && p.at(1) != "(" {
		ip := IP{Var: p.next().s}
		if p.peek() != ">" && p.peek() != "," {
			panic(rerr{ErrUnspecified}) // expressions as parameters
		}
		return ip
	}
	if p.peek() == "num" {
		ip := IP{N: p.num32()}
		if p.peek() != ">" && p.peek() != "," {
			panic(rerr{ErrUnspecified})
		}
		return ip
	}
	panic(rerr{ErrUnspecified})
}

// targ is a type argument; parenthesised types are allowed.
func (p *rp) targ() *PT {
	if p.opt("(") {
		t := p.targ()
		p.want(")")
		return t
	}
	switch p.peek() {
	case "id", "num", "!", "if":
		panic(rerr{ErrUnspecified}) // expressions as type arguments
	}
	t := p.typ()
	switch k := p.peek(); {
	case isBinop(k) && k != ">", k == "?":
		panic(rerr{ErrUnspecified})
	}
	return t
}

func (p *rp) typ() *PT {
	t := &PT{}
	tk := p.next()
	k := tk.k
	null := func() { t.Null = p.opt("?") }
	for _, s := range PScalars {
		if k == s {
			t.K, t.Name = "scalar", k
			null()
			return t
		}
	}
	switch k {
	case "any":
		t.K, t.Name = "any", "any"
		null()
	case "anyvar":
		t.K, t.Name = "any", tk.s
		null()
	case "decimal":
		t.K = k
		null()
		p.want("<")
		a := p.intParam()
		p.want(",")
		b := p.intParam()
		p.want(">")
		t.Ints = []IP{a, b}
	case "list", "map", "struct":
		t.K = k
		null()
		p.want("<")
		t.Kids = []*PT{p.targ()}
		if k == "map" {
			p.want(",")
			t.Kids = append(t.Kids, p.targ())
		}
		if k == "struct" {
			for p.opt(",") {
				t.Kids = append(t.Kids, p.targ())
			}
		}
		p.want(">")
	case "func":
		t.K = k
		null()
		p.want("<")
		if p.opt("(") {
			t.Kids = append(t.Kids, p.targ())
			for p.opt(",") {
				t.Kids = append(t.Kids, p.targ())
			}
			p.want(")")
			if p.peek() != "->" {
				panic(rerr{ErrUnspecified})
			}
		} else {
			t.Kids = append(t.Kids, p.targ())
		}
		p.want("->")
		t.Kids = append(t.Kids, p.targ())
		p.want(">")
	case "u!":
		t.K = "udt"
		t.Name = p.want("id").s
		null()
		// u!name < ... could also be a comparison; only an argument list is read
		if p.opt("<") {
			for {
				switch {
				case p.peek() == "num" && (p.at(1) == "," || p.at(1) == ">"):
					t.UDT = append(t.UDT, UP{I: true, N: p.num32()})
				case p.peek() == "id" && (p.at(1) == "," || p.at(1) == ">"):
					t.UDT = append(t.UDT, UP{S: p.next().s})
				default:
					t.UDT = append(t.UDT, UP{T: p.targ()})
				}
				if !p.opt(",") {
					break
				}
			}
			p.want(">")
		}
	case "nstruct", "interval_compound":
		panic(rerr{ErrUnspecified})
	default:
		for _, s := range PInt1 {
			if k == s {
				t.K, t.Name = "int1", k
				null()
				p.want("<")
				t.Ints = []IP{p.intParam()}
				p.want(">")
				return t
			}
		}
		p.fail("unexpected %s", k)
	}
	return t
}
