package checks

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif/harness/spec"
	"verif/harness/vk"
)

// breaker lists the places of a well-formed plan where one change makes a
// message that has to be refused.
type breaker struct {
	r    *vk.R
	out  []breach
	path []string
}

type breach struct {
	site
	path string
}

func (b *breaker) add(what string, do func()) {
	b.out = append(b.out, breach{site{what, func(*vk.R) { do() }}, strings.Join(b.path, "/")})
}

// walk goes through the messages the decoders read.
func (b *breaker) walk(m protoreflect.Message) {
	b.path = append(b.path, string(m.Descriptor().Name()))
	defer func() { b.path = b.path[:len(b.path)-1] }()
	b.at(m.Interface())
	skip := map[string]bool{}
	switch x := m.Interface().(type) {
	case *proto.Plan, *proto.ExtendedExpression:
		skip["type_aliases"], skip["advanced_extensions"], skip["version"] = true, true, true
		skip["extensions"], skip["extension_urns"] = true, true
	case *proto.HashJoinRel:
		// superseded
		if len(x.Keys) > 0 {
			skip["left_keys"], skip["right_keys"] = true, true
		}
	case *proto.MergeJoinRel:
		if len(x.Keys) > 0 {
			skip["left_keys"], skip["right_keys"] = true, true
		}
	case *proto.Expression_Literal_UserDefined:
		// kept as it is
		skip["struct"] = true
	case *proto.AggregateRel:
		if len(x.GroupingExpressions) > 0 {
			for _, m := range x.GroupingExpressions {
				b.walk(m.ProtoReflect())
			}
			skip["groupings"], skip["grouping_expressions"] = true, true
		}
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Message() == nil || fd.IsMap() || skip[string(fd.Name())]:
		case fd.Message().FullName() == "google.protobuf.Any", fd.Message().Name() == "AdvancedExtension", fd.Message().Name() == "RelCommon":
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				b.walk(v.List().Get(i).Message())
			}
		default:
			b.walk(v.Message())
		}
		return true
	})
}

// clear takes a part away that has to be there.
func (b *breaker) clear(m pb.Message, fields ...string) {
	r := m.ProtoReflect()
	for _, f := range fields {
		fd := r.Descriptor().Fields().ByName(protoreflect.Name(f))
		if r.Has(fd) {
			b.add(string(r.Descriptor().Name())+" without "+f, func() { r.Clear(fd) })
			if fd.Message() != nil && !fd.IsList() && fd.Message().Name() != "NamedStruct" {
				b.add(string(r.Descriptor().Name())+" with an empty "+f, func() { r.Set(fd, r.NewField(fd)) })
			}
		}
	}
}

var badEmit = []int32{-1, -2147483648}

func (b *breaker) at(m pb.Message) {
	r := b.r
	clear := func(fields ...string) { b.clear(m, fields...) }
	kind := func(oneof string) {
		rm := m.ProtoReflect()
		o := rm.Descriptor().Oneofs().ByName(protoreflect.Name(oneof))
		if fd := rm.WhichOneof(o); fd != nil {
			b.add(string(rm.Descriptor().FullName().Name())+" without "+oneof, func() { rm.Clear(fd) })
		}
	}
	switch x := m.(type) {
	case *proto.PlanRel:
		kind("rel_type")
	case *proto.ExpressionReference:
		kind("expr_type")
	case *proto.RelRoot:
		clear("input")
	case *proto.DynamicParameterBinding:
		clear("value")
	case *proto.Rel:
		kind("rel_type")
		if c := spec.Common(x); c != nil {
			b.add("a negative column in an output mapping", func() {
				e := c.GetEmit()
				if e == nil {
					e = &proto.RelCommon_Emit{}
					c.EmitKind = &proto.RelCommon_Emit_{Emit: e}
				}
				at := r.N(len(e.OutputMapping) + 1)
				e.OutputMapping = append(e.OutputMapping[:at:at], append([]int32{vk.Pick(r, badEmit)}, e.OutputMapping[at:]...)...)
			})
		}
	case *proto.ReadRel:
		kind("read_type")
	case *proto.ReadRel_VirtualTable:
		if len(x.Values) > 0 && len(x.Expressions) == 0 {
			b.add("VirtualTable with values and expressions", func() { x.Expressions = append(x.Expressions, &proto.Expression_Nested_Struct{}) })
		}
		if len(x.Expressions) > 0 && len(x.Values) == 0 {
			b.add("VirtualTable with values and expressions", func() { x.Values = append(x.Values, &proto.Expression_Literal_Struct{}) })
		}
	case *proto.ReadRel_IcebergTable:
		kind("table_type")
	case *proto.FilterRel:
		clear("input", "condition")
	case *proto.FetchRel:
		clear("input")
		kind("offset_mode")
		kind("count_mode")
	case *proto.SortRel:
		clear("input", "sorts")
	case *proto.ProjectRel:
		clear("input", "expressions")
	case *proto.AggregateRel:
		clear("input")
		if n := uint32(len(x.GroupingExpressions)); n > 0 && len(x.Groupings) > 0 {
			b.add("grouping set refers to an expression that is not there", func() {
				g := vk.Pick(r, x.Groupings)
				g.ExpressionReferences = append(g.ExpressionReferences, vk.PickOf(r, n, n+1, 1<<31, 1<<32-1))
				i := r.N(len(g.ExpressionReferences))
				l := len(g.ExpressionReferences) - 1
				g.ExpressionReferences[i], g.ExpressionReferences[l] = g.ExpressionReferences[l], g.ExpressionReferences[i]
			})
		}
	case *proto.AggregateRel_Measure:
		clear("measure")
	case *proto.JoinRel:
		clear("left", "right", "expression")
		b.add("JoinRel without a type", func() { x.Type = 0 })
	case *proto.SetRel:
		b.add("SetRel without an operation", func() { x.Op = 0 })
		b.add("SetRel of fewer than two inputs", func() { x.Inputs = x.Inputs[:r.N(2)] })
	case *proto.CrossRel:
		clear("left", "right")
	case *proto.HashJoinRel:
		clear("left", "right")
		if len(x.Keys) == 0 {
			b.add("one join key more on a side", func() {
				if l := len(x.LeftKeys); l > 0 && r.Bool() {
					x.LeftKeys = x.LeftKeys[:l-1]
				} else {
					x.RightKeys = append(x.RightKeys, &proto.Expression_FieldReference{})
				}
			})
		}
	case *proto.MergeJoinRel:
		clear("left", "right")
		if len(x.Keys) == 0 {
			b.add("one join key more on a side", func() {
				if l := len(x.LeftKeys); l > 0 && r.Bool() {
					x.LeftKeys = x.LeftKeys[:l-1]
				} else {
					x.RightKeys = append(x.RightKeys, &proto.Expression_FieldReference{})
				}
			})
		}
	case *proto.ComparisonJoinKey:
		clear("left", "right", "comparison")
	case *proto.ComparisonJoinKey_ComparisonType:
		kind("inner_type")
	case *proto.WriteRel:
		clear("input")
		b.add("WriteRel without an operation", func() { x.Op = 0 })
		b.add("WriteRel with an unknown operation", func() { x.Op = 99 })
		b.add("WriteRel to an extension table", func() { x.WriteType = &proto.WriteRel_ExtensionTable{ExtensionTable: &proto.ExtensionObject{}} })
	case *proto.ExtensionSingleRel:
		clear("input")
	case *proto.ExtensionMultiRel:
		for i := range x.Inputs {
			b.add("ExtensionMultiRel with an empty input", func() { x.Inputs[i] = &proto.Rel{} })
		}

	case *proto.Expression:
		kind("rex_type")
		b.add("deprecated enum expression", func() {
			x.RexType = &proto.Expression_Enum_{Enum: &proto.Expression_Enum{EnumKind: &proto.Expression_Enum_Specified{Specified: "a"}}}
		})
	case *proto.Expression_Literal:
		kind("literal_type")
		switch l := x.LiteralType.(type) {
		case *proto.Expression_Literal_I8:
			b.add("i8 literal out of range", func() { l.I8 = vk.PickOf(r, int32(128), -129, 1<<20) })
		case *proto.Expression_Literal_I16:
			b.add("i16 literal out of range", func() { l.I16 = vk.PickOf(r, int32(32768), -32769, 1<<20) })
		case *proto.Expression_Literal_Decimal_:
			b.add("decimal literal of a wrong number of bytes", func() {
				v := l.Decimal.Value
				if r.Bool() {
					l.Decimal.Value = v[:r.N(len(v))]
				} else {
					l.Decimal.Value = append(append([]byte{}, v...), 0)
				}
			})
		case *proto.Expression_Literal_List_:
			b.add("list literal without values", func() { l.List.Values = nil })
		case *proto.Expression_Literal_Map_:
			b.add("map literal without entries", func() { l.Map.KeyValues = nil })
		case *proto.Expression_Literal_PrecisionTime_:
			b.add("precision literal", func() { l.PrecisionTime.Precision = vk.PickOf(r, int32(-1), 10, 99) })
			b.add("negative time literal", func() { l.PrecisionTime.Value = -1 })
		case *proto.Expression_Literal_PrecisionTimestamp_:
			b.add("precision literal", func() { l.PrecisionTimestamp.Precision = vk.PickOf(r, int32(-1), 10, 99) })
		case *proto.Expression_Literal_PrecisionTimestampTz:
			b.add("precision literal", func() { l.PrecisionTimestampTz.Precision = vk.PickOf(r, int32(-1), 10, 99) })
		case *proto.Expression_Literal_UserDefined_:
			rm := l.UserDefined.ProtoReflect()
			if fd := rm.WhichOneof(rm.Descriptor().Oneofs().ByName("val")); fd != nil {
				b.add("user-defined literal without a value", func() { rm.Clear(fd) })
			}
		}
	case *proto.Expression_Literal_Map_KeyValue:
		clear("key", "value")
	case *proto.Type:
		kind("kind")
		switch k := x.Kind.(type) {
		case *proto.Type_PrecisionTime_:
			b.add("type precision", func() { k.PrecisionTime.Precision = vk.PickOf(r, int32(-1), 10, 99) })
		case *proto.Type_PrecisionTimestamp_:
			b.add("type precision", func() { k.PrecisionTimestamp.Precision = vk.PickOf(r, int32(-1), 10, 99) })
		case *proto.Type_PrecisionTimestampTz:
			b.add("type precision", func() { k.PrecisionTimestampTz.Precision = vk.PickOf(r, int32(-1), 10, 99) })
		}
	case *proto.Type_List:
		clear("type")
	case *proto.Type_Map:
		clear("key", "value")
	case *proto.Type_Func:
		clear("return_type")
	case *proto.Type_Parameter:
		kind("parameter")
	case *proto.FunctionArgument:
		kind("arg_type")
	case *proto.Expression_ScalarFunction:
		clear("output_type")
		b.add("scalar function nobody declared", func() { x.FunctionReference = 987654321 })
	case *proto.Expression_WindowFunction:
		clear("output_type")
		b.add("window function nobody declared", func() { x.FunctionReference = 987654321 })
	case *proto.AggregateFunction:
		clear("output_type")
		b.add("aggregate function nobody declared", func() { x.FunctionReference = 987654321 })
	case *proto.SortField:
		clear("expr")
		kind("sort_kind")
	case *proto.Expression_IfThen:
		clear("else")
	case *proto.Expression_IfThen_IfClause:
		clear("if", "then")
	case *proto.Expression_SwitchExpression:
		clear("match")
	case *proto.Expression_SwitchExpression_IfValue:
		clear("if", "then")
	case *proto.Expression_SingularOrList:
		clear("value")
	case *proto.Expression_Cast:
		clear("type", "input")
	case *proto.Expression_Nested:
		kind("nested_type")
	case *proto.Expression_Nested_List:
		clear("values")
	case *proto.Expression_Nested_Map:
		clear("key_values")
	case *proto.Expression_Nested_Map_KeyValue:
		clear("key", "value")
	case *proto.DynamicParameter:
		clear("type")
	case *proto.Expression_Lambda:
		clear("parameters", "body")
		b.add("nullable lambda parameters", func() {
			x.Parameters.Nullability = vk.PickOf(r, proto.Type_NULLABILITY_NULLABLE, proto.Type_NULLABILITY_UNSPECIFIED)
		})
	case *proto.Expression_Subquery:
		kind("subquery_type")
	case *proto.Expression_Subquery_Scalar:
		clear("input")
	case *proto.Expression_Subquery_InPredicate:
		clear("haystack")
	case *proto.Expression_Subquery_SetPredicate:
		clear("tuples")
	case *proto.Expression_Subquery_SetComparison:
		clear("left", "right")
	case *proto.Expression_FieldReference:
		kind("reference_type")
		if d := x.GetDirectReference(); d != nil {
			b.add("direct reference without a segment", func() { d.ReferenceType = nil })
			switch {
			case x.GetOuterReference() != nil:
			case d.GetStructField() != nil:
				b.add("reference to a field that is not there", func() { d.GetStructField().Field = vk.PickOf(r, int32(-1), 1<<20) })
				b.add("reference of a wrong kind", func() {
					d.ReferenceType = &proto.Expression_ReferenceSegment_ListElement_{ListElement: &proto.Expression_ReferenceSegment_ListElement{}}
				})
			}
			if l := x.GetLambdaParameterReference(); l != nil {
				b.add("parameter of a lambda that is not there", func() { l.StepsOut = vk.PickOf(r, uint32(40), 1<<31, 1<<32-1) })
			}
		}
	}
}

// refused: plans with one change that makes them malformed.
func refused(c *vk.C) {
	c.Rule("refused: a well-formed plan is given one change that leaves it incomplete or inconsistent (a required part, kind or operation taken away, a reference to a column, expression, function or lambda parameter that is not there, values that do not fit, too few names, inputs or set operands that do not go together) at any place the decoders read, in subqueries, lambdas, types and literals too, and must be refused; non-trivial = distinct change")
	c.ParSection("refused", c.Scale(40000, 2500000), func(t *vk.T) {
		r := t.R
		x := genPlan(r, func(g *spec.PG) { g.BaseMask = true })
		p := x.P
		b := &breaker{r: r}
		b.walk(p.ProtoReflect())
		for i, rel := range x.Rels {
			rel.Walk(func(o *spec.RX) {
				if !o.Guess {
					b.add("output mapping to a column that is not there", func() {
						n := int32(len(o.Direct))
						m := spec.Mapping(r, len(o.Direct))
						at := r.N(len(m) + 1)
						m = append(m[:at:at], append([]int32{vk.PickOf(r, n, n+1, 1<<31-1)}, m[at:]...)...)
						spec.Common(o.P).EmitKind = &proto.RelCommon_Emit_{Emit: &proto.RelCommon_Emit{OutputMapping: m}}
					})
				}
				if s := o.P.GetSet(); s != nil {
					b.add("set operands of different columns", func() {
						cols := append([]*spec.TS{}, o.Ins[0].Out...)
						what := r.N(3)
						if len(cols) == 0 {
							what = 0
						}
						switch what {
						case 0:
							cols = append(cols, &spec.TS{K: spec.I64, N: 2})
						case 1:
							cols = cols[1:]
						default:
							k := r.N(len(cols))
							u := *cols[k]
							switch u.K {
							case spec.VarChar, spec.FixedChar, spec.FixedBinary:
								u.Len++
							case spec.Decimal:
								u.Prec++
							case spec.I64:
								u.K = spec.I32
							default:
								u = spec.TS{K: spec.I64, N: u.N}
							}
							cols[k] = &u
						}
						s.Inputs[1+r.N(len(s.Inputs)-1)] = &proto.Rel{RelType: &proto.Rel_Read{Read: &proto.ReadRel{BaseSchema: genNamed(r, cols),
							ReadType: &proto.ReadRel_NamedTable_{NamedTable: &proto.ReadRel_NamedTable{Names: []string{"t"}}}}}}
					})
				}
			})
			if x.Roots[i] && !rel.Guess && rel.P.GetWrite() == nil {
				root := p.Relations[i].GetRoot()
				b.add("wrong number of root names", func() {
					if n := len(root.Names); n > 0 && r.Bool() {
						root.Names = root.Names[:n-1]
					} else {
						root.Names = append(root.Names, "one_more")
					}
				})
			}
		}
		if len(p.Extensions) > 0 {
			b.add("declaration with an unknown URN", func() {
				e := vk.Pick(r, p.Extensions)
				switch k := e.MappingType.(type) {
				case *extpb.SimpleExtensionDeclaration_ExtensionFunction_:
					k.ExtensionFunction.ExtensionUrnReference = 987654321
				case *extpb.SimpleExtensionDeclaration_ExtensionType_:
					k.ExtensionType.ExtensionUrnReference = 987654321
				case *extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_:
					k.ExtensionTypeVariation.ExtensionUrnReference = 987654321
				}
			})
		}
		refuse(t, b, p, func() error { _, err := decodePlan(p); return err })
	})
	c.ParSection("refused-extended", c.Scale(8000, 500000), func(t *vk.T) {
		m := genExtended(t.R)
		b := &breaker{r: t.R}
		b.walk(m.ProtoReflect())
		if len(b.out) > 0 {
			refuse(t, b, m, func() error {
				_, err := expr.ExtendedFromProto(m, extensions.GetDefaultCollectionWithNoError())
				return err
			})
		}
	})
}

// refuse makes one of the changes, and decodes the message.
func refuse(t *vk.T, b *breaker, m pb.Message, decode func() error) {
	r := t.R
	t.Must(len(b.out) > 0, "sites", "nothing to change")
	var err error
	pn, st := vk.Try(func() { err = decode() })
	t.Must(pn == nil && err == nil, "well-formed", "the message is not accepted before the change: %v %v %s", err, pn, st)
	// kinds of changes that are rare in plans get their share
	kinds := map[string][]breach{}
	var names []string
	for _, s := range b.out {
		if kinds[s.what] == nil {
			names = append(names, s.what)
		}
		kinds[s.what] = append(kinds[s.what], s)
	}
	s := vk.Pick(r, kinds[vk.Pick(r, names)])
	s.do(r)
	t.Desc = func() string { return s.what + " at " + s.path + "\n" + fmt.Sprint(m) }
	if !guard(t, "decoding", func() { err = decode() }) {
		return
	}
	if t.Check(err != nil, "refused:"+s.what, "accepted") {
		t.Obs(s.what)
	}
}
