package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C20"] = c20 }

// nilSites lists the places of a message where a Go program can leave a nil
// that no wire form has: elements of repeated fields and payloads of oneofs.
func nilSites(v reflect.Value, what string, out *[]site) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && v.Elem().Kind() == reflect.Struct {
			nilSites(v.Elem(), what, out)
		}
	case reflect.Interface:
		if !v.IsNil() { // a oneof: a pointer to a struct of one field
			w := v.Elem()
			if w.Kind() == reflect.Pointer && !w.IsNil() && w.Elem().Kind() == reflect.Struct && w.Elem().NumField() == 1 {
				f := w.Elem().Field(0)
				if f.Kind() == reflect.Pointer {
					*out = append(*out, site{what + " nil", func(*vk.R) { f.SetZero() }})
					nilSites(f, w.Elem().Type().Name(), out)
				}
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Pointer {
			for i := 0; i < v.Len(); i++ {
				f := v.Index(i)
				*out = append(*out, site{what + "[] nil", func(*vk.R) { f.SetZero() }})
				nilSites(f, what, out)
			}
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); f.IsExported() {
				nilSites(v.Field(i), t.Name()+"."+f.Name, out)
			}
		}
	}
}

// wreck changes a message in a few hostile ways, and says which.
func wreck(r *vk.R, m pb.Message) string {
	var what []string
	for n := 1 + r.N(3); n > 0; n-- {
		what = append(what, mutate(r, m.ProtoReflect(), true))
	}
	if r.P(1, 6) {
		var ss []site
		nilSites(reflect.ValueOf(m), "", &ss)
		if len(ss) > 0 {
			s := vk.Pick(r, ss)
			s.do(r)
			what = append(what, s.what)
		}
	}
	return strings.Join(what, ", ")
}

// sparse fills a message at random.
func sparse(r *vk.R, m protoreflect.Message, depth int) {
	fds := m.Descriptor().Fields()
	set := func(fd protoreflect.FieldDescriptor) {
		switch {
		case fd.IsMap():
		case fd.IsList():
			l := m.Mutable(fd).List()
			for n := r.N(3); n > 0; n-- {
				if fd.Kind() == protoreflect.MessageKind {
					e := l.NewElement()
					if depth > 0 {
						sparse(r, e.Message(), depth-1)
					}
					l.Append(e)
				} else {
					l.Append(changeScalar(r, fd, l.NewElement(), true))
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			e := m.Mutable(fd).Message()
			if depth > 0 {
				sparse(r, e, depth-1)
			}
		default:
			m.Set(fd, changeScalar(r, fd, fd.Default(), true))
		}
	}
	os := m.Descriptor().Oneofs()
	for i := 0; i < os.Len(); i++ {
		if o := os.Get(i); r.P(7, 8) {
			set(o.Fields().Get(r.N(o.Fields().Len())))
		}
	}
	for i := 0; i < fds.Len(); i++ {
		if fd := fds.Get(i); fd.ContainingOneof() == nil && r.P(2, 3) {
			set(fd)
		}
	}
}

// inspector calls every reading method of the values it is given.
type inspector struct {
	t     *vk.T
	calls int
	left  int
	seen  map[any]bool
}

var libPath = "github.com/substrait-io/substrait-go/"

// guard is NoPanic with the function of the library that panics for a key.
func guard(t *vk.T, what string, fn func()) bool {
	t.Count(1)
	p, st := vk.Try(fn)
	if p == nil {
		return true
	}
	if vk.IsStop(p) {
		panic(p)
	}
	at := ""
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, libPath) {
			at = strings.TrimPrefix(l, libPath)
			if i := strings.LastIndex(at, "("); i > 0 {
				at = at[:i]
			}
			break
		}
	}
	t.Failf("panic:"+at, "panic in %s: %v\n%s", what, p, vk.Frames(st))
	return false
}

// writing methods, and those whose arguments have to be made up
func (p *inspector) skip(name string) bool {
	return strings.HasPrefix(name, "Set") || strings.HasPrefix(name, "Must") || strings.HasPrefix(name, "Add") || name == "ToBuilder" || name == "Build" || name == "Remap"
}

// undecodedEmit reports a relation, or what holds one, of an extension nobody
// registered a decoder for, with a mapping of columns it is not known to have.
// These can only decode: see the section "undecoded".
func undecodedEmit(v any) bool {
	var rel plan.Rel
	switch x := v.(type) {
	case *plan.Relation:
		if rel = x.Rel(); x.IsRoot() {
			rel = x.Root().Input()
		}
	case *plan.Root:
		rel = x.Input()
	case plan.Rel:
		rel = x
	}
	e, ok := rel.(interface {
		plan.Rel
		Definition() plan.ExtensionRelDefinition
	})
	if !ok {
		return false
	}
	if _, ok := e.Definition().(*plan.UndecodedExtension); !ok {
		return false
	}
	for _, i := range e.OutputMapping() {
		sch := e.Definition().Schema(e.GetInputs())
		if i < 0 || i >= sch.FieldCount() {
			return true
		}
	}
	return false
}

func (p *inspector) see(v reflect.Value, depth int) {
	if !v.IsValid() || depth < 0 || p.left <= 0 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			p.see(v.Elem(), depth)
		}
		return
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len() && i < 40; i++ {
			p.see(v.Index(i), depth)
		}
		return
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			p.see(it.Key(), depth)
			p.see(it.Value(), depth)
		}
		return
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
	}
	t := v.Type()
	e := t
	if e.Kind() == reflect.Pointer {
		e = e.Elem()
	}
	// enumerations are types of function definitions, which no message holds
	if e.Name() == "EnumType" || !strings.HasPrefix(e.PkgPath(), libPath) || strings.HasSuffix(e.PkgPath(), "/extensions") || !v.CanInterface() {
		return
	}
	if v.Kind() == reflect.Struct && v.CanAddr() {
		v = v.Addr()
		t = v.Type()
	}
	if v.Kind() == reflect.Pointer {
		if p.seen[v.Interface()] {
			return
		}
		p.seen[v.Interface()] = true
	}
	p.left--
	noType := undecodedEmit(v.Interface())
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if p.skip(m.Name) || m.Type.NumOut() == 0 || noType && m.Name == "RecordType" {
			continue
		}
		var args []reflect.Value
		switch {
		case m.Type.NumIn() == 1:
		case m.Name == "Equals" && m.Type.NumIn() == 2 && t.AssignableTo(m.Type.In(1)):
			args = []reflect.Value{v}
		default:
			continue
		}
		var res []reflect.Value
		p.calls++
		if !guard(p.t, e.Name()+"."+m.Name, func() { res = v.Method(i).Call(args) }) {
			continue
		}
		for _, x := range res {
			p.see(x, depth-1)
		}
	}
	if v.Kind() == reflect.Pointer && v.Elem().Kind() == reflect.Struct {
		for i := 0; i < v.Elem().NumField(); i++ {
			if e.Field(i).IsExported() {
				p.see(v.Elem().Field(i), depth-1)
			}
		}
	}
}

// inspect reads everything of a value, and copies and rewrites the relations and expressions.
func inspect(t *vk.T, vs ...any) {
	p := &inspector{t: t, left: 400, seen: map[any]bool{}}
	for _, v := range vs {
		p.see(reflect.ValueOf(v), 12)
	}
	id := func(e expr.Expression) (expr.Expression, error) { return e, nil }
	var ks []string
	for v := range p.seen {
		switch x := v.(type) {
		case plan.Rel:
			guard(t, "Rel.Copy", func() {
				c, err := x.Copy(x.GetInputs()...)
				if err == nil && c != nil {
					c.ToProto()
					if !undecodedEmit(x) {
						c.RecordType()
					}
				}
			})
			guard(t, "Rel.CopyWithExpressionRewrite", func() {
				c, err := x.CopyWithExpressionRewrite(func(e expr.Expression) (expr.Expression, error) {
					if e == nil {
						return nil, nil
					}
					return id(e)
				}, x.GetInputs()...)
				if err == nil && c != nil {
					c.ToProto()
				}
			})
		case expr.Expression:
			guard(t, "Expression.Visit", func() {
				x.Visit(func(e expr.Expression) expr.Expression { return e })
			})
		}
		ks = append(ks, fmt.Sprintf("%T", v))
	}
	sort.Strings(ks)
	t.C.AddExtra("inspected_values", int64(len(p.seen)))
	t.C.AddExtra("inspecting_calls", int64(p.calls))
	t.Obs("accepted", strings.Join(ks, ","))
}

func outcome(t *vk.T, err error) bool {
	if err != nil {
		t.C.AddExtra("rejected", 1)
		m := err.Error()
		if len(m) > 60 {
			m = m[:60]
		}
		t.Obs("rejected", vk.PanicKey(m))
		return false
	}
	t.C.AddExtra("accepted", 1)
	return true
}

func wreckedPlan(t *vk.T, p *proto.Plan) {
	var pl *plan.Plan
	var err error
	ok := guard(t, "plan.FromProto", func() { pl, err = decodePlan(p) })
	if ok && outcome(t, err) {
		guard(t, "Plan.ToProto", func() { _, err = pl.ToProto() })
		inspect(t, pl, relsOf(pl))
	}
}

func wreckedExpr(t *vk.T, e *proto.Expression, rt *types.RecordType, reg expr.ExtensionRegistry) {
	var x expr.Expression
	var err error
	ok := guard(t, "expr.ExprFromProto", func() { x, err = expr.ExprFromProto(e, rt, reg) })
	if ok && outcome(t, err) {
		t.Check(x != nil, "ExprFromProto:nil", "neither an expression nor an error")
		if x != nil {
			t.Check(!reflect.ValueOf(x).IsZero(), "ExprFromProto:nil", "neither an expression nor an error")
			guard(t, "Expression.ToProto", func() { x.ToProto() })
			inspect(t, x)
		}
	}
}

func wreckedRel(t *vk.T, m *proto.Rel, reg expr.ExtensionRegistry) {
	var x plan.Rel
	var err error
	ok := guard(t, "plan.RelFromProto", func() { x, err = plan.RelFromProto(m, reg) })
	if ok && outcome(t, err) {
		t.Check(x != nil, "RelFromProto:nil", "neither a relation nor an error")
		if x != nil {
			guard(t, "Rel.ToProto", func() { x.ToProto() })
			inspect(t, x)
		}
	}
}

func wreckedLit(t *vk.T, m *proto.Expression_Literal) {
	var x expr.Literal
	if guard(t, "expr.LiteralFromProto", func() { x = expr.LiteralFromProto(m) }) && x != nil {
		guard(t, "Literal.ToProto", func() { x.ToProto() })
		inspect(t, x)
	}
}

func wreckedExtended(t *vk.T, m *proto.ExtendedExpression) {
	var x *expr.Extended
	var err error
	ok := guard(t, "expr.ExtendedFromProto", func() { x, err = expr.ExtendedFromProto(m, extensions.GetDefaultCollectionWithNoError()) })
	if ok && outcome(t, err) {
		guard(t, "Extended.ToProto", func() { x.ToProto() })
		inspect(t, x)
	}
}

func c20(c *vk.C) {
	loadFnPool()
	showm := func(m pb.Message, what string) func() string {
		return func() string {
			s := "?"
			vk.Try(func() { s = fmt.Sprint(m) })
			return what + "\n" + s
		}
	}
	c.Rule("plans, expressions, literals, extended: well-formed messages with one to four hostile changes (fields cleared, emptied, duplicated, swapped; references, mappings, anchors, enums and numbers changed to values out of range; nils where a message belongs) are decoded; what is accepted is encoded, copied, rewritten, and read by every method of every value in it; non-trivial = distinct error or set of value types accepted")
	c.ParSection("plans", c.Scale(20000, 1500000), func(t *vk.T) {
		x := genPlan(t.R, nil)
		what := wreck(t.R, x.P)
		t.Desc = showm(x.P, what)
		wreckedPlan(t, x.P)
	})
	c.ParSection("expressions", c.Scale(20000, 1500000), func(t *vk.T) {
		r := t.R
		d := genFnDecls(r)
		reg, err := d.reg()
		t.Must(err == nil, "reg", "%v", err)
		s := genSchema(r)
		g := newXG(r, s, d)
		x := g.GenAny(r.N(4))
		what := wreck(r, x.P)
		t.Desc = showm(x.P, what)
		rt := recordOf(s)
		if r.P(1, 8) {
			rt = nil
		}
		wreckedExpr(t, x.P, rt, reg)
	})
	c.ParSection("literals", c.Scale(20000, 1500000), func(t *vk.T) {
		r := t.R
		l := spec.GenLit(r, spec.GenLitType(r, 3)).Proto()
		what := wreck(r, l)
		t.Desc = showm(l, what)
		wreckedLit(t, l)
	})
	c.ParSection("extended", c.Scale(6000, 300000), func(t *vk.T) {
		r := t.R
		m := genExtended(r)
		what := wreck(r, m)
		t.Desc = showm(m, what)
		wreckedExtended(t, m)
	})
	c.Rule("sparse: messages whose fields are present or absent, and valued, at random")
	c.ParSection("sparse", c.Scale(30000, 2000000), func(t *vk.T) {
		r := t.R
		depth := 1 + r.N(6)
		var m pb.Message
		t.Desc = func() string { return showm(m, "")() }
		switch r.N(5) {
		case 0:
			p := &proto.Plan{}
			m = p
			sparse(r, p.ProtoReflect(), depth)
			wreckedPlan(t, p)
		case 1:
			p := &proto.ExtendedExpression{}
			m = p
			sparse(r, p.ProtoReflect(), depth)
			wreckedExtended(t, p)
		case 2:
			p := &proto.Expression_Literal{}
			m = p
			sparse(r, p.ProtoReflect(), depth)
			wreckedLit(t, p)
		case 3:
			p := &proto.Rel{}
			m = p
			sparse(r, p.ProtoReflect(), depth)
			reg, err := genFnDecls(r).reg()
			t.Must(err == nil, "reg", "%v", err)
			wreckedRel(t, p, reg)
		default:
			p := &proto.Expression{}
			m = p
			sparse(r, p.ProtoReflect(), depth)
			s := genSchema(r)
			reg, err := genFnDecls(r).reg()
			t.Must(err == nil, "reg", "%v", err)
			wreckedExpr(t, p, recordOf(s), reg)
		}
	})
	refused(c)
	parts(c)
	deep(c)
	c.Rule("undecoded: plans whose root relation is an extension nobody registered a decoder for, with a mapping of columns it is not known to have: these decode, and must not panic when asked for their type")
	c.Section("undecoded", 1, func(t *vk.T) {
		for _, ix := range []int32{0, 5} {
			det := &anypb.Any{TypeUrl: "example.com/unknown"}
			com := &proto.RelCommon{EmitKind: &proto.RelCommon_Emit_{Emit: &proto.RelCommon_Emit{OutputMapping: []int32{ix}}}}
			for k, m := range map[string]*proto.Rel{
				"leaf":  {RelType: &proto.Rel_ExtensionLeaf{ExtensionLeaf: &proto.ExtensionLeafRel{Common: com, Detail: det}}},
				"multi": {RelType: &proto.Rel_ExtensionMulti{ExtensionMulti: &proto.ExtensionMultiRel{Common: com, Detail: det}}},
				"single": {RelType: &proto.Rel_ExtensionSingle{ExtensionSingle: &proto.ExtensionSingleRel{Common: com, Detail: det,
					Input: &proto.Rel{RelType: &proto.Rel_ExtensionLeaf{ExtensionLeaf: &proto.ExtensionLeafRel{Detail: det}}}}}},
			} {
				x, err := plan.RelFromProto(m, expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError()))
				t.Must(err == nil, "rejected", "%v", err)
				t.Obs(k)
				if p, _ := vk.Try(func() { x.RecordType() }); p != nil {
					t.Failf(fmt.Sprintf("%s_emit_%d_has_no_type", k, ix), "RecordType of an undecoded %s extension with the output mapping [%d] panics: %v", k, ix, p)
				}
			}
		}
	})
}

// parts decodes the messages that have decoders of their own.
func parts(c *vk.C) {
	c.Rule("parts: the decoders of parts of plans (types, named structs, function arguments, references, masks, sorts, bounds, aggregate functions, extension sets) are given nothing, empty messages, messages filled at random and changed well-formed ones")
	kinds := []struct {
		name string
		m    func() pb.Message
		run  func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry)
	}{
		{"type", func() pb.Message { return (*proto.Type)(nil) }, func(t *vk.T, m pb.Message, _ *types.RecordType, _ expr.ExtensionRegistry) {
			var x types.Type
			var err error
			if guard(t, "types.DecodeType", func() { x, err = types.DecodeType(m.(*proto.Type)) }) && outcome(t, err) {
				t.Check(x != nil, "DecodeType:nil", "neither a type nor an error")
				guard(t, "types.TypeToProto", func() { types.TypeToProto(x) })
				inspect(t, x)
			}
		}},
		{"named", func() pb.Message { return (*proto.NamedStruct)(nil) }, func(t *vk.T, m pb.Message, _ *types.RecordType, _ expr.ExtensionRegistry) {
			var x types.NamedStruct
			var err error
			if guard(t, "types.DecodeNamedStruct", func() { x, err = types.DecodeNamedStruct(m.(*proto.NamedStruct)) }) && outcome(t, err) {
				inspect(t, &x)
			}
		}},
		{"param", func() pb.Message { return (*proto.Type_Parameter)(nil) }, func(t *vk.T, m pb.Message, _ *types.RecordType, _ expr.ExtensionRegistry) {
			var x types.TypeParam
			if guard(t, "types.TypeParamFromProto", func() { x = types.TypeParamFromProto(m.(*proto.Type_Parameter)) }) && x != nil {
				inspect(t, x)
			}
		}},
		{"argument", func() pb.Message { return (*proto.FunctionArgument)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			var x types.FuncArg
			var err error
			if guard(t, "expr.FuncArgFromProto", func() { x, err = expr.FuncArgFromProto(m.(*proto.FunctionArgument), rt, reg) }) && outcome(t, err) {
				t.Check(x != nil, "FuncArgFromProto:nil", "neither an argument nor an error")
				inspect(t, x)
			}
		}},
		{"struct", func() pb.Message { return (*proto.Expression_Literal_Struct)(nil) }, func(t *vk.T, m pb.Message, _ *types.RecordType, _ expr.ExtensionRegistry) {
			var x expr.StructLiteralValue
			if guard(t, "expr.StructLiteralFromProto", func() { x = expr.StructLiteralFromProto(m.(*proto.Expression_Literal_Struct)) }) {
				inspect(t, x)
			}
		}},
		{"segment", func() pb.Message { return (*proto.Expression_ReferenceSegment)(nil) }, func(t *vk.T, m pb.Message, _ *types.RecordType, _ expr.ExtensionRegistry) {
			var x expr.ReferenceSegment
			if guard(t, "expr.RefSegmentFromProto", func() { x = expr.RefSegmentFromProto(m.(*proto.Expression_ReferenceSegment)) }) && x != nil {
				inspect(t, x)
			}
		}},
		{"mask", func() pb.Message { return (*proto.Expression_MaskExpression)(nil) }, func(t *vk.T, m pb.Message, _ *types.RecordType, _ expr.ExtensionRegistry) {
			var x *expr.MaskExpression
			if guard(t, "expr.MaskExpressionFromProto", func() { x = expr.MaskExpressionFromProto(m.(*proto.Expression_MaskExpression)) }) && x != nil {
				guard(t, "MaskExpression.ToProto", func() { x.ToProto() })
				inspect(t, x)
			}
		}},
		{"reference", func() pb.Message { return (*proto.Expression_FieldReference)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			var x *expr.FieldReference
			var err error
			if guard(t, "expr.FieldReferenceFromProto", func() {
				x, err = expr.FieldReferenceFromProto(m.(*proto.Expression_FieldReference), rt, reg)
			}) && outcome(t, err) {
				t.Check(x != nil, "FieldReferenceFromProto:nil", "neither a reference nor an error")
				inspect(t, x)
			}
		}},
		{"sort", func() pb.Message { return (*proto.SortField)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			var x expr.SortField
			var err error
			if guard(t, "expr.SortFieldFromProto", func() { x, err = expr.SortFieldFromProto(m.(*proto.SortField), rt, reg) }) && outcome(t, err) {
				guard(t, "SortField.ToProto", func() { x.ToProto() })
				inspect(t, &x)
			}
		}},
		{"bound", func() pb.Message { return (*proto.Expression_WindowFunction_Bound)(nil) }, func(t *vk.T, m pb.Message, _ *types.RecordType, _ expr.ExtensionRegistry) {
			var x expr.Bound
			if guard(t, "expr.BoundFromProto", func() { x = expr.BoundFromProto(m.(*proto.Expression_WindowFunction_Bound)) }) && x != nil {
				guard(t, "Bound.ToProto", func() { x.ToProto() })
				inspect(t, x)
			}
		}},
		{"aggregate", func() pb.Message { return (*proto.AggregateFunction)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			var x *expr.AggregateFunction
			var err error
			if guard(t, "expr.NewAggregateFunctionFromProto", func() {
				x, err = expr.NewAggregateFunctionFromProto(m.(*proto.AggregateFunction), rt, reg)
			}) && outcome(t, err) {
				t.Check(x != nil, "NewAggregateFunctionFromProto:nil", "neither a function nor an error")
				inspect(t, x)
			}
		}},
		{"expression", func() pb.Message { return (*proto.Expression)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			wreckedExpr(t, m.(*proto.Expression), rt, reg)
		}},
		{"literal", func() pb.Message { return (*proto.Expression_Literal)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			wreckedLit(t, m.(*proto.Expression_Literal))
		}},
		{"relation", func() pb.Message { return (*proto.Rel)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			wreckedRel(t, m.(*proto.Rel), reg)
		}},
		{"plan", func() pb.Message { return (*proto.Plan)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			wreckedPlan(t, m.(*proto.Plan))
		}},
		{"extended", func() pb.Message { return (*proto.ExtendedExpression)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			wreckedExtended(t, m.(*proto.ExtendedExpression))
		}},
		{"extensions", func() pb.Message { return (*proto.Plan)(nil) }, func(t *vk.T, m pb.Message, rt *types.RecordType, reg expr.ExtensionRegistry) {
			var x extensions.Set
			var err error
			if guard(t, "extensions.GetExtensionSet", func() {
				x, err = extensions.GetExtensionSet(m.(*proto.Plan), extensions.GetDefaultCollectionWithNoError())
			}) && outcome(t, err) {
				t.Check(x != nil, "GetExtensionSet:nil", "neither a set nor an error")
				guard(t, "Set.ToProto", func() { x.ToProto(extensions.GetDefaultCollectionWithNoError()) })
			}
		}},
	}
	c.ParSection("parts", c.Scale(20000, 1000000), func(t *vk.T) {
		r := t.R
		k := kinds[t.Index%len(kinds)]
		m := k.m()
		s := genSchema(r)
		rt := recordOf(s)
		d := genFnDecls(r)
		reg, err := d.reg()
		t.Must(err == nil, "reg", "%v", err)
		switch n := t.Index / len(kinds); {
		case n == 0: // nothing
		case n == 1:
			m = m.ProtoReflect().New().Interface()
		default:
			m = m.ProtoReflect().New().Interface()
			sparse(r, m.ProtoReflect(), 1+r.N(5))
			if r.P(1, 3) {
				wreck(r, m)
			}
			if r.P(1, 8) {
				rt = nil
			}
		}
		t.Desc = func() string {
			sh := "?"
			vk.Try(func() { sh = fmt.Sprint(m) })
			return k.name + "\n" + sh
		}
		t.Obs("part", k.name)
		k.run(t, m, rt, reg)
	})
}

// deep decodes messages nested many levels deep, whose decoding and reading
// must not take time that explodes with the depth.
func deep(c *vk.C) {
	c.Rule("deep: types, literals, expressions and relations nested up to hundreds of levels are decoded, encoded, copied and read; each has to finish within 60 s, as it does in well under one where the time grows with a power of the depth")
	lit := func() *proto.Expression {
		return &proto.Expression{RexType: &proto.Expression_Literal_{Literal: &proto.Expression_Literal{LiteralType: &proto.Expression_Literal_I32{I32: 1}, Nullable: true}}}
	}
	i32 := func() *proto.Type {
		return &proto.Type{Kind: &proto.Type_I32_{I32: &proto.Type_I32{Nullability: proto.Type_NULLABILITY_NULLABLE}}}
	}
	boolean := func() *proto.Expression {
		return &proto.Expression{RexType: &proto.Expression_Literal_{Literal: &proto.Expression_Literal{LiteralType: &proto.Expression_Literal_Boolean{Boolean: true}}}}
	}
	exprs := map[string]func(in *proto.Expression) *proto.Expression{
		"cast": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_Cast_{Cast: &proto.Expression_Cast{Type: i32(), Input: in}}}
		},
		"ifthen-then": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_IfThen_{IfThen: &proto.Expression_IfThen{Ifs: []*proto.Expression_IfThen_IfClause{{If: boolean(), Then: in}}, Else: lit()}}}
		},
		"ifthen-else": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_IfThen_{IfThen: &proto.Expression_IfThen{Ifs: []*proto.Expression_IfThen_IfClause{{If: boolean(), Then: lit()}}, Else: in}}}
		},
		"switch-match": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_SwitchExpression_{SwitchExpression: &proto.Expression_SwitchExpression{Match: in,
				Ifs: []*proto.Expression_SwitchExpression_IfValue{{If: lit().GetLiteral(), Then: lit()}}, Else: lit()}}}
		},
		"switch-then": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_SwitchExpression_{SwitchExpression: &proto.Expression_SwitchExpression{Match: lit(),
				Ifs: []*proto.Expression_SwitchExpression_IfValue{{If: lit().GetLiteral(), Then: in}}, Else: lit()}}}
		},
		"switch-else": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_SwitchExpression_{SwitchExpression: &proto.Expression_SwitchExpression{Match: lit(),
				Ifs: []*proto.Expression_SwitchExpression_IfValue{{If: lit().GetLiteral(), Then: lit()}}, Else: in}}}
		},
		"singular-list": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_SingularOrList_{SingularOrList: &proto.Expression_SingularOrList{Value: in, Options: []*proto.Expression{lit()}}}}
		},
		"nested-list": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_Nested_{Nested: &proto.Expression_Nested{NestedType: &proto.Expression_Nested_List_{List: &proto.Expression_Nested_List{Values: []*proto.Expression{in}}}}}}
		},
		"nested-struct": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_Nested_{Nested: &proto.Expression_Nested{NestedType: &proto.Expression_Nested_Struct_{Struct: &proto.Expression_Nested_Struct{Fields: []*proto.Expression{in}}}}}}
		},
		"nested-map": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_Nested_{Nested: &proto.Expression_Nested{NestedType: &proto.Expression_Nested_Map_{Map: &proto.Expression_Nested_Map{KeyValues: []*proto.Expression_Nested_Map_KeyValue{{Key: lit(), Value: in}}}}}}}
		},
		"root-reference": func(in *proto.Expression) *proto.Expression {
			one := &proto.Expression{RexType: &proto.Expression_Nested_{Nested: &proto.Expression_Nested{NestedType: &proto.Expression_Nested_Struct_{Struct: &proto.Expression_Nested_Struct{Fields: []*proto.Expression{in}}}}}}
			return &proto.Expression{RexType: &proto.Expression_Selection{Selection: &proto.Expression_FieldReference{
				ReferenceType: &proto.Expression_FieldReference_DirectReference{DirectReference: &proto.Expression_ReferenceSegment{ReferenceType: &proto.Expression_ReferenceSegment_StructField_{StructField: &proto.Expression_ReferenceSegment_StructField{}}}},
				RootType:      &proto.Expression_FieldReference_Expression{Expression: one}}}}
		},
		"subquery": func(in *proto.Expression) *proto.Expression {
			return &proto.Expression{RexType: &proto.Expression_Subquery_{Subquery: &proto.Expression_Subquery{SubqueryType: &proto.Expression_Subquery_InPredicate_{InPredicate: &proto.Expression_Subquery_InPredicate{
				Needles: []*proto.Expression{in}, Haystack: deepRead()}}}}}
		},
	}
	rels := map[string]func(in *proto.Rel) *proto.Rel{
		"filter": func(in *proto.Rel) *proto.Rel {
			return &proto.Rel{RelType: &proto.Rel_Filter{Filter: &proto.FilterRel{Input: in, Condition: boolean()}}}
		},
		"project": func(in *proto.Rel) *proto.Rel {
			return &proto.Rel{RelType: &proto.Rel_Project{Project: &proto.ProjectRel{Common: &proto.RelCommon{EmitKind: &proto.RelCommon_Emit_{Emit: &proto.RelCommon_Emit{OutputMapping: []int32{0}}}}, Input: in, Expressions: []*proto.Expression{lit()}}}}
		},
		"join-left": func(in *proto.Rel) *proto.Rel {
			return &proto.Rel{RelType: &proto.Rel_Join{Join: &proto.JoinRel{Left: in, Right: deepRead(), Type: proto.JoinRel_JOIN_TYPE_LEFT_SEMI, Expression: boolean()}}}
		},
		"set": func(in *proto.Rel) *proto.Rel {
			return &proto.Rel{RelType: &proto.Rel_Set{Set: &proto.SetRel{Inputs: []*proto.Rel{in, deepRead()}, Op: proto.SetRel_SET_OP_UNION_ALL}}}
		},
		"aggregate": func(in *proto.Rel) *proto.Rel {
			return &proto.Rel{RelType: &proto.Rel_Aggregate{Aggregate: &proto.AggregateRel{Input: in, GroupingExpressions: []*proto.Expression{lit()}, Groupings: []*proto.AggregateRel_Grouping{{ExpressionReferences: []uint32{0}}}}}}
		},
		"exists": func(in *proto.Rel) *proto.Rel {
			return &proto.Rel{RelType: &proto.Rel_Filter{Filter: &proto.FilterRel{Input: deepRead(), Condition: &proto.Expression{RexType: &proto.Expression_Subquery_{Subquery: &proto.Expression_Subquery{
				SubqueryType: &proto.Expression_Subquery_SetPredicate_{SetPredicate: &proto.Expression_Subquery_SetPredicate{PredicateOp: proto.Expression_Subquery_SetPredicate_PREDICATE_OP_EXISTS, Tuples: in}}}}}}}}
		},
	}
	type kase struct {
		name string
		run  func(t *vk.T, n int)
	}
	var ks []kase
	lim := func(t *vk.T, what string, n int, fn func()) {
		done := make(chan bool, 1)
		start := time.Now()
		go func() {
			defer func() { done <- true }()
			vk.Try(func() { guard(t, what, fn) }) // leaves the case when it stops
		}()
		select {
		case <-done:
			t.Check(time.Since(start) < 60*time.Second, "slow:"+what, "%d levels took %v", n, time.Since(start))
		case <-time.After(60 * time.Second):
			t.Failf("slow:"+what, "%d levels not finished after 60 s", n)
			t.Stop()
		}
	}
	names := func(m any) []string {
		var out []string
		for _, k := range reflect.ValueOf(m).MapKeys() {
			out = append(out, k.String())
		}
		sort.Strings(out)
		return out
	}
	reg := func() expr.ExtensionRegistry {
		g := expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())
		g.SetSubqueryConverter(&plan.ExpressionConverter{})
		return g
	}
	for _, k := range names(exprs) {
		f := exprs[k]
		ks = append(ks, kase{"expr:" + k, func(t *vk.T, n int) {
			e := lit()
			for i := 0; i < n; i++ {
				e = f(e)
			}
			lim(t, k, n, func() {
				x, err := expr.ExprFromProto(e, types.NewRecordTypeFromTypes(nil), reg())
				t.Must(err == nil, "rejected:"+k, "%v", err)
				x.ToProto()
				x.GetType()
				_ = x.String()
				x.Equals(x)
				x.IsScalar()
				x.Visit(func(e expr.Expression) expr.Expression { return e })
			})
		}})
	}
	for _, k := range names(rels) {
		f := rels[k]
		ks = append(ks, kase{"rel:" + k, func(t *vk.T, n int) {
			m := deepRead()
			for i := 0; i < n; i++ {
				m = f(m)
			}
			lim(t, k, n, func() {
				p := &proto.Plan{Version: &proto.Version{MinorNumber: 1}, Relations: []*proto.PlanRel{{RelType: &proto.PlanRel_Rel{Rel: m}}}}
				pl, err := plan.FromProto(p, extensions.GetDefaultCollectionWithNoError())
				t.Must(err == nil, "rejected:"+k, "%v", err)
				_, err = pl.ToProto()
				t.Must(err == nil, "ToProto:"+k, "%v", err)
				r := relsOf(pl)[0]
				rt := r.RecordType()
				t.Check(rt.FieldCount() == 1, "width:"+k, "%v", rt)
				_, err = r.Copy(r.GetInputs()...)
				t.Must(err == nil, "Copy:"+k, "%v", err)
			})
		}})
	}
	ks = append(ks, kase{"type:list", func(t *vk.T, n int) {
		ty := i32()
		for i := 0; i < n; i++ {
			ty = &proto.Type{Kind: &proto.Type_List_{List: &proto.Type_List{Type: ty}}}
		}
		lim(t, "list", n, func() {
			x, err := types.DecodeType(ty)
			t.Must(err == nil, "rejected:type", "%v", err)
			types.TypeToProto(x)
			_ = x.String()
			x.Equals(x)
		})
	}}, kase{"literal:list", func(t *vk.T, n int) {
		l := lit().GetLiteral()
		for i := 0; i < n; i++ {
			l = &proto.Expression_Literal{LiteralType: &proto.Expression_Literal_List_{List: &proto.Expression_Literal_List{Values: []*proto.Expression_Literal{l}}}}
		}
		lim(t, "literal", n, func() {
			x := expr.LiteralFromProto(l)
			t.Must(x != nil, "rejected:literal", "")
			x.ToProto()
			_ = x.String()
			x.Equals(x)
			x.GetType()
		})
	}})
	c.ParSection("deep", len(ks), func(t *vk.T) {
		k := ks[t.Index]
		t.Desc = func() string { return k.name }
		for _, n := range []int{1, 20, 40, 150, int(c.Scale(400, 1500))} {
			t.Obs(k.name, fmt.Sprint(n))
			k.run(t, n)
		}
	})
}

func deepRead() *proto.Rel {
	return &proto.Rel{RelType: &proto.Rel_Read{Read: &proto.ReadRel{
		BaseSchema: &proto.NamedStruct{Names: []string{"a"}, Struct: &proto.Type_Struct{Nullability: proto.Type_NULLABILITY_REQUIRED,
			Types: []*proto.Type{{Kind: &proto.Type_I32_{I32: &proto.Type_I32{Nullability: proto.Type_NULLABILITY_NULLABLE}}}}}},
		ReadType: &proto.ReadRel_NamedTable_{NamedTable: &proto.ReadRel_NamedTable{Names: []string{"t"}}}}}}
}

// genExtended makes an extended expression.
func genExtended(r *vk.R) *proto.ExtendedExpression {
	d := genFnDecls(r)
	s := genSchema(r)
	m := &proto.ExtendedExpression{ExtensionUrns: d.URNs, Extensions: d.Exts, BaseSchema: genNamed(r, s.Kids)}
	for n := r.N(3); n > 0; n-- {
		g := newXG(r, s, d)
		ref := &proto.ExpressionReference{OutputNames: []string{"a"}}
		if g.HasAggregate() && r.Bool() {
			f, _ := g.Aggregate(r.N(2), g.Type(1))
			ref.ExprType = &proto.ExpressionReference_Measure{Measure: f}
		} else {
			g.SubDepth = 0
			ref.ExprType = &proto.ExpressionReference_Expression{Expression: g.GenAny(r.N(3)).P}
		}
		m.ReferredExpr = append(m.ReferredExpr, ref)
	}
	return m
}
