package checks

import (
	"fmt"
	"strings"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C03"] = c03 }

// smallestBad finds the deepest sub-expression for which bad holds.
func smallestBad(x *spec.X, bad func(*spec.X) bool) *spec.X {
	for {
		next := (*spec.X)(nil)
		for _, o := range x.Operands() {
			if bad(o) {
				next = o
				break
			}
		}
		if next == nil {
			return x
		}
		x = next
	}
}

func c03(c *vk.C) {
	c.Rule("roundtrip: generated expression trees of every supported kind, over a generated schema and extension declarations; decoded (from the message and its wire bytes), typed, encoded, decoded again; non-trivial = distinct tree with at least one operator")
	c.Rule("extended: generated extended expressions (expressions and measures); parts: sort fields, aggregates and function arguments through their own decoders")
	c.ParSection("roundtrip", c.Scale(60000, 1000000), func(t *vk.T) {
		r := t.R
		d := genFnDecls(r)
		s := genSchema(r)
		g := newXG(r, s, d)
		depth := 1 + r.N(3)
		var x *spec.X
		if r.P(1, 6) {
			x = g.GenAny(depth)
		} else {
			x = g.Gen(depth, nil)
		}
		t.Desc = func() string { return fmt.Sprintf("schema %s\n%v\n%v", s, d.Fns, x.P) }
		reg, err := d.reg()
		t.Must(err == nil, "declarations", "%v", err)
		rec := recordOf(s)
		dec := func(p *proto.Expression) (e expr.Expression, err error) {
			if pn, st := vk.Try(func() { e, err = expr.ExprFromProto(p, rec, reg) }); pn != nil {
				return nil, fmt.Errorf("panic: %v %s", pn, st)
			}
			return
		}
		same := func(o *spec.X) (why string) {
			e, err := dec(o.P)
			if err != nil {
				return "decoding: " + err.Error()
			}
			var q *proto.Expression
			if pn, st := vk.Try(func() { q = e.ToProto() }); pn != nil {
				return fmt.Sprintf("encoding panics: %v %s", pn, st)
			}
			if !pb.Equal(q, o.P) {
				return "re-encoding differs:\n" + pdiff(o.P, q).String()
			}
			return ""
		}
		t.Phase = "round trip"
		if why := same(x); why != "" {
			b := smallestBad(x, func(o *spec.X) bool { return same(o) != "" })
			why = same(b)
			t.Failf("roundtrip:"+b.Kind+":"+strings.SplitN(why, ":", 2)[0], "%s\nfor %v", why, b.P)
			return
		}
		var w proto.Expression
		t.Must(wire(x.P, &w) == nil, "wire", "wire")
		e1, err := dec(x.P)
		t.Must(err == nil, "decode", "%v", err)
		e2, err := dec(&w)
		t.Must(err == nil, "decode-wire", "%v", err)
		e3, err := dec(e1.ToProto())
		t.Must(err == nil, "decode-again:"+x.Kind, "%v", err)
		sub := hasSub(x)
		if !specialFloat(x.P.ProtoReflect()) {
			for i, p := range [][2]expr.Expression{{e1, e1}, {e1, e2}, {e2, e1}, {e1, e3}, {e3, e1}} {
				if t.NoPanic("Equals of "+x.Kind, func() {
					// subqueries are compared by the identity of their relations
					t.Check(p[0].Equals(p[1]) || sub && i > 0, fmt.Sprintf("equal:%v", x.Kind), "pair %d: decoding again gives an unequal expression: %v vs %v", i, p[0], p[1])
				}) {
				}
			}
		}
		t.Check(pb.Equal(e1.ToProtoFuncArg().GetValue(), x.P), "funcarg:"+x.Kind, "ToProtoFuncArg differs")
		if x.T != nil {
			typeBad := func(o *spec.X) string {
				if o.T == nil {
					return ""
				}
				e, _ := dec(o.P)
				var got types.Type
				if pn, st := vk.Try(func() { got = e.GetType() }); pn != nil {
					return fmt.Sprintf("GetType panics: %v %s", pn, st)
				}
				if got == nil {
					return "no type, want " + o.T.Full()
				}
				if !pb.Equal(types.TypeToProto(got), o.T.Proto()) {
					return fmt.Sprintf("type %v, want %s", got, o.T.Full())
				}
				return ""
			}
			if why := typeBad(x); why != "" {
				b := smallestBad(x, func(o *spec.X) bool { return typeBad(o) != "" })
				t.Failf("type:"+b.Kind, "%s\nfor %v", typeBad(b), b.P)
			}
			t.Check(e3.GetType() != nil && e1.GetType().Equals(e3.GetType()), "type-again:"+x.Kind, "type changes from %v to %v", e1.GetType(), e3.GetType())
		}
		t.NoPanic("String of "+x.Kind, func() {
			s1, s3 := e1.String(), e3.String()
			t.Check(s1 == s3 || sub, "string:"+x.Kind, "%q vs %q", e1, e3)
		})
		t.NoPanic("IsScalar of "+x.Kind, func() { t.Check(e1.IsScalar() == e3.IsScalar(), "isscalar", "IsScalar changes") })
		if len(x.Operands()) > 0 {
			t.Obs(strings.Join(kindsOf(x), " "), x.P.String())
		}
		t.Sample("%v", x.P)
	})
	c.ParSection("extended", c.Scale(12000, 200000), func(t *vk.T) {
		r := t.R
		d := genFnDecls(r)
		s := genSchema(r)
		g := newXG(r, s, d)
		g.Sub = nil // extended expressions have no subquery converter
		m := &proto.ExtendedExpression{ExtensionUrns: d.URNs, Extensions: d.Exts, BaseSchema: genNamed(r, s.Kids)}
		if r.P(3, 4) {
			m.Version = &proto.Version{MajorNumber: uint32(r.N(3)), MinorNumber: uint32(r.N(90)), PatchNumber: uint32(r.N(3)), Producer: vk.PickOf(r, "", "verif"), GitHash: vk.PickOf(r, "", "0123456789abcdef0123456789abcdef01234567")}
		}
		if r.P(1, 3) {
			a, _ := anypb.New(&proto.Type_Boolean{Nullability: 1})
			m.AdvancedExtensions = &extpb.AdvancedExtension{Optimization: []*anypb.Any{a}, Enhancement: a}
		}
		for i, n := 0, r.N(3); i < n; i++ {
			m.ExpectedTypeUrls = append(m.ExpectedTypeUrls, fmt.Sprintf("type.example/%d", i))
		}
		var outs []*spec.TS
		for i, n := 0, r.N(4); i < n; i++ {
			ref := &proto.ExpressionReference{}
			var ty *spec.TS
			if a, _ := g.Aggregate(2, g.Type(1)); a != nil && r.P(1, 3) {
				ref.ExprType = &proto.ExpressionReference_Measure{Measure: a}
				ty = spec.FromProto(a.OutputType)
			} else {
				x := g.Gen(1+r.N(2), nil)
				ref.ExprType = &proto.ExpressionReference_Expression{Expression: x.P}
				ty = x.T
			}
			outs = append(outs, ty)
			for j, k := 0, nameCount([]*spec.TS{ty}); j < k; j++ {
				ref.OutputNames = append(ref.OutputNames, fmt.Sprintf("o%d", j))
			}
			m.ReferredExpr = append(m.ReferredExpr, ref)
		}
		t.Desc = func() string { return m.String() }
		t.Phase = "extended expression"
		col := extensions.GetDefaultCollectionWithNoError()
		want := pb.Clone(m).(*proto.ExtendedExpression)
		e, err := expr.ExtendedFromProto(m, col)
		t.Must(err == nil, "extended-decode", "%v", err)
		q := e.ToProto()
		sortDecls(want.ExtensionUrns, want.Extensions)
		sortDecls(q.ExtensionUrns, q.Extensions)
		t.Check(pb.Equal(want, q), "extended-roundtrip", "re-encoding differs:\n%v", pdiff(want, q))
		e2, err := expr.ExtendedFromProto(q, col)
		t.Must(err == nil, "extended-decode-again", "%v", err)
		q2 := e2.ToProto()
		sortDecls(q2.ExtensionUrns, q2.Extensions)
		t.Check(pb.Equal(q2, q), "extended-stable", "second re-encoding differs:\n%v", pdiff(q, q2))
		t.Check(len(e.ReferredExpr) == len(outs), "extended-count", "%d expressions", len(e.ReferredExpr))
		for i := range e.ReferredExpr {
			ref := &e.ReferredExpr[i]
			var ty types.Type
			if a := ref.GetMeasure(); a != nil {
				ty = a.GetType()
				t.NoPanic("aggregate accessors", func() { aggregateAccessors(t, a, m.ReferredExpr[i].GetMeasure(), d) })
			} else {
				ty = ref.GetExpr().GetType()
			}
			t.Check(ty != nil && pb.Equal(types.TypeToProto(ty), outs[i].Proto()), "extended-type", "type %v, want %s", ty, outs[i])
		}
		t.Obs(m.String())
	})
	c.Rule("masks: decoded masks over types of every shape, read through their accessors; references: those of extended expressions made with the constructors and setters; non-trivial = masks, kinds")
	c.ParSection("masks", c.Scale(15000, 300000), masks)
	c.ParSection("references", c.Scale(8000, 100000), references)
	c.ParSection("accessors", c.Scale(20000, 300000), func(t *vk.T) {
		r := t.R
		d := genFnDecls(r)
		s := genSchema(r)
		g := newXG(r, s, d)
		var x *spec.X
		for x == nil || x.P.GetScalarFunction() == nil && x.P.GetWindowFunction() == nil && x.P.GetSwitchExpression() == nil && x.P.GetIfThen() == nil {
			x = g.Gen(2, g.Type(0))
		}
		t.Desc = func() string { return fmt.Sprintf("schema %s\n%v\n%v", s, d.Fns, x.P) }
		reg, err := d.reg()
		t.Must(err == nil, "declarations", "%v", err)
		e, err := expr.ExprFromProto(x.P, recordOf(s), reg)
		t.Must(err == nil, "decode:"+x.Kind, "%v", err)
		t.Phase = "accessors of " + x.Kind
		t.NoPanic("accessors of "+x.Kind, func() {
			switch f := e.(type) {
			case *expr.ScalarFunction:
				p := x.P.GetScalarFunction()
				fnAccessors(t, "scalar", f, p.FunctionReference, p.Options, p.Arguments, f.NArgs(), f.Arg, d)
				t.Check(f.FuncRef() == p.FunctionReference, "funcref", "FuncRef %d, want %d", f.FuncRef(), p.FunctionReference)
				for _, o := range p.Options {
					t.Check(fmt.Sprint(f.GetOption(o.Name)) == fmt.Sprint(firstOption(p.Options, o.Name)), "getoption", "GetOption(%s) gives %v", o.Name, f.GetOption(o.Name))
				}
			case *expr.WindowFunction:
				p := x.P.GetWindowFunction()
				fnAccessors(t, "window", f, p.FunctionReference, p.Options, p.Arguments, f.NArgs(), f.Arg, d)
				t.Check(f.Phase() == p.Phase && f.Invocation() == p.Invocation && f.BoundsType == p.BoundsType, "window-fields", "phase %v invocation %v bounds %v", f.Phase(), f.Invocation(), f.BoundsType)
				t.Check(len(f.Partitions) == len(p.Partitions) && len(f.Sorts) == len(p.Sorts), "window-lists", "%d partitions, %d sorts", len(f.Partitions), len(f.Sorts))
			case *expr.SwitchExpr:
				p := x.P.GetSwitchExpression()
				t.Check(f.NCases() == len(p.Ifs) && pb.Equal(f.MatchExpr().ToProto(), p.Match), "switch-fields", "%d cases", f.NCases())
				for i := range p.Ifs {
					t.Check(pb.Equal(f.Case(i).If.ToProtoLiteral(), p.Ifs[i].GetIf()) && pb.Equal(f.Case(i).Then.ToProto(), p.Ifs[i].Then), "switch-case", "case %d", i)
				}
				t.Check((f.Else() == nil) == (p.Else == nil) && (p.Else == nil || pb.Equal(f.Else().ToProto(), p.Else)), "switch-else", "else %v", f.Else())
			case *expr.IfThen:
				p := x.P.GetIfThen()
				t.Check(f.NIfs() == len(p.Ifs) && pb.Equal(f.Else().ToProto(), p.Else), "ifthen-fields", "%d ifs", f.NIfs())
				for i := range p.Ifs {
					t.Check(pb.Equal(f.IfPair(i).If.ToProto(), p.Ifs[i].If) && pb.Equal(f.IfPair(i).Then.ToProto(), p.Ifs[i].Then), "ifthen-pair", "pair %d", i)
				}
			}
		})
		t.Obs(x.P.String())
	})
}

// hasSub says whether there is a subquery in the expression.
func hasSub(x *spec.X) (found bool) {
	x.Walk(func(o *spec.X) {
		found = found || o.P.GetSubquery() != nil
	})
	return
}

func firstOption(os []*proto.FunctionOption, name string) []string {
	for _, o := range os {
		if o.Name == name {
			return o.Preference
		}
	}
	return nil
}

func (d *decls) byAnchor(a uint32) *spec.FnDecl {
	for i := range d.Fns {
		if d.Fns[i].Anchor == a {
			return &d.Fns[i]
		}
	}
	return nil
}

// fnAccessors checks that a decoded function call says what the message says.
func fnAccessors(t *vk.T, kind string, f expr.FunctionInvocation, ref uint32, opts []*proto.FunctionOption, args []*proto.FunctionArgument, n int, arg func(int) types.FuncArg, d *decls) {
	fd := d.byAnchor(ref)
	t.Check(f.ID() == (extensions.FunctionID{URN: fd.URN, Name: fd.Name}), kind+"-id", "ID is %v, want %v (known %v)", f.ID(), *fd, fd.Known)
	t.Check(f.CompoundName() == fd.Name, kind+"-compound-name", "CompoundName is %q, want %q (known %v)", f.CompoundName(), fd.Name, fd.Known)
	if nm, ok := f.(interface{ Name() string }); ok {
		t.Check(nm.Name() == strings.SplitN(fd.Name, ":", 2)[0], kind+"-name", "Name is %q of %q", nm.Name(), fd.Name)
	}
	got := f.GetOptions()
	ok := len(got) == len(opts)
	for i := range opts {
		ok = ok && pb.Equal(got[i], opts[i])
	}
	t.Check(ok, kind+"-options", "options %v, want %v", got, opts)
	t.Check(n == len(args), kind+"-nargs", "%d arguments, want %d", n, len(args))
	ats := f.GetArgTypes()
	t.Check(len(ats) == len(args), kind+"-argtypes", "%d argument types", len(ats))
	for i := range args {
		t.Check(pb.Equal(arg(i).ToProtoFuncArg(), args[i]), kind+"-arg", "argument %d differs", i)
		switch a := arg(i).(type) {
		case types.Enum:
			t.Check(ats[i] == types.CommonEnumType, kind+"-argtype-enum", "argument %d has type %v", i, ats[i])
		case types.Type:
			t.Check(ats[i] != nil && ats[i].Equals(a), kind+"-argtype-type", "argument %d has type %v", i, ats[i])
		case expr.Expression:
			if at := a.GetType(); at != nil {
				t.Check(ats[i] != nil && ats[i].Equals(at), kind+"-argtype", "argument %d has type %v, want %v", i, ats[i], at)
			}
		}
	}
}

func aggregateAccessors(t *vk.T, a *expr.AggregateFunction, p *proto.AggregateFunction, d *decls) {
	fnAccessors(t, "aggregate", a, p.FunctionReference, p.Options, p.Arguments, a.NArgs(), a.Arg, d)
	t.Check(a.Phase() == p.Phase && a.Invocation() == p.Invocation && len(a.Sorts) == len(p.Sorts), "aggregate-fields", "phase %v invocation %v", a.Phase(), a.Invocation())
	_ = a.String()
	cl := a.Clone()
	t.Check(pb.Equal(cl.ToProto(), p), "aggregate-clone", "clone encodes differently:\n%v", pdiff(p, cl.ToProto()))
	if a.NArgs() > 0 {
		cl.SetArg(0, types.Enum("other"))
		t.Check(pb.Equal(a.ToProto(), p), "aggregate-clone-shares", "changing an argument of the clone changes the original")
	}
}
