package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	extpb "github.com/substrait-io/substrait-protobuf/go/substraitpb/extensions"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif/harness/spec"
	"verif/harness/vk"
)

// decls is a generated set of extension declarations.
type decls struct {
	Fns  []spec.FnDecl
	URNs []*extpb.SimpleExtensionURN
	Exts []*extpb.SimpleExtensionDeclaration
}

var fnPool struct {
	sync.Once
	by   [3][]extensions.FunctionVariant
	urns []string
}

func loadFnPool() {
	fnPool.Do(func() {
		seen := map[string]bool{}
		for _, v := range bundled() {
			switch v.(type) {
			case *extensions.ScalarFunctionVariant:
				fnPool.by[0] = append(fnPool.by[0], v)
			case *extensions.AggregateFunctionVariant:
				fnPool.by[1] = append(fnPool.by[1], v)
			case *extensions.WindowFunctionVariant:
				fnPool.by[2] = append(fnPool.by[2], v)
			}
			if !seen[v.URN()] {
				seen[v.URN()] = true
				fnPool.urns = append(fnPool.urns, v.URN())
			}
		}
		sort.Strings(fnPool.urns)
	})
}

// genDecls declares some functions of each kind: functions of the collection
// and functions it does not have, under anchors in no particular order.
func genFnDecls(r *vk.R) *decls {
	loadFnPool()
	d := &decls{}
	urnAnchor := map[string]uint32{}
	used := map[uint32]bool{}
	anchor := func() uint32 {
		for {
			a := vk.PickOf(r, uint32(r.N(6)), uint32(r.N(40)), uint32(r.N(1<<20)), 1<<31+uint32(r.N(4)))
			if !used[a] {
				used[a] = true
				return a
			}
		}
	}
	usedFn := map[uint32]bool{}
	names := map[string]bool{}
	for kind := 0; kind < 3; kind++ {
		for i, n := 0, 1+r.N(3); i < n; i++ {
			f := spec.FnDecl{Kind: kind}
			if r.P(1, 3) {
				f.URN = vk.Pick(r, fnPool.urns)
				f.Name = fmt.Sprintf("%s%d%s", vk.PickOf(r, "custom", "my_fn", "add", "UPPER"), r.N(9), vk.PickOf(r, "", "", ":", ":i32", ":i32_str", ":any", ":any1_any1", ":req", ":list", ":u!point_i8", ":dec_pts", ":vchar_fchar_fbin", ":iday_iyear_icompound", ":func_any", ":struct_map", ":bogus"))
			} else {
				v := vk.Pick(r, fnPool.by[kind])
				f.URN, f.Name, f.Known = v.URN(), v.CompoundName(), true
			}
			if names[f.URN+"\x00"+f.Name] {
				continue
			}
			names[f.URN+"\x00"+f.Name] = true
			for {
				f.Anchor = vk.PickOf(r, uint32(r.N(5)), uint32(r.N(1000)), 1<<32-1-uint32(r.N(3)))
				if !usedFn[f.Anchor] {
					usedFn[f.Anchor] = true
					break
				}
			}
			u, ok := urnAnchor[f.URN]
			if !ok {
				u = anchor()
				urnAnchor[f.URN] = u
				d.URNs = append(d.URNs, &extpb.SimpleExtensionURN{ExtensionUrnAnchor: u, Urn: f.URN})
			}
			d.Fns = append(d.Fns, f)
			d.Exts = append(d.Exts, &extpb.SimpleExtensionDeclaration{MappingType: &extpb.SimpleExtensionDeclaration_ExtensionFunction_{
				ExtensionFunction: &extpb.SimpleExtensionDeclaration_ExtensionFunction{ExtensionUrnReference: u, FunctionAnchor: f.Anchor, Name: f.Name}}})
		}
	}
	return d
}

// reg is a registry over the declarations that can also decode subqueries.
func (d *decls) reg() (expr.ExtensionRegistry, error) {
	c := extensions.GetDefaultCollectionWithNoError()
	set, err := extensions.GetExtensionSet(&proto.Plan{ExtensionUrns: d.URNs, Extensions: d.Exts}, c)
	if err != nil {
		return expr.ExtensionRegistry{}, err
	}
	reg := expr.NewExtensionRegistry(set, c)
	reg.SetSubqueryConverter(&plan.ExpressionConverter{ExtensionRegistry: reg})
	return reg, nil
}

func sortDecls(us []*extpb.SimpleExtensionURN, es []*extpb.SimpleExtensionDeclaration) {
	sort.SliceStable(us, func(i, j int) bool { return us[i].ExtensionUrnAnchor < us[j].ExtensionUrnAnchor })
	key := func(e *extpb.SimpleExtensionDeclaration) string {
		switch m := e.MappingType.(type) {
		case *extpb.SimpleExtensionDeclaration_ExtensionFunction_:
			return fmt.Sprintf("f%010d", m.ExtensionFunction.FunctionAnchor)
		case *extpb.SimpleExtensionDeclaration_ExtensionType_:
			return fmt.Sprintf("t%010d", m.ExtensionType.TypeAnchor)
		case *extpb.SimpleExtensionDeclaration_ExtensionTypeVariation_:
			return fmt.Sprintf("v%010d", m.ExtensionTypeVariation.TypeVariationAnchor)
		}
		return ""
	}
	sort.SliceStable(es, func(i, j int) bool { return key(es[i]) < key(es[j]) })
}

// genSchema makes an input record type with a few columns.
func genSchema(r *vk.R) *spec.TS {
	g := &spec.XG{R: r}
	s := &spec.TS{K: spec.Struct, N: types.NullabilityRequired}
	for i, n := 0, r.N(6); i < n; i++ {
		s.Kids = append(s.Kids, g.Type(3))
	}
	return s
}

func recordOf(s *spec.TS) *types.RecordType {
	if s == nil {
		return nil
	}
	return types.NewRecordTypeFromStruct(*(s.Go().(*types.StructType)))
}

// nameCount is the number of names a named struct with these columns needs.
func nameCount(ts []*spec.TS) int {
	n := 0
	for _, t := range ts {
		n++
		n += innerNames(t)
	}
	return n
}

func innerNames(t *spec.TS) int {
	switch t.K {
	case spec.Struct:
		return nameCount(t.Kids)
	case spec.List:
		return innerNames(t.Kids[0])
	case spec.Map:
		return innerNames(t.Kids[0]) + innerNames(t.Kids[1])
	}
	return 0
}

// genNamed makes a named struct over the columns.
func genNamed(r *vk.R, ts []*spec.TS) *proto.NamedStruct {
	n := &proto.NamedStruct{Struct: &proto.Type_Struct{Nullability: proto.Type_NULLABILITY_REQUIRED, Types: spec.Protos(ts)}}
	for i, m := 0, nameCount(ts); i < m; i++ {
		n.Names = append(n.Names, fmt.Sprintf("c%d%s", i, vk.PickOf(r, "", "", "_x", "é")))
	}
	return n
}

// tableSub is a subquery source: a read of a named table.
func tableSub(g *spec.XG, cols int) (*proto.Rel, []*spec.TS) {
	if cols < 0 {
		cols = 1 + g.R.N(3)
	}
	var ts []*spec.TS
	for i := 0; i < cols; i++ {
		ts = append(ts, g.Type(1))
	}
	return &proto.Rel{RelType: &proto.Rel_Read{Read: &proto.ReadRel{
		Common:     &proto.RelCommon{EmitKind: &proto.RelCommon_Direct_{Direct: &proto.RelCommon_Direct{}}},
		BaseSchema: genNamed(g.R, ts),
		ReadType:   &proto.ReadRel_NamedTable_{NamedTable: &proto.ReadRel_NamedTable{Names: []string{fmt.Sprintf("t%d", g.R.N(9))}}}}}}, ts
}

// newXG is an expression generator over a schema and declarations.
func newXG(r *vk.R, s *spec.TS, d *decls) *spec.XG {
	return &spec.XG{R: r, Schema: s, Fns: d.Fns, Sub: tableSub, SubDepth: 1}
}

// specialFloat says whether a message holds NaNs or negative zeros, whose
// equality is not the equality of their encodings.
func specialFloat(m protoreflect.Message) bool {
	found := false
	one := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) {
		switch fd.Kind() {
		case protoreflect.FloatKind, protoreflect.DoubleKind:
			f := v.Float()
			if f == 0 || math.IsNaN(f) {
				found = true
			}
		case protoreflect.MessageKind:
			if specialFloat(v.Message()) {
				found = true
			}
		}
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				one(fd, v.List().Get(i))
			}
		default:
			one(fd, v)
		}
		return !found
	})
	return found
}

func kindsOf(x *spec.X) (out []string) {
	seen := map[string]bool{}
	x.Walk(func(o *spec.X) {
		if !seen[o.Kind] {
			seen[o.Kind] = true
			out = append(out, o.Kind)
		}
	})
	sort.Strings(out)
	return
}

// proto typed shape, for keys: the kinds in the tree, root first
func keyOf(x *spec.X) string { return x.Kind }

func wire(m pb.Message, into pb.Message) error {
	b, err := pb.Marshal(m)
	if err != nil {
		return err
	}
	return pb.Unmarshal(b, into)
}

var _ = strings.Join
