package checks

import (
	"fmt"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/types"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif/harness/spec"
	"verif/harness/vk"
)

func init() { All["C06"] = c06 }

// replaced clones the message with some of its sub-messages replaced.
func replaced(m protoreflect.Message, by map[pb.Message]pb.Message) protoreflect.Message {
	if n, ok := by[m.Interface()]; ok {
		return n.ProtoReflect()
	}
	out := m.New()
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.Kind() != protoreflect.MessageKind || fd.IsMap():
			out.Set(fd, v)
		case fd.IsList():
			l := out.Mutable(fd).List()
			for i := 0; i < v.List().Len(); i++ {
				l.Append(protoreflect.ValueOfMessage(replaced(v.List().Get(i).Message(), by)))
			}
		default:
			out.Set(fd, protoreflect.ValueOfMessage(replaced(v.Message(), by)))
		}
		return true
	})
	return out
}

// visited lists the groups of operands that visiting presents. A reference is
// one leaf, with the expression it is rooted in.
func visited(x *spec.X) (out [][]*spec.X) {
	if x.P.GetSelection() != nil {
		return nil
	}
	for _, g := range x.Ops {
		if len(g) > 0 {
			out = append(out, g)
		}
	}
	return
}

func c06(c *vk.C) {
	c.Rule("visits: generated expressions of every kind, visited by visitors that record, that change nothing, that replace a random subset of the operands, and that walk the whole tree and replace one node anywhere in it; non-trivial = distinct (expression, replaced operands)")
	c.ParSection("visits", c.Scale(60000, 1000000), func(t *vk.T) {
		r := t.R
		d := genFnDecls(r)
		s := genSchema(r)
		g := newXG(r, s, d)
		depth := 1 + r.N(3)
		var x *spec.X
		if r.P(1, 6) {
			x = g.GenAny(depth)
		} else {
			x = g.Gen(depth, nil)
		}
		for tries := 0; len(x.Operands()) == 0 && tries < 5; tries++ {
			x = g.Gen(depth, nil)
		}
		t.Desc = func() string { return fmt.Sprintf("schema %s\n%v\n%v", s, d.Fns, x.P) }
		reg, err := d.reg()
		t.Must(err == nil, "declarations", "%v", err)
		rec := recordOf(s)
		e, err := expr.ExprFromProto(x.P, rec, reg)
		t.Must(err == nil, "decode:"+x.Kind, "%v", err)
		enc := e.ToProto()
		groups := visited(x)
		n := 0
		for _, gr := range groups {
			n += len(gr)
		}
		unchanged := func(what string) {
			t.Check(pb.Equal(e.ToProto(), enc), "modified:"+x.Kind, "%s changes the visited expression:\n%v", what, pdiff(enc, e.ToProto()))
		}

		t.Phase = "recording the operands of " + x.Kind
		var seen []*proto.Expression
		var out expr.Expression
		if !t.NoPanic("visit:"+x.Kind, func() {
			out = e.Visit(func(o expr.Expression) expr.Expression {
				if o == nil {
					seen = append(seen, nil)
				} else {
					seen = append(seen, o.ToProto())
				}
				return o
			})
		}) {
			return
		}
		t.Check(out == e, "identity:"+x.Kind, "a visitor that changes nothing gives another expression: %v", out)
		unchanged("recording")
		t.Check(len(seen) == n, "count:"+x.Kind, "%d operands presented, want %d\npresented: %v", len(seen), n, seen)
		at := make([]*spec.X, len(seen)) // the operand presented at each step
		rest := append([][]*spec.X(nil), groups...)
		for i := 0; i < len(seen) && len(seen) == n; {
			// the groups of a window function may come in any order
			found := -1
			for k, gr := range rest {
				ok := i+len(gr) <= len(seen)
				for j := range gr {
					ok = ok && pb.Equal(seen[i+j], gr[j].P)
				}
				if ok {
					found = k
					break
				}
			}
			if found < 0 {
				t.Failf("order:"+x.Kind, "presented operands are not the operands in order:\npresented: %v\nof: %v", seen[i:], x.P)
				return
			}
			for j, o := range rest[found] {
				at[i+j] = o
			}
			i += len(rest[found])
			rest = append(append([][]*spec.X(nil), rest[:found]...), rest[found+1:]...)
		}

		// operands that are alike in different groups cannot be told apart
		for i, gr := range groups {
			for _, o := range gr {
				for _, gr2 := range groups[i+1:] {
					for _, o2 := range gr2 {
						if pb.Equal(o.P, o2.P) {
							return
						}
					}
				}
			}
		}

		for round := 0; round < 3 && n > 0 && len(seen) == n; round++ {
			t.Phase = "replacing operands of " + x.Kind
			by := map[pb.Message]pb.Message{}
			mask := make([]bool, n)
			step := 0
			one := r.N(n)
			for i := range mask {
				mask[i] = i == one || round > 0 && r.P(1, 2)
			}
			repl := func(i int) expr.Literal { return expr.NewPrimitiveLiteral(int64(987650+i), false) }
			// what is no literal cannot take the place of the value of a case
			other := func(i int) expr.Expression {
				return &expr.Cast{Type: &types.Int64Type{}, Input: repl(i), FailureBehavior: types.BehaviorThrowException}
			}
			lit := r.P(2, 3)
			for i, o := range at {
				if mask[i] && !lit {
					by[o.P] = other(i).ToProto()
				} else if mask[i] {
					by[o.P] = repl(i).ToProto()
					if l := o.P.GetLiteral(); l != nil {
						by[l] = repl(i).ToProtoLiteral()
					}
				}
			}
			want := replaced(x.P.ProtoReflect(), by).Interface()
			if !t.NoPanic("visit:"+x.Kind, func() {
				out = e.Visit(func(o expr.Expression) expr.Expression {
					i := step
					step++
					if i < n && mask[i] && !lit {
						return other(i)
					}
					if i < n && mask[i] {
						return repl(i)
					}
					return o
				})
			}) {
				return
			}
			t.Check(step == n, "count-again:"+x.Kind, "%d operands presented when replacing, %d when not", step, n)
			if out == nil {
				t.Failf("replaced-nil:"+x.Kind, "replacing operands gives no expression")
				return
			}
			t.NoPanic("replaced-encode:"+x.Kind, func() {
				t.Check(pb.Equal(out.ToProto(), want), "replaced:"+x.Kind, "replacing operands %v gives something else:\n%v\nof %v", mask, pdiff(want, out.ToProto()), x.P)
			})
			unchanged("replacing")
			t.Obs(x.P.String(), fmt.Sprint(mask), lit)
		}

		// over the whole tree
		t.Phase = "walking " + x.Kind
		var nodes []*spec.X
		var collect func(o *spec.X)
		collect = func(o *spec.X) {
			nodes = append(nodes, o)
			for _, gr := range visited(o) {
				for _, k := range gr {
					collect(k)
				}
			}
		}
		collect(x)
		want := map[string]int{}
		for _, o := range nodes {
			want[string(mustWire(o.P))]++
		}
		total := 0
		var walk expr.VisitFunc
		walk = func(o expr.Expression) expr.Expression {
			total++
			want[string(mustWire(o.ToProto()))]--
			return o.Visit(walk)
		}
		t.NoPanic("walk:"+x.Kind, func() { out = walk(e) })
		t.Check(out == e, "walk-identity:"+x.Kind, "walking without changes gives another expression")
		t.Check(total == len(nodes), "walk-count:"+x.Kind, "%d expressions walked, want %d", total, len(nodes))
		for k, v := range want {
			if v != 0 {
				var p proto.Expression
				_ = pb.Unmarshal([]byte(k), &p)
				t.Failf("walk-nodes:"+x.Kind, "%v is walked %+d times too often", &p, -v)
				break
			}
		}
		target := vk.Pick(r, nodes[len(nodes)/2:])
		if target == x {
			return
		}
		mark := expr.NewPrimitiveLiteral(int64(123456), false)
		key := string(mustWire(target.P))
		by := map[pb.Message]pb.Message{}
		for _, o := range nodes {
			if string(mustWire(o.P)) == key {
				by[o.P] = mark.ToProto()
				if l := o.P.GetLiteral(); l != nil {
					by[l] = mark.ToProtoLiteral()
				}
			}
		}
		post := r.Bool()
		walk = func(o expr.Expression) expr.Expression {
			if post {
				p := o.ToProto()
				o = o.Visit(walk)
				if string(mustWire(p)) == key {
					return mark
				}
				return o
			}
			if string(mustWire(o.ToProto())) == key {
				return mark
			}
			return o.Visit(walk)
		}
		if string(mustWire(x.P)) == key {
			return
		}
		w := replaced(x.P.ProtoReflect(), by).Interface()
		t.NoPanic("walk:"+x.Kind, func() {
			out = e.Visit(walk)
			t.Check(pb.Equal(out.ToProto(), w), "walk-replaced:"+target.Kind, "replacing %v in the tree gives something else:\n%v\nof %v", target.P, pdiff(w, out.ToProto()), x.P)
		})
		unchanged("walking")
	})
}

func mustWire(m pb.Message) []byte {
	b, err := pb.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}
