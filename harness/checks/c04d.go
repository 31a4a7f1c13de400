package checks

import (
	"errors"
	"fmt"
	"sync"

	"github.com/substrait-io/substrait-go/v8/expr"
	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/plan"
	proto "github.com/substrait-io/substrait-protobuf/go/substraitpb"
	pb "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"

	"verif/harness/spec"
	"verif/harness/vk"
)

// extDetails calls fn for the detail of every extension relation of a message,
// those in subqueries too.
func extDetails(m protoreflect.Message, fn func(kind string, d *anypb.Any)) {
	switch x := m.Interface().(type) {
	case *anypb.Any:
		return
	case *proto.ExtensionLeafRel:
		fn("leaf", x.Detail)
	case *proto.ExtensionSingleRel:
		fn("single", x.Detail)
	case *proto.ExtensionMultiRel:
		fn("multi", x.Detail)
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap() || fd.Message() == nil:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				extDetails(v.List().Get(i).Message(), fn)
			}
		default:
			extDetails(v.Message(), fn)
		}
		return true
	})
}

var errDecoder = errors.New("this detail is refused")

// recDecoder records what it is asked to decode.
type recDecoder struct {
	mu    sync.Mutex
	seen  map[string]bool
	defs  map[any]bool
	fails string // the detail that is refused
	wrong string // the detail that becomes something else
	value any    // this
}

func (d *recDecoder) DecodeExtensionRel(a *anypb.Any) (any, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	k := det(a)
	d.seen[k] = true
	if d.fails != "" && d.fails == k {
		return nil, errDecoder
	}
	if d.wrong != "" && d.wrong == k {
		return d.value, nil
	}
	def, err := knownRel{}.DecodeExtensionRel(a)
	d.defs[def] = true
	return def, err
}

// definitions lists those of the extension relations of a tree.
func definitions(rel plan.Rel, out *[]plan.ExtensionRelDefinition) {
	switch x := rel.(type) {
	case *plan.ExtensionLeafRel:
		*out = append(*out, x.Definition())
	case *plan.ExtensionSingleRel:
		*out = append(*out, x.Definition())
	case *plan.ExtensionMultiRel:
		*out = append(*out, x.Definition())
	}
	for _, i := range rel.GetInputs() {
		definitions(i, out)
	}
}

// decoders sees that the details of extension relations reach the decoder that is
// registered for their type URL, and that what it says is what counts.
func decoders(t *vk.T) {
	r := t.R
	x := genPlan(r, func(g *spec.PG) {
		c04tune(g)
		g.NoGuess = true
	})
	x.P = pb.Clone(x.P).(*proto.Plan) // without sharing
	urls := []string{spec.KnownExt, spec.KnownExt + "2", "x"}
	want := map[string]map[string]bool{}
	var all []string
	types := map[string]string{}
	kinds := map[string]bool{}
	extDetails(x.P.ProtoReflect(), func(kind string, d *anypb.Any) {
		if d.GetTypeUrl() != spec.KnownExt {
			t.Failf("generator", "an extension of type %q", d.GetTypeUrl())
		}
		orig := det(d)
		if types[orig] == "" {
			types[orig] = vk.Pick(r, urls)
		}
		d.TypeUrl = types[orig] // the same in the two forms of a join key
		if want[d.TypeUrl] == nil {
			want[d.TypeUrl] = map[string]bool{}
		}
		k := det(d)
		want[d.TypeUrl][k] = true
		all = append(all, k)
		kinds[kind] = true
	})
	if len(all) == 0 {
		return
	}
	mode := vk.PickOf(r, "good", "good", "fails", "wrong", "unregistered")
	t.Phase = mode
	t.Desc = func() string { return fmt.Sprintf("%s\n%v", mode, x.P) }
	bad, value := "", vk.PickOf[any](r, nil, "text", 12, struct{}{}, knownRel{}, (*anypb.Any)(nil), []plan.ExtensionRelDefinition{&knownDef{}}, knownDef{})
	if mode == "fails" || mode == "wrong" {
		bad = vk.Pick(r, all)
	}
	recs := map[string]expr.ExtensionRelDecoder{}
	for _, u := range urls {
		d := &recDecoder{seen: map[string]bool{}, defs: map[any]bool{}}
		if mode == "fails" {
			d.fails = bad
		} else if mode == "wrong" {
			d.wrong, d.value = bad, value
		}
		recs[u] = d
	}
	if mode == "unregistered" {
		// as it is, every one is decoded as an extension of unknown columns
		u := vk.Pick(r, urls)
		recs = map[string]expr.ExtensionRelDecoder{u + "/": recs[u], u[1:]: recs[u], "": recs[u]}
	}
	var pl *plan.Plan
	var err error
	if !t.NoPanic("decode", func() {
		pl, err = plan.FromProtoWithDecoder(x.P, extensions.GetDefaultCollectionWithNoError(), recs)
	}) {
		return
	}
	for u, d := range recs {
		for k := range d.(*recDecoder).seen {
			t.Check(want[u][k], "foreign", "the decoder of %q is asked for a detail of another type or of no relation", u)
		}
	}
	switch mode {
	case "fails", "wrong":
		t.Check(err != nil, mode+":accepted", "the decoder says %v, and the plan is decoded", value)
	case "good":
		if !t.Check(err == nil, "good:refused", "%v", err) {
			return
		}
		for u, ks := range want {
			for k := range ks {
				t.Check(recs[u].(*recDecoder).seen[k], "good:unasked", "the decoder of %q is not asked for a detail of its type", u)
			}
		}
		var defs []plan.ExtensionRelDefinition
		for _, rel := range relsOf(pl) {
			definitions(rel, &defs)
		}
		for _, d := range defs {
			k, ok := d.(*knownDef)
			if t.Check(ok, "good:definition", "a definition is a %T", d) {
				t.Check(recs[k.detail.TypeUrl].(*recDecoder).defs[d], "good:other-definition", "a definition is not the one its decoder made")
			}
		}
	}
	if err == nil && mode != "fails" && mode != "wrong" {
		q, err := pl.ToProto()
		if t.Check(err == nil, mode+":encode", "%v", err) {
			t.Check(pb.Equal(q, x.P), mode+":differs", "%s", pdiff(x.P, q))
		}
	}
	t.Obs(mode, len(all), len(want), len(kinds), err == nil)
	// the registry keeps the first one
	reg := expr.NewEmptyExtensionRegistry(extensions.GetDefaultCollectionWithNoError())
	a, b := &recDecoder{}, &recDecoder{}
	u, v := vk.Pick(r, urls), vk.Pick(r, urls)
	t.Check(reg.ExtensionRelDecoderFor(u) == nil, "registry", "a decoder of none registered")
	t.Check(reg.SetExtensionRelDecoder(u, a) == nil, "registry", "the first decoder is refused")
	err = reg.SetExtensionRelDecoder(v, b)
	t.Check((err != nil) == (u == v), "registry", "a decoder for %q after one for %q: %v", v, u, err)
	t.Check(reg.ExtensionRelDecoderFor(u) == expr.ExtensionRelDecoder(a), "registry", "the decoder for %q is another", u)
	if u != v {
		t.Check(reg.ExtensionRelDecoderFor(v) == expr.ExtensionRelDecoder(b), "registry", "the decoder for %q is another", v)
	}
	t.Check(reg.ExtensionRelDecoderFor(u+"/") == nil, "registry", "a decoder of another type")
}
