package checks

import (
	"fmt"
	"slices"
	"strings"

	"github.com/substrait-io/substrait-go/v8/extensions"
	"github.com/substrait-io/substrait-go/v8/types/parser"

	"verif/harness/spec"
	"verif/harness/vk"
)

// argM is the model of a function's argument.
type argM struct {
	kind, name, desc string
	typ              string
	constant         bool
	options          []string
}

func (a argM) String() string {
	return fmt.Sprintf("%s(%q %q %q %v %q)", a.kind, a.name, a.desc, a.typ, a.constant, a.options)
}

func argIs(p extensions.FuncParameter) string {
	switch a := p.(type) {
	case extensions.EnumArg:
		return argM{kind: "enum", name: a.Name, desc: a.Description, options: a.Options}.String()
	case extensions.ValueArg:
		return argM{kind: "value", name: a.Name, desc: a.Description, constant: a.Constant, typ: spec.DumpLib(a.Value.ValueType)}.String()
	case extensions.TypeArg:
		return argM{kind: "type", name: a.Name, desc: a.Description, typ: spec.DumpLib(a.Type.ValueType)}.String()
	}
	return fmt.Sprintf("%T", p)
}

// arguments loads functions with arguments of the three kinds, and the same with
// one field of one argument that is of another type than it has to be.
func arguments(t *vk.T) {
	r := t.R
	var doc []map[string]any
	var want []string
	compound := []string{}
	typs := []struct{ text, short string }{{"i32", "i32"}, {"string?", "str"}, {"list<any1>", "list"}, {"decimal<P,S>", "dec"}, {"any1?", "any"}}
	libs := map[string]string{}
	for _, ty := range typs {
		ft, err := parser.ParseType(ty.text)
		t.Must(err == nil, "generator", "%v", err)
		libs[ty.text] = spec.DumpLib(ft)
	}
	for n := 1 + r.N(3); n > 0; n-- {
		a, d := argM{}, map[string]any{}
		if r.P(2, 3) {
			a.name = vk.PickOf(r, "x", "options", "value", "é", "1")
			d["name"] = a.name
		}
		if r.P(2, 3) {
			a.desc = vk.PickOf(r, "of the first", "", "type")
			d["description"] = a.desc
		}
		switch ty := vk.Pick(r, typs); r.N(3) {
		case 0:
			a.kind = "enum"
			a.options = []string{"A", "b", "1", "null", "true"}[:1+r.N(5)]
			d["options"] = a.options
			compound = append(compound, "req")
		case 1:
			a.kind, a.typ = "value", libs[ty.text]
			d["value"] = ty.text
			if r.Bool() {
				a.constant = r.Bool()
				d["constant"] = a.constant
			}
			compound = append(compound, ty.short)
		default:
			a.kind, a.typ = "type", libs[ty.text]
			d["type"] = ty.text
			compound = append(compound, "type")
		}
		doc, want = append(doc, d), append(want, a.String())
	}
	kind := fnKind(r.N(3))
	text := func() string {
		impl := map[string]any{"args": doc, "return": "boolean"}
		if kind != fnScalar {
			impl["intermediate"] = "i64"
		}
		var b strings.Builder
		jsonOf(&b, asAny(map[string]any{"urn": "extension:verif:args", kind.String() + "_functions": []any{map[string]any{"name": "f", "impls": []any{impl}}}}), vk.PickOf(r, "", " ", "\n"))
		return b.String()
	}
	load := func(text string) (*extensions.Collection, error) {
		c := &extensions.Collection{}
		var err error
		if !t.NoPanic("Load", func() { err = c.Load(strings.NewReader(text)) }) {
			return nil, fmt.Errorf("panic")
		}
		return c, err
	}
	good := text()
	t.Desc = func() string { return good }
	c, err := load(good)
	if !t.Check(err == nil, "rejects", "a valid file is rejected: %v", err) {
		return
	}
	id := extensions.FunctionID{URN: "extension:verif:args", Name: "f:" + strings.Join(compound, "_")}
	v, ok := getFn(c, kind, id)
	if !t.Check(ok, "lookup", "%s is not found among %v", id, allFn(c, kind)) {
		return
	}
	var got []string
	for _, a := range v.Args() {
		got = append(got, argIs(a))
	}
	t.Check(slices.Equal(got, want), "arguments", "the arguments are %v, want %v", got, want)
	t.Obs("good", len(doc), strings.Join(compound, "_"))
	// one field that is something else
	i := r.N(len(doc))
	d := map[string]any{}
	for k, v := range doc[i] {
		d[k] = v
	}
	doc = slices.Clone(doc)
	doc[i] = d
	var f string
	var bad any
	switch f = vk.PickOf(r, "name", "description", "type", "constant", "kind"); f {
	case "name", "description":
		bad = vk.PickOf[any](r, 1, true, []any{"a"}, map[string]any{"a": "b"}, 1.5)
	case "constant":
		if d["value"] == nil {
			return
		}
		bad = vk.PickOf[any](r, 1, "true", []any{true}, map[string]any{"a": "b"})
	case "kind":
		for _, k := range []string{"options", "value", "type"} {
			delete(d, k)
		}
		f, bad = "kind", "value or type"
	default:
		switch {
		case d["options"] != nil:
			f = "options"
			bad = vk.PickOf[any](r, "A", 1, map[string]any{"a": "b"}, []any{1}, []any{"A", nil}, []any{"A", 2, "b"}, []any{true}, []any{[]any{"A"}}, []any{map[string]any{}}, []any{1.5, "A"})
		case d["value"] != nil:
			f, bad = "value", vk.PickOf[any](r, 1, []any{"i32"}, map[string]any{"a": "b"}, "", "i33", true)
		default:
			bad = vk.PickOf[any](r, 1, []any{"i32"}, map[string]any{"a": "b"}, "", "i33", true)
		}
	}
	if f != "kind" {
		d[f] = bad
	}
	spoiled := text()
	t.Desc = func() string { return spoiled }
	c, err = load(spoiled)
	t.Check(err != nil, "accepts:"+f, "an argument whose %s is %v is loaded", f, bad)
	if err != nil {
		t.Check(!c.URNLoaded(id.URN) && len(allFn(c, kind)) == 0, "left-behind", "the file that is refused leaves something behind")
	}
	t.Obs("bad", f, bad)
}

// asAny is the value with every map and list of any.
func asAny(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, e := range x {
			o[k] = asAny(e)
		}
		return o
	case []map[string]any:
		o := []any{}
		for _, e := range x {
			o = append(o, asAny(e))
		}
		return o
	case []any:
		o := []any{}
		for _, e := range x {
			o = append(o, asAny(e))
		}
		return o
	case []string:
		o := []any{}
		for _, e := range x {
			o = append(o, e)
		}
		return o
	}
	return v
}
