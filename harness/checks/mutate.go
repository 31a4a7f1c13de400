package checks

import (
	"fmt"

	"google.golang.org/protobuf/reflect/protoreflect"

	"verif/harness/vk"
)

// A site is one place where a message can be changed.
type site struct {
	what string
	do   func(r *vk.R)
}

// mutSites lists the places of a message; hostile also takes sub-messages away,
// and puts in values that no well-formed message has.
func mutSites(m protoreflect.Message, hostile bool) (out []site) {
	add := func(what string, do func(r *vk.R)) { out = append(out, site{what, do}) }
	name := string(m.Descriptor().Name())
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		what := name + "." + string(fd.Name())
		switch {
		case fd.IsMap():
		case fd.IsList():
			l := v.List()
			n := l.Len()
			add(what+" remove", func(r *vk.R) {
				k := r.N(n)
				for i := k; i+1 < n; i++ {
					l.Set(i, l.Get(i+1))
				}
				l.Truncate(n - 1)
			})
			add(what+" duplicate", func(r *vk.R) { l.Append(l.Get(r.N(n))) })
			if n > 1 {
				add(what+" swap", func(r *vk.R) {
					i, j := r.N(n), r.N(n)
					a, b := l.Get(i), l.Get(j)
					l.Set(i, b)
					l.Set(j, a)
				})
			}
			if hostile {
				add(what+" clear", func(r *vk.R) { m.Clear(fd) })
			}
			for i := 0; i < n; i++ {
				if fd.Kind() == protoreflect.MessageKind {
					out = append(out, mutSites(l.Get(i).Message(), hostile)...)
				} else {
					add(what+" change", func(r *vk.R) { l.Set(i, changeScalar(r, fd, l.Get(i), hostile)) })
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			out = append(out, mutSites(v.Message(), hostile)...)
			if hostile {
				add(what+" clear", func(r *vk.R) { m.Clear(fd) })
				add(what+" empty", func(r *vk.R) { m.Set(fd, m.NewField(fd)) })
			} else if fd.HasPresence() && fd.ContainingOneof() == nil {
				add(what+" clear", func(r *vk.R) { m.Clear(fd) })
			}
		default:
			add(what+" change", func(r *vk.R) { m.Set(fd, changeScalar(r, fd, v, hostile)) })
		}
		return true
	})
	// fields at their defaults
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if m.Has(fd) || fd.IsMap() || fd.ContainingOneof() != nil && !hostile {
			continue
		}
		what := name + "." + string(fd.Name())
		switch {
		case fd.Kind() == protoreflect.MessageKind:
			if hostile {
				if fd.IsList() {
					add(what+" append empty", func(r *vk.R) {
						l := m.Mutable(fd).List()
						l.Append(l.NewElement())
					})
				} else {
					add(what+" set empty", func(r *vk.R) { m.Set(fd, m.NewField(fd)) })
				}
			}
		case fd.IsList():
			if hostile {
				add(what+" append", func(r *vk.R) {
					l := m.Mutable(fd).List()
					l.Append(changeScalar(r, fd, l.NewElement(), hostile))
				})
			}
		default:
			add(what+" set", func(r *vk.R) { m.Set(fd, changeScalar(r, fd, fd.Default(), hostile)) })
		}
	}
	return
}

func changeScalar(r *vk.R, fd protoreflect.FieldDescriptor, v protoreflect.Value, hostile bool) protoreflect.Value {
	small := func() int64 { return vk.PickOf(r, int64(1), -1, 2, 1) }
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(!v.Bool())
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		n := vs.Get(r.N(vs.Len())).Number()
		if hostile && r.P(1, 6) {
			n = protoreflect.EnumNumber(vk.PickOf(r, int32(-1), 99, 1<<30))
		}
		return protoreflect.ValueOfEnum(n)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		if hostile && r.P(1, 3) {
			return protoreflect.ValueOfInt32(vk.PickOf(r, int32(-1), 0, 1<<31-1, -1<<31, 39, 10))
		}
		return protoreflect.ValueOfInt32(int32(v.Int() + small()))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		if hostile && r.P(1, 3) {
			return protoreflect.ValueOfInt64(vk.PickOf(r, int64(-1), 0, 1<<63-1, -1<<63, 1<<40))
		}
		return protoreflect.ValueOfInt64(v.Int() + small())
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		if hostile && r.P(1, 3) {
			return protoreflect.ValueOfUint32(vk.PickOf(r, uint32(0), 1<<32-1, 7, 1<<31))
		}
		return protoreflect.ValueOfUint32(uint32(int64(v.Uint()) + small()))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(v.Uint() + uint64(small()))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(v.Float()) + 1.5)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(v.Float() + 1.5)
	case protoreflect.StringKind:
		s := v.String()
		if s != "" && r.Bool() {
			return protoreflect.ValueOfString(s[:0] + vk.PickOf(r, "", "x"))
		}
		return protoreflect.ValueOfString(s + "x")
	case protoreflect.BytesKind:
		b := append([]byte(nil), v.Bytes()...)
		if len(b) > 0 && r.P(2, 3) {
			b[r.N(len(b))] ^= byte(1 << r.N(8))
			return protoreflect.ValueOfBytes(b)
		}
		if len(b) > 0 && r.Bool() {
			return protoreflect.ValueOfBytes(b[1:])
		}
		return protoreflect.ValueOfBytes(append(b, 'x'))
	}
	panic(fmt.Sprint("field kind ", fd.Kind()))
}

// mutate changes the message in one random place, and says where.
func mutate(r *vk.R, m protoreflect.Message, hostile bool) string {
	s := mutSites(m, hostile)
	if len(s) == 0 {
		return "nothing"
	}
	k := r.N(len(s))
	s[k].do(r)
	return s[k].what
}
