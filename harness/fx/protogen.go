package fx

import (
	"math"

	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

var protoText = rapid.OneOf(
	rapid.Just(""),
	rapid.String(),
	rapid.StringOfN(rapid.RuneFrom([]rune("abc \"\\<>&é\u2028\u0000\t\n/=\U0001F600\uFFFD")), 0, 200, -1),
	rapid.SampledFrom([]string{"openid", "code", "null", "0", "true", "{}", "https://client.example/cb?x=1&y=%20#f"}),
)

// ProtoValue draws a scalar for a field.
func ProtoValue(t *rapid.T, fd protoreflect.FieldDescriptor, label string) protoreflect.Value {
	u64 := rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 127, 128, 16383, 16384, 1<<53 + 1, math.MaxInt64, math.MaxUint64}))
	switch fd.Kind() {
	case protoreflect.StringKind:
		return protoreflect.ValueOfString(protoText.Draw(t, label))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes(rapid.SliceOfN(rapid.Byte(), 0, 160).Draw(t, label))
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(rapid.Bool().Draw(t, label))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		if Chance(t, label+"_unknown", 5) {
			return protoreflect.ValueOfEnum(protoreflect.EnumNumber(Pick(t, label, 77, -1, math.MaxInt32, math.MinInt32)))
		}
		return protoreflect.ValueOfEnum(vs.Get(Int(t, label, 0, vs.Len()-1)).Number())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(rapid.Int32().Draw(t, label))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(rapid.Int64().Draw(t, label))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(u64.Draw(t, label)))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(u64.Draw(t, label))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(rapid.Float32().Draw(t, label))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(rapid.Float64().Draw(t, label))
	}
	panic("HARNESS-ERROR: kind of " + string(fd.FullName()))
}

// FillProto draws the fields of a message; one field is present in about one
// of density cases.
func FillProto(t *rapid.T, m protoreflect.Message, depth, density int) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		label := string(fd.Name())
		if !Chance(t, label+"_set", density) {
			continue
		}
		switch {
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for n := Int(t, label+"_n", 0, 3); n > 0; n-- {
				k := ProtoValue(t, fd.MapKey(), label+"_k").MapKey()
				if fd.MapValue().Kind() == protoreflect.MessageKind {
					v := mp.NewValue()
					if depth > 0 {
						FillProto(t, v.Message(), depth-1, density)
					}
					mp.Set(k, v)
				} else {
					mp.Set(k, ProtoValue(t, fd.MapValue(), label+"_v"))
				}
			}
		case fd.IsList():
			l := m.Mutable(fd).List()
			for n := Int(t, label+"_n", 0, 4); n > 0; n-- {
				if fd.Kind() == protoreflect.MessageKind {
					v := l.NewElement()
					if depth > 0 {
						FillProto(t, v.Message(), depth-1, density)
					}
					l.Append(v)
				} else {
					l.Append(ProtoValue(t, fd, label))
				}
			}
		case fd.Kind() == protoreflect.MessageKind || fd.Kind() == protoreflect.GroupKind:
			v := m.NewField(fd)
			if depth > 0 {
				FillProto(t, v.Message(), depth-1, density)
			}
			m.Set(fd, v)
		default:
			m.Set(fd, ProtoValue(t, fd, label))
		}
	}
}

// MutateProto changes one field somewhere in a message (clears it, redraws it,
// empties a nested message) and says what it did.
func MutateProto(t *rapid.T, m protoreflect.Message, label string) string {
	fds := m.Descriptor().Fields()
	if fds.Len() == 0 {
		return "nothing"
	}
	fd := fds.Get(Int(t, label+"_field", 0, fds.Len()-1))
	name := string(fd.Name())
	isMsg := fd.Kind() == protoreflect.MessageKind && !fd.IsList() && !fd.IsMap()
	if isMsg && m.Has(fd) && !Chance(t, label+"_here", 3) {
		return name + "." + MutateProto(t, m.Mutable(fd).Message(), label+"."+name)
	}
	switch Int(t, label+"_how", 0, 3) {
	case 0, 1:
		m.Clear(fd)
		return "no " + name
	case 2:
		if isMsg {
			m.Set(fd, m.NewField(fd)) // present and empty
			return "empty " + name
		}
		fallthrough
	default:
		if fd.Kind() == protoreflect.StringKind && !fd.IsList() && !fd.IsMap() {
			v := Mutate(t, label+"_value", m.Get(fd).String())
			if Chance(t, label+"_any", 3) {
				v = protoText.Draw(t, label+"_text")
			}
			m.Set(fd, protoreflect.ValueOfString(v))
			return name + " changed"
		}
		m.Clear(fd)
		sub := m.New()
		FillProto(t, sub, 2, 1)
		if sub.Has(fd) {
			m.Set(fd, sub.Get(fd))
		}
		return name + " redrawn"
	}
}

// Spoil changes every populated field of a message in place, through shared
// lists, byte slices and submessages.
func Spoil(m protoreflect.Message) {
	scalar := func(fd protoreflect.FieldDescriptor, v protoreflect.Value) protoreflect.Value {
		switch fd.Kind() {
		case protoreflect.StringKind:
			return protoreflect.ValueOfString(v.String() + "~spoilt")
		case protoreflect.BytesKind:
			for i := range v.Bytes() {
				v.Bytes()[i] ^= 0x55
			}
			return v
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(!v.Bool())
		case protoreflect.EnumKind:
			return protoreflect.ValueOfEnum(v.Enum() + 1)
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			return protoreflect.ValueOfInt32(int32(v.Int()) + 1)
		case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
			return protoreflect.ValueOfInt64(v.Int() + 1)
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return protoreflect.ValueOfUint32(uint32(v.Uint()) + 1)
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			return protoreflect.ValueOfUint64(v.Uint() + 1)
		}
		return v
	}
	type field struct {
		fd protoreflect.FieldDescriptor
		v  protoreflect.Value
	}
	var fields []field
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		fields = append(fields, field{fd, v})
		return true
	})
	for _, f := range fields {
		switch {
		case f.fd.IsMap():
		case f.fd.IsList():
			l := f.v.List()
			for i := 0; i < l.Len(); i++ {
				if f.fd.Message() != nil {
					Spoil(l.Get(i).Message())
				} else {
					l.Set(i, scalar(f.fd, l.Get(i)))
				}
			}
		case f.fd.Message() != nil:
			Spoil(f.v.Message())
		default:
			m.Set(f.fd, scalar(f.fd, f.v))
		}
	}
}
