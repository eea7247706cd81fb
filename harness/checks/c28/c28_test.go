package c28

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"
	"unicode/utf8"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

// unknown draws well-formed fields which md does not know.
func unknown(t *rapid.T, md protoreflect.MessageDescriptor, depth int) []byte {
	var b []byte
	for n := fx.Int(t, "unknown_n", 1, 3); n > 0; n-- {
		num := protowire.Number(fx.Pick(t, "unknown_num", 15, 16, 99, 1000, 18999, 20000, 536870911))
		if md.Fields().ByNumber(num) != nil {
			continue
		}
		switch fx.Int(t, "unknown_type", 0, 4) {
		case 0:
			b = protowire.AppendTag(b, num, protowire.VarintType)
			b = protowire.AppendVarint(b, rapid.Uint64().Draw(t, "unknown_v"))
		case 1:
			b = protowire.AppendTag(b, num, protowire.Fixed32Type)
			b = protowire.AppendFixed32(b, rapid.Uint32().Draw(t, "unknown_v"))
		case 2:
			b = protowire.AppendTag(b, num, protowire.Fixed64Type)
			b = protowire.AppendFixed64(b, rapid.Uint64().Draw(t, "unknown_v"))
		case 3:
			b = protowire.AppendTag(b, num, protowire.BytesType)
			b = protowire.AppendBytes(b, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "unknown_v"))
		case 4:
			if depth == 0 {
				continue
			}
			b = protowire.AppendTag(b, num, protowire.StartGroupType)
			b = append(b, unknown(t, md, depth-1)...)
			b = protowire.AppendTag(b, num, protowire.EndGroupType)
		}
	}
	return b
}

// addUnknown gives unknown fields to some of the messages in m.
func addUnknown(t *rapid.T, m protoreflect.Message) int {
	n := 0
	if fx.Chance(t, "unknown", 2) {
		if u := unknown(t, m.Descriptor(), 2); len(u) > 0 {
			m.SetUnknown(u)
			n++
		}
	}
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.Kind() != protoreflect.MessageKind || !m.Has(fd) || fd.IsMap() {
			continue
		}
		if fd.IsList() {
			l := m.Mutable(fd).List()
			for j := 0; j < l.Len(); j++ {
				n += addUnknown(t, l.Get(j).Message())
			}
			continue
		}
		n += addUnknown(t, m.Mutable(fd).Message())
	}
	return n
}

// canonicalUnknown writes the tags of the unknown fields in their shortest form:
// the reference keeps them so, the generated decoder as they came.
func canonicalUnknown(m protoreflect.Message) {
	b, out := m.GetUnknown(), []byte(nil)
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return
		}
		v := protowire.ConsumeFieldValue(num, typ, b[n:])
		if v < 0 {
			return
		}
		out = append(protowire.AppendTag(out, num, typ), b[n:n+v]...)
		b = b[n+v:]
	}
	if len(out) > 0 {
		m.SetUnknown(out)
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
		case fd.IsList():
			if fd.Kind() == protoreflect.MessageKind {
				for i := 0; i < v.List().Len(); i++ {
					canonicalUnknown(v.List().Get(i).Message())
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			canonicalUnknown(v.Message())
		}
		return true
	})
}

func newOf(mt protoreflect.MessageType) fast { return mt.New().Interface().(fast) }

func ref(mt protoreflect.MessageType, b []byte) (proto.Message, error) {
	m := mt.New().Interface()
	return m, proto.Unmarshal(b, m)
}

// leniency names why the generated decoder, which by design checks neither UTF-8
// nor the canonicity of the framing, may accept what the reference refuses.
func leniency(md protoreflect.MessageDescriptor, b []byte) string {
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return frame(n)
		}
		if !num.IsValid() {
			return "framing"
		}
		b = b[n:]
		v := protowire.ConsumeFieldValue(num, typ, b)
		if v < 0 {
			return frame(v)
		}
		if md != nil && typ == protowire.BytesType {
			if fd := md.Fields().ByNumber(num); fd != nil {
				x, _ := protowire.ConsumeBytes(b)
				switch {
				case fd.Kind() == protoreflect.StringKind && !utf8.Valid(x):
					return "utf8"
				case fd.IsMap():
					if r := leniency(fd.Message(), x); r != "" {
						return r
					}
					for e := x; len(e) > 0; {
						num, typ, n := protowire.ConsumeTag(e)
						if n < 0 || (num <= 2 && typ != protowire.BytesType) {
							return "map entry"
						}
						v := protowire.ConsumeFieldValue(num, typ, e[n:])
						if v < 0 {
							return "map entry"
						}
						e = e[n+v:]
					}
				case fd.Kind() == protoreflect.MessageKind:
					if r := leniency(fd.Message(), x); r != "" {
						return r
					}
				case fd.IsList() && fd.Kind() != protoreflect.BytesKind && fd.Kind() != protoreflect.StringKind:
					for len(x) > 0 { // packed
						_, n := protowire.ConsumeVarint(x)
						if n < 0 {
							return frame(n)
						}
						x = x[n:]
					}
				}
			}
		}
		b = b[v:]
	}
	return ""
}

func frame(n int) string {
	if errors.Is(protowire.ParseError(n), io.ErrUnexpectedEOF) {
		return ""
	}
	return "framing"
}

func TestC28(t *testing.T) {
	s := hx.New(t, "C28", "(encode) every API message type filled with drawn fields at every nesting, unknown enum values and unknown fields, encoded by both codecs and decoded by both; (json) its JSON form through encoding/json and the reference; (fields) every field of every type, and unknown ones, in every wire type with lengths and values around the borders, whole, cut after every byte, repeated, and next to other content; (bytes) byte strings: random bytes, wire fields in and around the type's numbers, mutations, truncations, splices and concatenations of encodings. Non-trivial: a message with at least two populated fields or unknown fields (identified by its encoding); a byte string which both decoders accept or which differs from an encoding (identified by itself).",
		"the generated decoder checks neither UTF-8 nor overlong varints, tag ranges, group terminators and the wire types inside map entries (limits of the generator): byte strings with such a defect are checked for crashes, and, map entries aside, for equality when both decoders accept",
		"byte strings up to 64 KiB")

	all := messages()
	if len(all) < 30 {
		t.Fatalf("only %d API message types", len(all))
	}

	draw := func(t *rapid.T, unk bool) (protoreflect.MessageType, fast, int) {
		mt := all[fx.Int(t, "type", 0, len(all)-1)]
		m := newOf(mt)
		fx.FillProto(t, m.ProtoReflect(), fx.Int(t, "depth", 1, 4), fx.Int(t, "density", 1, 3))
		n := 0
		if unk {
			n = addUnknown(t, m.ProtoReflect())
		}
		return mt, m, n
	}
	fields := func(m proto.Message) (n int) {
		m.ProtoReflect().Range(func(protoreflect.FieldDescriptor, protoreflect.Value) bool { n++; return true })
		return n
	}

	s.Prop("encode", 20000, func(c *hx.Case) {
		mt, m, unk := draw(c.T, rapid.Bool().Draw(c.T, "unk"))
		name := mt.Descriptor().Name()
		before := proto.Clone(m)
		c.Step()
		f, err := m.MarshalVT()
		if err != nil {
			c.Fatalf("%s: MarshalVT: %v of %v", name, err, m)
		}
		r, err := proto.Marshal(m)
		if err != nil {
			c.Fatalf("%s: reference encoder: %v of %v", name, err, m)
		}
		if n := m.SizeVT(); n != len(f) {
			c.Fatalf("%s: SizeVT %d, encoding has %d bytes: %v", name, n, len(f), m)
		}
		if !proto.Equal(before, m) {
			c.Fatalf("%s: encoding changed the message: %v, was %v", name, m, before)
		}
		for _, e := range []struct {
			by string
			b  []byte
		}{{"fast", f}, {"reference", r}} {
			got, err := ref(mt, e.b)
			if err != nil || !proto.Equal(got, m) {
				c.Fatalf("%s: reference decoder on the %s encoding %x: %v, %v; expected %v", name, e.by, e.b, got, err, m)
			}
			in := bytes.Clone(e.b)
			d := newOf(mt)
			if err := d.UnmarshalVT(in); err != nil || !proto.Equal(d, m) {
				c.Fatalf("%s: fast decoder on the %s encoding %x: %v, %v; expected %v", name, e.by, e.b, d, err, m)
			}
			// the decoded message owns its content
			for i := range in {
				in[i] ^= 0xff
			}
			if !proto.Equal(d, m) {
				c.Fatalf("%s: decoded message shares the input buffer: %v, expected %v", name, d, m)
			}
		}
		extra := fx.Int(c.T, "extra", 0, 9)
		buf := bytes.Repeat([]byte{0xa5}, len(f)+extra)
		n, err := m.MarshalToVT(buf)
		if err != nil || n != len(f) || !equalEncoding(mt, buf[:n], m) || !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xa5}, extra)) {
			c.Fatalf("%s: MarshalToVT: %d, %v, %x; expected %x", name, n, err, buf, f)
		}
		buf = bytes.Repeat([]byte{0xa5}, len(f)+extra)
		n, err = m.MarshalToSizedBufferVT(buf)
		if err != nil || n != len(f) || !equalEncoding(mt, buf[len(buf)-n:], m) || !bytes.Equal(buf[:len(buf)-n], bytes.Repeat([]byte{0xa5}, extra)) {
			c.Fatalf("%s: MarshalToSizedBufferVT: %d, %v, %x; expected %x", name, n, err, buf, f)
		}
		c.Hit("%s", name)
		if unk > 0 {
			c.Hit("unknown fields")
		}
		if unk > 0 || fields(m) >= 2 {
			c.NonTrivial("%s %x", name, f)
		}
	})

	s.Prop("json", 12000, func(c *hx.Case) {
		mt, m, _ := draw(c.T, false)
		name := mt.Descriptor().Name()
		c.Step()
		b, err := json.Marshal(m)
		if err != nil {
			c.Fatalf("%s: json: %v of %v", name, err, m)
		}
		d := newOf(mt)
		if err := json.Unmarshal(b, d); err != nil || !proto.Equal(d, m) {
			c.Fatalf("%s: JSON %s decodes as %v, %v; expected %v", name, b, d, err, m)
		}
		g := mt.New().Interface()
		if err := protojson.Unmarshal(b, g); err != nil || !proto.Equal(g, m) {
			c.Fatalf("%s: JSON %s read by the reference as %v, %v; expected %v", name, b, g, err, m)
		}
		rb, err := protojson.MarshalOptions{UseProtoNames: rapid.Bool().Draw(c.T, "names"), UseEnumNumbers: rapid.Bool().Draw(c.T, "enums"), EmitUnpopulated: rapid.Bool().Draw(c.T, "all")}.Marshal(m)
		if err != nil {
			c.Fatalf("reference json: %v", err)
		}
		d = newOf(mt)
		if err := json.Unmarshal(rb, d); err != nil || !proto.Equal(d, m) {
			c.Fatalf("%s: reference JSON %s decodes as %v, %v; expected %v", name, rb, d, err, m)
		}
		// a message which held something else: replaced, as the reference does
		used := newOf(mt)
		if fx.FillProto(c.T, used.ProtoReflect(), 2, 2); fields(used) > 0 {
			was := proto.Clone(used)
			short, _ := protojson.Marshal(m) // without unpopulated fields
			if err := json.Unmarshal(short, used); err != nil || !proto.Equal(used, m) {
				c.Fatalf("%s: JSON %s decodes into %v as %v, %v; expected %v", name, short, was, used, err, m)
			}
		}
		// a peer with a later schema
		var o map[string]json.RawMessage
		if err := json.Unmarshal(b, &o); err != nil {
			c.Fatalf("%s: JSON %s is not an object: %v", name, b, err)
		}
		o["x_"+fx.Str(c.T, "key", fx.Alnum, 1, 8)] = json.RawMessage(fx.Pick(c.T, "val", "1", "null", `"s"`, "[1,{}]", `{"a":[true]}`))
		ob, _ := json.Marshal(o)
		d = newOf(mt)
		if err := json.Unmarshal(ob, d); err != nil || !proto.Equal(d, m) {
			c.Fatalf("%s: JSON %s with an unknown member decodes as %v, %v; expected %v", name, ob, d, err, m)
		}
		c.Hit("%s", name)
		if fields(m) >= 2 {
			c.NonTrivial("%s %s", name, b)
		}
	})

	// decode compares the decoders on one byte string.
	decode := func(c *hx.Case, mt protoreflect.MessageType, b []byte, how string) {
		c.Step()
		bad, class := judge(mt, b)
		if bad != "" {
			c.Fatalf("%s: %s (%s)", mt.Descriptor().Name(), bad, how)
		}
		c.Hit("%s %s", how, class)
		c.NonTrivial("%s %x", mt.Descriptor().Name(), b)
	}

	s.Prop("mutated", 40000, func(c *hx.Case) {
		mt, m, _ := draw(c.T, rapid.Bool().Draw(c.T, "unk"))
		b, err := proto.Marshal(m)
		if err != nil {
			c.Fatalf("reference encoder: %v", err)
		}
		how := ""
		for n := fx.Int(c.T, "mutations", 1, 3); n > 0; n-- {
			k := fx.Pick(c.T, "how", "flip", "truncate", "insert", "delete", "concat", "splice", "duplicate", "length", "other type")
			how = k
			at := 0
			if len(b) > 0 {
				at = fx.Int(c.T, "at", 0, len(b)-1)
			}
			switch k {
			case "flip":
				if len(b) > 0 {
					b[at] ^= 1 << fx.Int(c.T, "bit", 0, 7)
				}
			case "truncate":
				b = b[:at]
			case "insert":
				x := rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(c.T, "bytes")
				b = append(append(bytes.Clone(b[:at]), x...), b[at:]...)
			case "delete":
				if len(b) > 0 {
					b = append(bytes.Clone(b[:at]), b[at+1:]...)
				}
			case "concat":
				o := newOf(mt)
				fx.FillProto(c.T, o.ProtoReflect(), 2, 2)
				x, _ := proto.Marshal(o)
				b = append(b, x...)
			case "splice":
				o := newOf(mt)
				fx.FillProto(c.T, o.ProtoReflect(), 2, 2)
				x, _ := proto.Marshal(o)
				if len(x) > 0 {
					b = append(bytes.Clone(b[:at]), x[fx.Int(c.T, "from", 0, len(x)-1):]...)
				}
			case "duplicate":
				b = append(bytes.Clone(b), b[at:]...)
			case "length":
				if len(b) > 0 {
					l := protowire.AppendVarint(nil, fx.Pick(c.T, "len", uint64(math.MaxUint64), math.MaxInt64, 1<<63, math.MaxInt64-uint64(at), math.MaxUint32, 1<<31, 200, uint64(len(b)), 0))
					b = append(append(bytes.Clone(b[:at]), l...), b[at+1:]...)
				}
			case "other type":
				_, o, _ := draw(c.T, false)
				b, _ = proto.Marshal(o)
			}
		}
		decode(c, mt, b, how)
	})

	s.Prop("bytes", 100000, func(c *hx.Case) {
		mt := all[fx.Int(c.T, "type", 0, len(all)-1)]
		how, b := "random", []byte(nil)
		if rapid.Bool().Draw(c.T, "wire") {
			how = "wire"
			b = wire(c.T, mt.Descriptor(), 3)
		} else {
			b = rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(c.T, "bytes")
		}
		decode(c, mt, b, how)
	})

	s.Direct("fields", func(t *testing.T) int {
		n := 0
		for _, mt := range all {
			md := mt.Descriptor()
			try := func(num protowire.Number, fd protoreflect.FieldDescriptor) {
				forms(md, num, fd, func(valid bool, b []byte) {
					n++
					bad, _ := judge(mt, b)
					if bad == "" && valid && (fd == nil || !fd.IsMap()) {
						d := newOf(mt)
						if err := d.UnmarshalVT(b); err != nil {
							bad = fmt.Sprintf("fast decoder refuses %x: %v", b, err)
						}
					}
					if bad != "" {
						if len(bad) > 2000 {
							bad = bad[:2000]
						}
						t.Fatalf("%s field %d: %s", md.Name(), num, bad)
					}
				})
			}
			fds := md.Fields()
			for i := 0; i < fds.Len(); i++ {
				try(fds.Get(i).Number(), fds.Get(i))
				s.Note("fields", fmt.Sprintf("%s %s", md.Name(), fds.Get(i).Name()))
			}
			for _, num := range []protowire.Number{100, 2047, 2048, 536870911} {
				try(num, nil)
			}
		}
		return n
	})

	s.Direct("corners", func(t *testing.T) int {
		n := 0
		for _, mt := range all {
			empty := newOf(mt)
			b, err := empty.MarshalVT()
			if err != nil || len(b) != 0 || empty.SizeVT() != 0 {
				t.Fatalf("%s: empty message encodes as %x, size %d, %v", mt.Descriptor().Name(), b, empty.SizeVT(), err)
			}
			null := mt.Zero().Interface().(fast) // a nil pointer
			if b, err := null.MarshalVT(); err != nil || len(b) != 0 || null.SizeVT() != 0 {
				t.Fatalf("%s: nil message encodes as %x, size %d, %v", mt.Descriptor().Name(), b, null.SizeVT(), err)
			}
			// every single field, alone, with its zero and a non-zero value
			fds := mt.Descriptor().Fields()
			for i := 0; i < fds.Len(); i++ {
				m := newOf(mt)
				fd := fds.Get(i)
				switch {
				case fd.IsList() || fd.IsMap():
					continue
				case fd.Kind() == protoreflect.MessageKind:
					m.ProtoReflect().Set(fd, m.ProtoReflect().NewField(fd))
				default:
					m.ProtoReflect().Set(fd, fd.Default())
				}
				b, err := m.MarshalVT()
				d := newOf(mt)
				if err != nil || d.UnmarshalVT(b) != nil || !proto.Equal(m, d) {
					t.Fatalf("%s.%s present with its default: %x gives %v, expected %v", mt.Descriptor().Name(), fd.Name(), b, d, m)
				}
				g, err := ref(mt, b)
				if err != nil || !proto.Equal(g, m) {
					t.Fatalf("%s.%s present with its default: %x read by the reference as %v, %v", mt.Descriptor().Name(), fd.Name(), b, g, err)
				}
				n++
				s.Note("corners", fmt.Sprintf("%s %s", mt.Descriptor().Name(), fd.Name()))
			}
		}
		return n
	})
}

// judge gives a byte string to both decoders and tells what is wrong, if anything.
func judge(mt protoreflect.MessageType, b []byte) (bad, class string) {
	d := newOf(mt)
	in := bytes.Clone(b)
	var crash any
	ferr := func() (err error) {
		defer func() { crash = recover() }()
		return d.UnmarshalVT(in)
	}()
	if crash != nil {
		return fmt.Sprintf("fast decoder crashes on %x: %v", b, crash), ""
	}
	if !bytes.Equal(in, b) {
		return fmt.Sprintf("fast decoder changed its input %x", b), ""
	}
	r, rerr := ref(mt, b)
	why := leniency(mt.Descriptor(), b)
	switch {
	case ferr == nil && rerr == nil && why != "map entry":
		canonicalUnknown(r.ProtoReflect())
		dd := proto.Clone(d)
		canonicalUnknown(dd.ProtoReflect())
		if !proto.Equal(dd, r) {
			return fmt.Sprintf("%x decodes as %v, the reference gives %v", b, d, r), ""
		}
	case ferr == nil && why == "":
		return fmt.Sprintf("fast decoder accepts %x as %v, the reference refuses: %v", b, d, rerr), ""
	}
	if ferr == nil {
		// whatever was decoded can be encoded again
		e, err := d.MarshalVT()
		if err != nil || len(e) != d.SizeVT() {
			return fmt.Sprintf("decoded %x does not encode: %d bytes of %d, %v", b, len(e), d.SizeVT(), err), ""
		}
		d2 := newOf(mt)
		if err := d2.UnmarshalVT(e); err != nil || !proto.Equal(d2, d) {
			return fmt.Sprintf("decoded %x encodes as %x: %v, %v; was %v", b, e, d2, err, d), ""
		}
	}
	return "", fmt.Sprintf("fast=%v reference=%v %s", ferr == nil, rerr == nil, why)
}

// forms yields encodings of one field: every wire type, lengths and values around
// the borders, whole and cut after every byte, before and after other content.
func forms(md protoreflect.MessageDescriptor, num protowire.Number, fd protoreflect.FieldDescriptor, yield func(valid bool, b []byte)) {
	each := func(valid bool, b []byte) {
		yield(valid, b)
		tail := []byte{0xfa, 0x3e, 2, 'x', 'y'} // unknown field 1007
		yield(valid, append(bytes.Clone(b), tail...))
		yield(valid, append(bytes.Clone(tail), b...))
		yield(valid, append(bytes.Clone(b), b...))
		for i := 1; i < len(b) && i < 24; i++ {
			yield(false, b[:i])
			yield(false, b[:len(b)-i])
		}
	}
	natural := protowire.BytesType
	if fd != nil {
		switch fd.Kind() {
		case protoreflect.StringKind, protoreflect.BytesKind, protoreflect.MessageKind:
		case protoreflect.Fixed64Kind, protoreflect.Sfixed64Kind, protoreflect.DoubleKind:
			natural = protowire.Fixed64Type
		case protoreflect.Fixed32Kind, protoreflect.Sfixed32Kind, protoreflect.FloatKind:
			natural = protowire.Fixed32Type
		default:
			natural = protowire.VarintType
		}
	}
	tag := func(t protowire.Type) []byte { return protowire.AppendTag(nil, num, t) }
	for _, v := range []uint64{0, 1, 2, 3, 127, 128, 1<<14 - 1, 1 << 14, 1 << 20, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 35, 1 << 42, 1 << 49, 1 << 56, 1 << 63, math.MaxUint64} {
		each(natural == protowire.VarintType, protowire.AppendVarint(tag(protowire.VarintType), v))
		each(natural == protowire.Fixed64Type, protowire.AppendFixed64(tag(protowire.Fixed64Type), v))
		each(natural == protowire.Fixed32Type, protowire.AppendFixed32(tag(protowire.Fixed32Type), uint32(v)))
		// a length without its content
		b := protowire.AppendVarint(tag(protowire.BytesType), v)
		yield(false, b)
		yield(false, append(b, "ab"...))
	}
	each(false, append(tag(protowire.VarintType), bytes.Repeat([]byte{0x80}, 12)...))
	each(false, append(tag(protowire.VarintType), bytes.Repeat([]byte{0xff}, 12)...))
	each(false, append(tag(protowire.BytesType), bytes.Repeat([]byte{0x80}, 12)...))
	// numbers in more bytes than they need
	for _, n := range []int{3, 5, 8, 9, 10, 11} {
		long := func(v byte) []byte {
			return append(append([]byte{v | 0x80}, bytes.Repeat([]byte{0x80}, n-2)...), 0)
		}
		each(false, append(append(tag(protowire.BytesType), long(2)...), 'a', 'b'))
		each(natural == protowire.VarintType && n <= 10, append(tag(protowire.VarintType), long(5)...))
		if one := tag(natural); len(one) == 1 && natural == protowire.VarintType {
			each(false, append(long(one[0]), 5))
		} else if len(one) == 1 && natural == protowire.BytesType {
			each(false, append(long(one[0]), 1, 'a'))
		}
	}
	// lengths next to the largest integer
	for k := uint64(0); k < 24; k++ {
		b := protowire.AppendVarint(tag(protowire.BytesType), math.MaxInt64-k)
		yield(false, b)
		yield(false, append([]byte{0xfa, 0x3e, 2, 'x', 'y'}, b...))
		yield(false, append(append([]byte{0xfa, 0x3e, 2, 'x', 'y'}, b...), "ab"...))
	}
	each(false, append(append(tag(protowire.StartGroupType), 8, 1), protowire.AppendTag(nil, num, protowire.EndGroupType)...))
	each(false, append(tag(protowire.StartGroupType), protowire.AppendTag(nil, num+1, protowire.EndGroupType)...))
	each(false, tag(protowire.EndGroupType))
	each(false, append(tag(6), 1))
	each(false, append(tag(7), 1))
	bytesOf := func(valid bool, x []byte) {
		each(valid, protowire.AppendBytes(tag(protowire.BytesType), x))
		if len(x) > 0 { // one byte too long or too short
			yield(false, append(protowire.AppendVarint(tag(protowire.BytesType), uint64(len(x)+1)), x...))
			yield(false, append(protowire.AppendVarint(tag(protowire.BytesType), uint64(len(x)-1)), x...))
		}
	}
	text := fd != nil && (fd.Kind() == protoreflect.StringKind || fd.Kind() == protoreflect.BytesKind)
	for _, n := range []int{0, 1, 2, 127, 128, 129, 16383, 16384} {
		bytesOf(text || fd == nil, bytes.Repeat([]byte{'a'}, n))
	}
	for _, x := range []string{"\x00", "é漢", "\x08\x01", "\x0a\x01a", "\x0a\x01a\x12\x01b", "\x12\x01b\x0a\x01a", "\x12\x01b", "\x0a\x00\x12\x00", "\x0a\x01a\x0a\x01b\x12\x01c\x1a\x01d", "\x0a\x05a", "\x12\x05a", "\x0a\x80\x01" + string(bytes.Repeat([]byte{'k'}, 128)) + "\x12\x80\x01" + string(bytes.Repeat([]byte{'v'}, 128))} {
		bytesOf(text, []byte(x))
	}
	if fd != nil && fd.Kind() == protoreflect.MessageKind && !fd.IsMap() {
		sub := fd.Message().Fields()
		var whole []byte
		for i := 0; i < sub.Len(); i++ { // each of its fields alone, so that occurrences are merged
			f := sub.Get(i)
			switch f.Kind() {
			case protoreflect.StringKind, protoreflect.BytesKind:
				one := protowire.AppendString(protowire.AppendTag(nil, f.Number(), protowire.BytesType), "x")
				bytesOf(!f.IsMap(), one)
				if whole != nil && !f.IsMap() {
					each(true, append(protowire.AppendBytes(tag(protowire.BytesType), whole), protowire.AppendBytes(tag(protowire.BytesType), one)...))
				}
				whole = append(whole, one...)
			}
		}
	}
}

func equalEncoding(mt protoreflect.MessageType, b []byte, m proto.Message) bool {
	got, err := ref(mt, b)
	return err == nil && proto.Equal(got, m)
}

// wire draws fields at and around the numbers md knows, with any wire type.
func wire(t *rapid.T, md protoreflect.MessageDescriptor, depth int) []byte {
	var b []byte
	fds := md.Fields()
	for n := fx.Int(t, "fields", 0, 5); n > 0; n-- {
		num := protowire.Number(fx.Int(t, "num", 1, 40))
		var fd protoreflect.FieldDescriptor
		if fds.Len() > 0 && !fx.Chance(t, "unknown", 6) {
			fd = fds.Get(fx.Int(t, "field", 0, fds.Len()-1))
			num = fd.Number()
		}
		typ := protowire.Type(fx.Pick(t, "wiretype", 0, 1, 2, 2, 2, 3, 5, 6, 7))
		if fd != nil && !fx.Chance(t, "any type", 5) {
			typ = protowire.BytesType
			switch fd.Kind() {
			case protoreflect.StringKind, protoreflect.BytesKind, protoreflect.MessageKind:
			default:
				if !fd.IsList() || rapid.Bool().Draw(t, "unpacked") {
					typ = protowire.VarintType
				}
			}
		}
		b = protowire.AppendTag(b, num, typ)
		switch typ {
		case protowire.VarintType:
			b = protowire.AppendVarint(b, fx.Pick(t, "varint", uint64(0), 1, 2, 127, 128, 1<<31, 1<<32, 1<<63, math.MaxUint64))
			if fx.Chance(t, "overlong", 10) {
				b[len(b)-1] |= 0x80
				b = append(b, fx.Pick(t, "tail", []byte{0}, []byte{0x80, 0}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f})...)
			}
		case protowire.Fixed32Type:
			b = append(b, 1, 2, 3, 4)
		case protowire.Fixed64Type:
			b = append(b, 1, 2, 3, 4, 5, 6, 7, 8)
		case protowire.BytesType:
			var x []byte
			if fd != nil && fd.Kind() == protoreflect.MessageKind && depth > 0 {
				x = wire(t, fd.Message(), depth-1)
			} else {
				x = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "content")
				if rapid.Bool().Draw(t, "ascii") {
					for i := range x {
						x[i] &= 0x7f
					}
				}
			}
			l := uint64(len(x))
			if fx.Chance(t, "bad length", 15) {
				l = fx.Pick(t, "len", uint64(0), 1, l+1, math.MaxInt64, math.MaxUint64, 1<<32, 1<<63)
			}
			b = protowire.AppendVarint(b, l)
			b = append(b, x...)
		case protowire.StartGroupType:
			if depth > 0 {
				b = append(b, wire(t, md, depth-1)...)
			}
			if !fx.Chance(t, "no end", 4) {
				b = protowire.AppendTag(b, num, protowire.EndGroupType)
			}
		}
	}
	return b
}
