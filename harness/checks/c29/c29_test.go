package c29

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"
	"testing"
	"unicode/utf8"

	"pgregory.net/rapid"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/sdk/types"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

// item draws a list item; many are related to earlier ones.
func item(t *rapid.T, label string, of []string) string {
	if len(of) > 0 && !fx.Chance(t, label+"_new", 3) {
		v := fx.Pick(t, label+"_of", of...)
		switch fx.Int(t, label+"_rel", 0, 6) {
		case 0, 1:
			return v
		case 2, 3:
			return fx.FlipCase(t, label+"_case", v)
		case 4:
			return v + fx.Pick(t, label+"_tail", " ", "x", "\x00", "/", "s")
		case 5:
			if len(v) > 0 {
				return v[:len(v)-1]
			}
			return v
		default:
			return " " + v
		}
	}
	switch fx.Int(t, label+"_kind", 0, 3) {
	case 0:
		return fx.Pick(t, label+"_word", "openid", "offline_access", "code", "S", "k", "", "Émile", "straße", "ÀÉÎ", "Ω", "日本")
	case 1:
		return fx.Str(t, label+"_str", fx.Alnum, 0, 3)
	case 2:
		return fx.Str(t, label+"_two", "aAbB", 0, 2)
	default:
		v := rapid.StringN(0, 4, 8).Draw(t, label+"_any")
		if !utf8.ValidString(v) {
			return "x"
		}
		return v
	}
}

// same and different are the unambiguous answers; what lies between (folding of
// special letters) may be decided either way, consistently.
func same(a, b string) bool {
	return strings.ToLower(a) == strings.ToLower(b) && strings.ToUpper(a) == strings.ToUpper(b)
}
func different(a, b string) bool {
	return !strings.EqualFold(a, b) && strings.ToLower(a) != strings.ToLower(b) && strings.ToUpper(a) != strings.ToUpper(b)
}

// is is the membership relation of the code, on a list of one.
func is(a, b string) bool { return types.StringArray{a}.Contains(b) }

func TestC29(t *testing.T) {
	s := hx.New(t, "C29", "lists of drawn strings with duplicates, case variants, near misses and non-ASCII letters, and sequences of additions and removals on them, against a plain-list model; pairs of byte strings equal or differing in one bit, length or content. Non-trivial: a list with at least two items of which two are related, or a pair of equal length; identified by content.",
		"strings whose equality depends on the kind of Unicode folding are only required to be treated consistently", "HasAll of no item is not asserted", "strings are valid UTF-8 in the list part")

	s.Prop("membership", 20000, func(c *hx.Case) {
		var l []string
		for n := fx.Int(c.T, "n", 0, fx.Pick(c.T, "most", 7, 7, 7, 40)); n > 0; n-- {
			l = append(l, item(c.T, "item", l))
		}
		x := item(c.T, "probe", l)
		arr := types.StringArray(slices.Clone(l))
		c.Step()
		yes, maybe := false, false
		for _, v := range l {
			if same(v, x) {
				yes = true
			}
			if !different(v, x) {
				maybe = true
			}
		}
		got := arr.Contains(x)
		if (yes && !got) || (!maybe && got) {
			c.Fatalf("%q contains %q: %v", l, x, got)
		}
		any := false
		for _, v := range l {
			if is(v, x) != is(x, v) {
				c.Fatalf("membership of %q and %q is not symmetric", v, x)
			}
			any = any || is(v, x)
		}
		if any != got {
			c.Fatalf("%q contains %q: %v, item by item: %v", l, x, got, any)
		}
		// has-one-of and has-all
		var q []string
		for n := fx.Int(c.T, "q", 1, 4); n > 0; n-- {
			q = append(q, item(c.T, "qitem", append(slices.Clone(l), q...)))
		}
		one, all := false, true
		for _, v := range q {
			m := arr.Contains(v)
			one, all = one || m, all && m
		}
		if g := arr.HasOneOf(q...); g != one {
			c.Fatalf("%q has one of %q: %v, expected %v", l, q, g, one)
		}
		if g := arr.HasAll(q...); g != all {
			c.Fatalf("%q has all of %q: %v, expected %v", l, q, g, all)
		}
		if arr.HasOneOf() {
			c.Fatalf("%q has one of nothing", l)
		}
		if !slices.Equal(arr, l) {
			c.Fatalf("asking changed %q to %q", l, arr)
		}
		c.Hit("member=%v one=%v all=%v", got, one, all)
		if len(l) >= 2 {
			c.NonTrivial("%q %q %q", l, x, q)
		}
	})

	s.Prop("history", 15000, func(c *hx.Case) {
		var model []string
		for n := fx.Int(c.T, "n", 0, fx.Pick(c.T, "most", 6, 6, 6, 40)); n > 0; n-- {
			model = append(model, item(c.T, "item", model))
		}
		arr := types.StringArray(slices.Clone(model))
		if len(model) == 0 && rapid.Bool().Draw(c.T, "nil") {
			arr = nil
		}
		var log []string
		removed := 0
		for n := fx.Int(c.T, "ops", 1, 10); n > 0; n-- {
			x := item(c.T, "x", model)
			c.Step()
			before := slices.Clone(model)
			if rapid.Bool().Draw(c.T, "add") {
				log = append(log, fmt.Sprintf("add %q", x))
				arr.AddIfNotContains(x)
				if !slices.ContainsFunc(model, func(v string) bool { return is(v, x) }) {
					model = append(model, x)
				}
				if !arr.Contains(x) {
					c.Fatalf("%q after %v on %q: not a member", arr, log, before)
				}
			} else {
				log = append(log, fmt.Sprintf("remove %q", x))
				arr.Remove(x)
				k := len(model)
				model = slices.DeleteFunc(slices.Clone(model), func(v string) bool { return is(v, x) })
				removed += k - len(model)
				if arr.Contains(x) {
					c.Fatalf("%q after %v on %q: still a member", arr, log, before)
				}
			}
			if !slices.Equal([]string(arr), model) {
				c.Fatalf("%q after %v, expected %q", arr, log, model)
			}
		}
		if removed > 0 {
			c.Hit("removed %d", removed)
		}
		c.NonTrivial("%v %q", log, model)
	})

	s.Prop("compare", 20000, func(c *hx.Case) {
		a := rapid.SliceOfN(rapid.Byte(), 0, fx.Pick(c.T, "max", 2, 40, 600)).Draw(c.T, "a")
		b := bytes.Clone(a)
		how := fx.Pick(c.T, "how", "equal", "bit", "longer", "shorter", "prefix", "other", "nul", "first", "last")
		at := 0
		if len(b) > 0 {
			at = fx.Int(c.T, "at", 0, len(b)-1)
		}
		switch how {
		case "bit":
			if len(b) > 0 {
				b[at] ^= 1 << fx.Int(c.T, "bit", 0, 7)
			}
		case "first":
			if len(b) > 0 {
				b[0] ^= 0x80
			}
		case "last":
			if len(b) > 0 {
				b[len(b)-1] ^= 1
			}
		case "longer":
			b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(c.T, "more")...)
		case "nul":
			b = append(b, 0)
		case "shorter":
			b = b[:at]
		case "prefix":
			b = append(rapid.SliceOfN(rapid.Byte(), 1, 3).Draw(c.T, "pre"), b...)
		case "other":
			b = rapid.SliceOfN(rapid.Byte(), len(a), len(a)).Draw(c.T, "b")
		}
		ca, cb := bytes.Clone(a), bytes.Clone(b)
		c.Step()
		want := string(a) == string(b)
		if g := types.SecureCompare(a, b); g != want {
			c.Fatalf("SecureCompare(%x, %x) = %v", a, b, g)
		}
		if g := types.SecureCompare(b, a); g != want {
			c.Fatalf("SecureCompare(%x, %x) = %v", b, a, g)
		}
		if g := types.SecureCompareString(string(a), string(b)); g != want {
			c.Fatalf("SecureCompareString(%q, %q) = %v", a, b, g)
		}
		if g := types.SecureCompareString(string(b), string(a)); g != want {
			c.Fatalf("SecureCompareString(%q, %q) = %v", b, a, g)
		}
		if !bytes.Equal(a, ca) || !bytes.Equal(b, cb) {
			c.Fatalf("comparison changed its arguments")
		}
		c.Hit("%s %v", how, want)
		if len(a) == len(b) && len(a) > 0 {
			c.NonTrivial("%x %x", a, b)
		}
	})

	// Lengths which agree modulo small powers of two.
	s.Prop("long", 60, func(c *hx.Case) {
		n := fx.Pick(c.T, "n", 0, 1, 255, 256, 257)
		d := fx.Pick(c.T, "d", 256, 1<<16, 1<<17)
		a, b := bytes.Repeat([]byte{'a'}, n), bytes.Repeat([]byte{'a'}, n+d)
		if types.SecureCompare(a, b) || types.SecureCompare(b, a) || types.SecureCompareString(string(a), string(b)) || types.SecureCompareString(string(b), string(a)) {
			c.Fatalf("strings of %d and %d bytes compare equal", n, n+d)
		}
		b[len(b)-1] = 'b'
		if e := bytes.Clone(b); !types.SecureCompare(b, e) || !types.SecureCompareString(string(b), string(e)) {
			c.Fatalf("equal strings of %d bytes compare different", len(b))
		}
		// strings of one length which differ in a single byte, anywhere
		e := bytes.Clone(b)
		at := fx.Pick(c.T, "at", 0, len(e)/2, len(e)-1, min(len(e)-1, fx.Int(c.T, "pos", 0, 1<<17)))
		e[at] ^= 1 << fx.Int(c.T, "bit", 0, 7)
		if types.SecureCompare(b, e) || types.SecureCompare(e, b) || types.SecureCompareString(string(b), string(e)) || types.SecureCompareString(string(e), string(b)) {
			c.Fatalf("strings of %d bytes which differ at %d compare equal", len(b), at)
		}
		c.NonTrivial("%d %d %d", n, d, at)
	})

	s.Prop("nil", 2000, func(c *hx.Case) {
		type thing struct {
			v    any
			want bool
			name string
		}
		n := fx.Int(c.T, "v", -3, 3)
		str := fx.Str(c.T, "s", fx.Alnum, 0, 3)
		pp := (*int)(nil)
		x := fx.Pick(c.T, "value",
			thing{nil, true, "nil"}, thing{error(nil), true, "nil error"}, thing{io.Reader(nil), true, "nil reader"},
			thing{(*int)(nil), true, "nil *int"}, thing{(*clientv1.Client)(nil), true, "nil client"}, thing{(*bytes.Buffer)(nil), true, "nil buffer"}, thing{(**int)(nil), true, "nil **int"},
			thing{n, false, "int"}, thing{&n, false, "*int"}, thing{str, false, "string"}, thing{&str, false, "*string"},
			thing{struct{}{}, false, "struct"}, thing{&struct{}{}, false, "*struct"}, thing{&clientv1.Client{}, false, "client"},
			thing{[]byte{1}, false, "bytes"}, thing{map[string]int{"a": n}, false, "map"}, thing{func() {}, false, "func"}, thing{make(chan int), false, "chan"},
			thing{errors.New(str), false, "error"}, thing{&pp, false, "pointer to a nil pointer"}, thing{[0]int{}, false, "array"}, thing{n == 0, false, "bool"}, thing{uintptr(0), false, "uintptr"}, thing{float64(n), false, "float"},
		)
		if g := types.IsNil(x.v); g != x.want {
			c.Fatalf("IsNil(%s %v) = %v", x.name, x.v, g)
		}
		if *types.StringRef(str) != str || *types.UInt64Ref(uint64(n)) != uint64(n) || *types.BoolRef(n > 0) != (n > 0) {
			c.Fatalf("reference helpers change %q %d", str, n)
		}
		c.Hit("%s", x.name)
		c.NonTrivial("%s %d %q", x.name, n, str)
	})
}
