package c20

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token/verifiable"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

const base62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

func encode(b []byte, n int) string {
	s := new(big.Int).SetBytes(b).Text(62)
	if len(s) < n {
		s = strings.Repeat("0", n-len(s)) + s
	}
	return s
}

func decode(s string, n int) []byte {
	i, ok := new(big.Int).SetString(s, 62)
	if !ok || i.BitLen() > 8*n {
		panic("HARNESS-ERROR: not base62: " + s)
	}
	return i.FillBytes(make([]byte, n))
}

var shape = regexp.MustCompile(`^(?:([a-z0-9-]+)_)?([0-9A-Za-z]{22})_([0-9A-Za-z]{59,60})$`)

func normal(prefix string) string { return strings.TrimSpace(strings.ToLower(prefix)) }

func legal(prefix string) bool {
	return strings.Trim(normal(prefix), "abcdefghijklmnopqrstuvwxyz0123456789-") == ""
}

func drawSecret(t *rapid.T, label string) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, label)
}

func drawUUID(t *rapid.T, label string) (u [16]byte) {
	switch fx.Int(t, label+"_kind", 0, 3) {
	case 0:
	case 1:
		for i := range u {
			u[i] = 0xff
		}
	default:
		copy(u[:], rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, label))
		if fx.Chance(t, label+"_small", 3) {
			for i := 0; i < 8; i++ {
				u[i] = 0
			}
		}
	}
	return u
}

func drawPrefix(t *rapid.T, label string) string {
	switch fx.Int(t, label+"_kind", 0, 3) {
	case 0:
		return ""
	case 1:
		return fx.Pick(t, label, "sldat", "sldrt", "sldpt", "at", "a", "-", "0", "a-b-c", "SLDAT", " At ", "\tx\n", "  ", "x9-")
	default:
		return fx.Str(t, label, "abcxyz0189-ABZ", 1, 12)
	}
}

type parts struct {
	prefix, id, sig string // as texts; prefix without separator
	has             bool
}

func split(c *hx.Case, tok string) parts {
	m := shape.FindStringSubmatch(tok)
	if m == nil {
		c.Fatalf("token %q has not the documented form", tok)
	}
	return parts{m[1], m[2], m[3], m[1] != ""}
}

func (p parts) String() string {
	s := p.id + "_" + p.sig
	if p.has {
		return p.prefix + "_" + s
	}
	return s
}

// alter makes a string which differs from the token and says how.
func alter(t *rapid.T, p parts, other parts) (string, string) {
	flip := func(b []byte, lo, hi int) []byte {
		b = bytes.Clone(b)
		b[fx.Int(t, "at", lo, hi)] ^= 1 << fx.Int(t, "bit", 0, 7)
		return b
	}
	sub := func(s string) string {
		i := fx.Int(t, "char", 0, len(s)-1)
		return s[:i] + fx.Pick(t, "to", strings.Split(base62+"-_ =\n\x00", "")...) + s[i+1:]
	}
	big2 := func(s string, bits uint) string {
		i, _ := new(big.Int).SetString(s, 62)
		return i.Add(i, new(big.Int).Lsh(big.NewInt(int64(fx.Int(t, "times", 1, 4))), bits)).Text(62)
	}
	id, sig := decode(p.id, 16), decode(p.sig, 44)
	switch fx.Int(t, "alteration", 0, 20) {
	case 0:
		p.id = encode(flip(id, 0, 15), 22)
		return p.String(), "id bit"
	case 1:
		p.sig = encode(flip(sig, 0, 11), 59)
		return p.String(), "nonce bit"
	case 2:
		p.sig = encode(flip(sig, 12, 43), 59)
		return p.String(), "signature bit"
	case 3:
		p.id = sub(p.id)
		return p.String(), "id character"
	case 4:
		p.sig = sub(p.sig)
		return p.String(), "signature character"
	case 5:
		p.has, p.prefix = true, fx.Mutate(t, "prefix", p.prefix)
		return p.String(), "prefix mutated"
	case 6:
		p.has, p.prefix = !p.has, fx.Pick(t, "newprefix", "a", "sldat", "-", "")
		return p.String(), "prefix toggled"
	case 7:
		p.prefix, p.has = other.prefix, other.has
		return p.String(), "prefix of another"
	case 8:
		p.id = other.id
		return p.String(), "id of another"
	case 9:
		p.sig = other.sig
		return p.String(), "signature of another"
	case 10:
		o := decode(other.sig, 44)
		p.sig = encode(append(bytes.Clone(o[:12]), sig[12:]...), 59)
		return p.String(), "nonce of another"
	case 11:
		p.id = big2(p.id, 128)
		return p.String(), "id overflow"
	case 12:
		p.sig = big2(p.sig, 352)
		return p.String(), "signature overflow"
	case 13:
		p.sig = "0" + p.sig
		return p.String(), "signature padded"
	case 14:
		p.sig = strings.TrimPrefix(p.sig, "0")
		p.id = fx.Pick(t, "padid", "0"+p.id, strings.TrimPrefix(p.id, "0"))
		return p.String(), "id padding"
	case 15:
		p.prefix, p.has = strings.ToUpper(p.prefix), true
		return p.String(), "prefix in upper case"
	case 16:
		s := p.String()
		return s[:fx.Int(t, "cut", 0, len(s)-1)], "truncated"
	case 17:
		return fx.Pick(t, "wrap", " %s", "%s ", "%s\n", "_%s", "%s_", "x_%s", "%s_x", "a%s", "%s0", "\x00%s", "%[1]s%[1]s"), "wrapped"
	case 18:
		p.sig = encode(append(bytes.Clone(sig[:12]), make([]byte, 32)...), 59)
		return p.String(), "zero signature"
	case 19:
		p.id, p.sig = p.sig, p.id
		return p.String(), "swapped"
	default:
		s := p.String()
		return fx.FlipCase(t, "case", s), "case"
	}
}

func TestC20(t *testing.T) {
	s := hx.New(t, "C20", "verifiable tokens over drawn secrets, identifiers (zero, maximal, small and random) and prefixes: verified, extracted and compared with the normalized prefix; then a drawn alteration (bits and characters of identifier, nonce, signature and prefix, parts of another token of the same secret, non-canonical and overflowing encodings, truncation, wrapping) or another secret must not verify; arbitrary and token-shaped strings must give an error. Non-trivial: every altered string and generated token, identified by its text.",
		"the 96-bit nonce does not repeat within a run")

	s.Prop("generated", 6000, func(c *hx.Case) {
		secret, id, prefix := drawSecret(c.T, "secret"), drawUUID(c.T, "uuid"), drawPrefix(c.T, "prefix")
		if fx.Chance(c.T, "odd", 6) {
			prefix = fx.Mutate(c.T, "odd", prefix+fx.Pick(c.T, "oddc", "_", " _", "é", "K", "a b", "ſ", "\x00", "a\nb", "A_B", "+", "a\u00a0", "\u2003"))
		}
		var opts []verifiable.GenerateOption
		if prefix != "" || fx.Chance(c.T, "explicit", 2) {
			opts = append(opts, verifiable.WithTokenPrefix(prefix))
		}
		g := verifiable.UUIDGenerator(verifiable.StaticUUIDSource(id), bytes.Clone(secret))
		tok, err := g.Generate(opts...)
		if !legal(prefix) {
			if err == nil || tok != "" {
				c.Fatalf("prefix %q accepted: %q", prefix, tok)
			}
			c.Hit("prefix refused")
			c.NonTrivial("prefix %q", prefix)
			return
		}
		if err != nil {
			c.Fatalf("prefix %q: %v", prefix, err)
		}
		p := split(c, tok)
		if p.prefix != normal(prefix) || !bytes.Equal(decode(p.id, 16), id[:]) {
			c.Fatalf("token %q of prefix %q and id %x", tok, prefix, id)
		}
		again, err := g.Generate(opts...)
		if err != nil || again == tok || split(c, again).sig == p.sig {
			c.Fatalf("generated twice: %q, %q (%v)", tok, again, err)
		}
		v := verifiable.UUIDVerifier(bytes.Clone(secret))
		for _, x := range []string{tok, again} {
			if err := v.Verify(x); err != nil {
				c.Fatalf("%q does not verify: %v", x, err)
			}
			if got, err := v.Extract(x); err != nil || !bytes.Equal(got, id[:]) {
				c.Fatalf("%q extracts to %x (%v), made from %x", x, got, err, id)
			}
		}
		// another secret
		for i := 0; i < 3; i++ {
			wrong := bytes.Clone(secret)
			switch fx.Int(c.T, "wrong", 0, 4) {
			case 0:
				wrong = append(wrong, 0)
			case 1:
				if len(wrong) > 0 {
					wrong = wrong[:len(wrong)-1]
				}
			case 2:
				if len(wrong) > 0 {
					wrong[fx.Int(c.T, "at", 0, len(wrong)-1)] ^= 1 << fx.Int(c.T, "bit", 0, 7)
				}
			case 3:
				wrong = drawSecret(c.T, "wrongsecret")
			default:
				wrong = nil
			}
			if bytes.Equal(wrong, secret) {
				continue
			}
			w := verifiable.UUIDVerifier(wrong)
			if got, err := w.Extract(tok); err == nil || len(got) > 0 || w.Verify(tok) == nil {
				c.Fatalf("%q of secret %x verifies under %x", tok, secret, wrong)
			}
		}
		c.Hit("prefix %v", p.has)
		c.NonTrivial("%s", tok)
	})

	s.Prop("altered", 5000, func(c *hx.Case) {
		secret := drawSecret(c.T, "secret")
		gen := func(label string) parts {
			id, prefix := drawUUID(c.T, label), drawPrefix(c.T, label+"_prefix")
			tok, err := verifiable.UUIDGenerator(verifiable.StaticUUIDSource(id), secret).Generate(verifiable.WithTokenPrefix(prefix))
			if err != nil {
				c.Fatalf("prefix %q: %v", prefix, err)
			}
			return split(c, tok)
		}
		p, other := gen("token"), gen("other")
		v := verifiable.UUIDVerifier(secret)
		genuine := fx.Int(c.T, "genuine", 0, 3)
		for i := 0; i < 6; i++ {
			if genuine > 0 && i%genuine == 0 { // between genuine ones
				for _, p := range []parts{p, other} {
					if got, err := v.Extract(p.String()); err != nil || len(got) != 16 {
						c.Fatalf("genuine %q extracts to %x (%v)", p, got, err)
					}
				}
			}
			bad, how := alter(c.T, p, other)
			if how == "wrapped" {
				bad = fmt.Sprintf(bad, p.String())
			}
			if bad == p.String() || bad == other.String() {
				continue
			}
			c.Step()
			if got, err := v.Extract(bad); err == nil || len(got) > 0 {
				c.Fatalf("%q (%s of %q) extracts to %x (%v)", bad, how, p, got, err)
			}
			if err := v.Verify(bad); err == nil {
				c.Fatalf("%q (%s of %q) verifies", bad, how, p)
			}
			c.Hit("%s", how)
			c.NonTrivial("%s: %q", how, bad)
		}
	})

	s.Prop("arbitrary", 20000, func(c *hx.Case) {
		secret := drawSecret(c.T, "secret")
		var in string
		switch fx.Int(c.T, "shape", 0, 4) {
		case 0:
			in = rapid.String().Draw(c.T, "in")
		case 1:
			in = fx.Str(c.T, "in", base62+"_", 0, 160)
		case 2:
			in = fx.Str(c.T, "id", base62, 22, 22) + "_" + fx.Str(c.T, "sig", base62, 59, 60)
		case 3:
			in = fx.Str(c.T, "prefix", "abc-_", 0, 5) + "_" + fx.Str(c.T, "id", "Zz90", 20, 24) + "_" + fx.Str(c.T, "sig", "Zz90", 57, 62)
		default:
			in = strings.Repeat(fx.Pick(c.T, "unit", "Z", "0", "_", "z_", "\xff"), fx.Int(c.T, "n", 0, 500))
		}
		v := verifiable.UUIDVerifier(secret)
		if got, err := v.Extract(in); err == nil || len(got) > 0 {
			c.Fatalf("%q extracts to %x (%v)", in, got, err)
		}
		if v.Verify(in) == nil {
			c.Fatalf("%q verifies", in)
		}
		c.Hit("shaped %v", shape.MatchString(in))
		c.NonTrivial("%q", in)
	})

	s.Prop("token_kinds", 600, func(c *hx.Case) {
		secret := drawSecret(c.T, "secret")
		src, name := verifiable.UUIDv4Source(), "v4"
		if fx.Chance(c.T, "v7", 2) {
			src, name = verifiable.UUIDv7Source(), "v7"
		}
		g := verifiable.Token(src, secret)
		v := verifiable.UUIDVerifier(secret)
		kinds := []tokenv1.TokenType{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN}
		seen, pre := map[string]bool{}, map[string]bool{}
		for i := 0; i < 12; i++ {
			k := kinds[i%3]
			tok, err := g.Generate(context.Background(), &tokenv1.Token{TokenType: k, TokenId: fx.Pick(c.T, "id", "", "x")})
			if err != nil {
				c.Fatalf("%v: %v", k, err)
			}
			id, err := v.Extract(tok)
			if err != nil || len(id) != 16 || id[6]>>4 != map[string]byte{"v4": 4, "v7": 7}[name] {
				c.Fatalf("%v token %q of %s: id %x (%v)", k, tok, name, id, err)
			}
			p := split(c, tok)
			if !p.has || seen[tok] || seen[p.id] || seen[p.sig] {
				c.Fatalf("%v token %q is not new or has no prefix", k, tok)
			}
			seen[tok], seen[p.id], seen[p.sig] = true, true, true
			pre[p.prefix+"/"+k.String()] = true
			c.NonTrivial("%s", tok)
		}
		prefixes := map[string]bool{}
		for x := range pre {
			prefixes[strings.Split(x, "/")[0]] = true
		}
		if len(pre) != 3 || len(prefixes) != 3 {
			c.Fatalf("prefixes of the three kinds: %v", pre)
		}
		c.Hit("%s", name)
	})

	s.Direct("distinct", func(t *testing.T) int {
		n := 20000
		g := verifiable.UUIDGenerator(verifiable.StaticUUIDSource([16]byte{1}), []byte("secret"))
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			tok, err := g.Generate()
			if err != nil || seen[tok] {
				t.Fatalf("token %d: %q (%v)", i, tok, err)
			}
			seen[tok] = true
		}
		bad := verifiable.UUIDGenerator(func() ([16]byte, error) { return [16]byte{}, errors.New("no id today") }, []byte("secret"))
		if tok, err := bad.Generate(); err == nil || tok != "" {
			t.Fatalf("failing source: %q", tok)
		}
		for _, g := range []interface {
			Generate(context.Context, *tokenv1.Token) (string, error)
		}{verifiable.Token(verifiable.UUIDv4Source(), nil)} {
			if tok, err := g.Generate(context.Background(), nil); err == nil || tok != "" {
				t.Fatalf("nil token: %q", tok)
			}
		}
		return n
	})
}
