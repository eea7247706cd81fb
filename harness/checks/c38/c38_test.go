package c38

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"reflect"
	"strings"
	"sync"
	"testing"

	jose "github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"
	"pgregory.net/rapid"

	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/paseto"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

var value func(depth int) *rapid.Generator[any]

func init() {
	value = func(depth int) *rapid.Generator[any] {
		leaves := []*rapid.Generator[any]{
			rapid.Map(rapid.StringOf(rapid.RuneFrom([]rune("ab\"\\<>& é\u2028\U0001F600.\n"))), func(s string) any { return s }),
			rapid.Map(rapid.IntRange(-1<<53, 1<<53), func(i int) any { return float64(i) }),
			rapid.Map(rapid.Bool(), func(b bool) any { return b }),
			rapid.Just[any](nil),
			rapid.Just[any](""),
		}
		if depth > 0 {
			leaves = append(leaves,
				rapid.Map(rapid.SliceOfN(value(depth-1), 0, 3), func(x []any) any { return x }),
				rapid.Map(rapid.MapOfN(rapid.SampledFrom([]string{"a", "b", "c d", ""}), value(depth-1), 0, 3), func(x map[string]any) any { return x }))
		}
		return rapid.OneOf(leaves...)
	}
}

type record struct {
	Iss string         `json:"iss"`
	Exp uint64         `json:"exp,omitempty"`
	Own []string       `json:"own,omitempty"`
	Cnf map[string]any `json:"cnf,omitempty"`
}

// claimsOf draws claims and what a reader of the token must find.
func claimsOf(c *hx.Case) (any, any) {
	var claims any
	switch fx.Int(c.T, "shape", 0, 5) {
	case 0:
		r := &record{Iss: rapid.String().Draw(c.T, "iss"), Exp: uint64(fx.Int(c.T, "exp", 0, 1<<50))}
		if fx.Chance(c.T, "own", 2) {
			r.Own = []string{"a", "b"}
		}
		claims = r
		if fx.Chance(c.T, "byvalue", 2) {
			claims = *r
		}
	default:
		claims = rapid.MapOfN(rapid.SampledFrom([]string{"iss", "sub", "aud", "exp", "kid", "typ", "x", "é", "scope", ""}), value(2), 0, 6).Draw(c.T, "claims")
	}
	b, err := json.Marshal(claims)
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	return claims, parse(b)
}

func parse(b []byte) any {
	var v any
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(&v); err != nil {
		return err
	}
	if d.More() {
		return errors.New("more than one value")
	}
	return v
}

// read is an independent reader of v4.public tokens (PASETO specification):
// payload and footer of a token signed by pub with the given assertion.
func read(tok string, pub ed25519.PublicKey) (payload, footer []byte, ok bool) {
	parts := strings.Split(tok, ".")
	if len(parts) != 4 || parts[0] != "v4" || parts[1] != "public" {
		return nil, nil, false
	}
	enc := base64.RawURLEncoding.Strict()
	body, err1 := enc.DecodeString(parts[2])
	footer, err2 := enc.DecodeString(parts[3])
	if err1 != nil || err2 != nil || len(body) < 64 {
		return nil, nil, false
	}
	payload = body[:len(body)-64]
	var pre []byte
	pre = binary.LittleEndian.AppendUint64(pre, 4)
	for _, p := range [][]byte{[]byte("v4.public."), payload, footer, nil} {
		pre = binary.LittleEndian.AppendUint64(pre, uint64(len(p)))
		pre = append(pre, p...)
	}
	return payload, footer, ed25519.Verify(pub, pre, body[len(body)-64:])
}

var kids = []string{"k1", "key/ü", "a b", "https://x/y#z", "0", "\"<", "k1+paseto"}
var types = []string{"at", "rt", "jarm", "oauth-authz-req", "dpop", "client-assertion", "token-introspection", "my type", "at+paseto", ""}

// recorder is an encrypter that notes what it was asked to encrypt.
type recorder struct {
	mu     sync.Mutex
	calls  []call
	answer string
	err    error
}

type call struct {
	ctx            context.Context
	content, token string
	aad            []byte
}

func (r *recorder) Encrypt(ctx context.Context, contentType, tok string, aad []byte) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.calls = append(r.calls, call{ctx, contentType, tok, bytes.Clone(aad)})
	return r.answer, r.err
}

// fixed is a serializer with a fixed answer that notes its claims.
type fixed struct {
	content, answer string
	err             error
	ctx             context.Context
	claims          []any
}

func (f *fixed) Serialize(ctx context.Context, claims any) (string, error) {
	f.ctx, f.claims = ctx, append(f.claims, claims)
	return f.answer, f.err
}
func (f *fixed) ContentType() string { return f.content }

type ctxKey struct{}

func TestC38(t *testing.T) {
	s := hx.New(t, "C38", "PASETO tokens of drawn types, key ids and nested claims, read back by an independent implementation of the published v4.public format under the signing key and another one, and after a drawn alteration; drawn unusable inputs; and encrypted tokens over every kind of serializer with a recording encrypter, failing and succeeding in drawn ways. Non-trivial: every token, refusal and encryption, identified by its inputs.",
		"zntr.io/paseto is not installed: a stand-in written from the published PASETO v4 specification takes its place (harness/standin)",
		"numbers are within 2^53")

	s.Prop("paseto", 2000, func(c *hx.Case) {
		k := fx.GetKey(jose.EdDSA, fx.Int(c.T, "n", 0, 2))
		kid, typ := fx.Pick(c.T, "kid", kids...), fx.Pick(c.T, "type", types...)
		claims, want := claimsOf(c)
		signer := paseto.DefaultSigner(typ, fx.Provider(k.JWK(kid)))
		// one signer, several tokens: each is its own
		for i := fx.Int(c.T, "times", 1, 3); i > 0; i-- {
			tok, err := signer.Serialize(bg, claims)
			if err != nil {
				c.Fatalf("serialize %v: %v", claims, err)
			}
			payload, footer, ok := read(tok, k.Pub.(ed25519.PublicKey))
			if !ok {
				c.Fatalf("not a v4.public token of the signing key: %q", tok)
			}
			if _, _, ok := read(tok, k.Other().Pub.(ed25519.PublicKey)); ok {
				c.Fatalf("token verifies with another key: %q", tok)
			}
			if got := parse(payload); !reflect.DeepEqual(got, want) {
				c.Fatalf("payload %s, claims %v", payload, want)
			}
			if got := parse(footer); !reflect.DeepEqual(got, map[string]any{"kid": kid, "typ": typ + "+paseto"}) {
				c.Fatalf("footer %s of a %q token signed with %q", footer, typ, kid)
			}
			// a changed part breaks the signature
			parts := strings.Split(tok, ".")
			p := fx.Int(c.T, "part", 2, 3)
			raw := fx.UnB64(parts[p])
			raw[fx.Int(c.T, "at", 0, len(raw)-1)] ^= 1 << fx.Int(c.T, "bit", 0, 7)
			parts[p] = fx.B64(raw)
			if _, _, ok := read(strings.Join(parts, "."), k.Pub.(ed25519.PublicKey)); ok {
				c.Fatalf("altered token verifies")
			}
			claims, want = claimsOf(c)
		}
		if signer.ContentType() != "PASETO" {
			c.Fatalf("content type %q", signer.ContentType())
		}
		c.NonTrivial("%s %q %v", typ, kid, want)
	})

	s.Prop("paseto_rotation", 400, func(c *hx.Case) {
		// the provider decides at every call which key signs
		n, kid := 0, ""
		signer := paseto.DefaultSigner("at", func(context.Context) (*jose.JSONWebKey, error) {
			return fx.GetKey(jose.EdDSA, n).JWK(kid), nil
		})
		for i := fx.Int(c.T, "times", 2, 5); i > 0; i-- {
			n, kid = fx.Int(c.T, "n", 0, 2), fx.Pick(c.T, "kid", kids...)
			tok, err := signer.Serialize(bg, map[string]any{"i": i})
			if err != nil {
				c.Fatalf("serialize: %v", err)
			}
			_, footer, ok := read(tok, fx.GetKey(jose.EdDSA, n).Pub.(ed25519.PublicKey))
			if !ok || !reflect.DeepEqual(parse(footer), map[string]any{"kid": kid, "typ": "at+paseto"}) {
				c.Fatalf("key %d %q: token %q footer %s", n, kid, tok, footer)
			}
			c.Hit("key %d", n)
		}
		c.NonTrivial("%d %q", n, kid)
	})

	s.Prop("paseto_refused", 1000, func(c *hx.Case) {
		var claims any = map[string]any{"a": 1}
		k := fx.GetKey(jose.EdDSA, 0)
		key := k.JWK("k")
		var provider jwk.KeyProviderFunc = func(context.Context) (*jose.JSONWebKey, error) { return key, nil }
		what := fx.Int(c.T, "what", 0, 9)
		switch what {
		case 0:
			claims = nil
		case 1:
			claims = (*record)(nil)
		case 2:
			claims = (*map[string]any)(nil)
		case 3:
			provider = nil
		case 4:
			key = nil
		case 5:
			key.KeyID = ""
		case 6:
			provider = func(context.Context) (*jose.JSONWebKey, error) { return key, errors.New("no key today") }
		case 7:
			pub := k.PubJWK("k")
			key = &pub
		case 8:
			claims = fx.Pick(c.T, "unserializable", any(map[string]any{"f": func() {}}), any(make(chan int)), any(map[string]any{"a": 1, "c": make(chan int)}))
		case 9:
			alg := fx.Pick(c.T, "alg", jose.ES256, jose.ES384, jose.RS256, jose.PS256)
			key = &jose.JSONWebKey{KeyID: "k", Key: fx.Pick(c.T, "bad", any([]byte("0123456789012345678901234567890123456789012345678901234567890123")), any(nil), any("text"), fx.GetKey(alg, 0).Priv, fx.GetKey(alg, 0).Pub)}
		}
		tok, err := paseto.DefaultSigner("at", provider).Serialize(bg, claims)
		if err == nil || tok != "" {
			c.Fatalf("input %d: %q, %v", what, tok, err)
		}
		c.Hit("input %d", what)
		c.NonTrivial("%d", what)
	})

	s.Prop("encryption", 1500, func(c *hx.Case) {
		claims, _ := claimsOf(c)
		answer := rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "a.b.c.d.e", "v4.local.xx"})).Draw(c.T, "answer")
		enc := &recorder{answer: answer}
		content := fx.Pick(c.T, "content", "JWT", "CWT", "PASETO", "HYBRID", "", "any/thing; q")
		signed := rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "a.b.c", " a.b.c "})).Draw(c.T, "signed")
		ser := &fixed{content: content, answer: signed}
		fail := fx.Int(c.T, "fail", 0, 4)
		if fail == 1 {
			ser.err = errors.New("cannot sign")
		}
		if fail == 2 {
			enc.err = errors.New("cannot encrypt")
		}
		again := fx.Chance(c.T, "again", 2)
		d := token.Encryption(ser, enc)
		if d.ContentType() != "HYBRID" {
			c.Fatalf("content type %q", d.ContentType())
		}
		ctx := context.WithValue(bg, ctxKey{}, "mine")
		tok, err := d.Serialize(ctx, claims)
		if len(ser.claims) != 1 || !reflect.DeepEqual(ser.claims[0], claims) || ser.ctx.Value(ctxKey{}) != "mine" {
			c.Fatalf("signed claims %v (%v)", ser.claims, ser.ctx)
		}
		switch {
		case fail == 1:
			if err == nil || !errors.Is(err, ser.err) || tok != "" || len(enc.calls) != 0 {
				c.Fatalf("signing failed: %q, %v, %d encryptions", tok, err, len(enc.calls))
			}
		case fail == 2:
			if err == nil || !errors.Is(err, enc.err) || tok != "" || len(enc.calls) != 1 {
				c.Fatalf("encryption failed: %q, %v, %d encryptions", tok, err, len(enc.calls))
			}
		default:
			if err != nil || tok != answer || len(enc.calls) != 1 {
				c.Fatalf("result %q (%v), encrypter gave %q in %d calls", tok, err, answer, len(enc.calls))
			}
			if again { // the same token once more: encrypted anew, or refused
				enc.answer += "'"
				enc.err = nil
				tok, err := d.Serialize(ctx, claims)
				if err != nil || tok != enc.answer || len(enc.calls) != 2 || len(ser.claims) != 2 {
					c.Fatalf("second result %q (%v), encrypter gave %q in %d calls", tok, err, enc.answer, len(enc.calls))
				}
				enc.err = errors.New("cannot encrypt")
				if tok, err := d.Serialize(ctx, claims); err == nil || tok != "" {
					c.Fatalf("third result %q (%v), encrypter failed", tok, err)
				}
				enc.calls = enc.calls[:1]
			}
		}
		if len(enc.calls) == 1 {
			e := enc.calls[0]
			if e.token != signed || e.content != content || string(e.aad) != "urn:solid:token:sign-and-encrypt" || e.ctx.Value(ctxKey{}) != "mine" {
				c.Fatalf("encrypter got content %q token %q data %q for a %q token %q", e.content, e.token, e.aad, content, signed)
			}
		}
		c.Hit("fail %d", fail)
		c.NonTrivial("%d %q %q", fail, content, signed)
	})

	s.Prop("encryption_of_kinds", 400, func(c *hx.Case) {
		claims := map[string]any{"iss": "https://a", "n": "1"}
		ed, ec := fx.GetKey(jose.EdDSA, 0), fx.GetKey(jose.ES256, 0)
		var ser token.Serializer
		want := fx.Pick(c.T, "kind", "PASETO", "JWT", "CWT", "HYBRID")
		switch want {
		case "PASETO":
			ser = paseto.DefaultSigner("at", fx.Provider(ed.JWK("k")))
		case "JWT":
			ser = jwt.AccessTokenSigner(jose.ES256, fx.Provider(ec.JWK("k")))
		case "CWT":
			ser = cwt.AccessTokenSigner(cose.ES256, fx.Provider(ec.JWK("k")))
		default: // encrypted twice
			ser = token.Encryption(jwt.AccessTokenSigner(jose.ES256, fx.Provider(ec.JWK("k"))), &recorder{answer: "inner"})
		}
		enc := &recorder{answer: "outer"}
		tok, err := token.Encryption(ser, enc).Serialize(bg, claims)
		if err != nil || tok != "outer" || len(enc.calls) != 1 || enc.calls[0].content != want {
			c.Fatalf("%s: %q, %v, %v", want, tok, err, enc.calls)
		}
		in := enc.calls[0].token
		switch want {
		case "PASETO":
			if _, _, ok := read(in, ed.Pub.(ed25519.PublicKey)); !ok {
				c.Fatalf("encrypted %q", in)
			}
		case "JWT":
			if sig, err := jose.ParseSigned(in, []jose.SignatureAlgorithm{jose.ES256}); err != nil {
				c.Fatalf("encrypted %q: %v", in, err)
			} else if _, err := sig.Verify(ec.Pub); err != nil {
				c.Fatalf("encrypted %q: %v", in, err)
			}
		case "HYBRID":
			if in != "inner" {
				c.Fatalf("encrypted %q", in)
			}
		}
		c.Hit("%s", want)
		c.NonTrivial("%s %s", want, in)
	})

	s.Prop("encryption_refused", 400, func(c *hx.Case) {
		ser, enc := token.Serializer(&fixed{content: "JWT", answer: "clear"}), token.Encrypter(&recorder{answer: "x"})
		what := fx.Int(c.T, "what", 0, 4)
		switch what {
		case 0:
			ser = nil
		case 1:
			ser = (*fixed)(nil)
		case 2:
			enc = nil
		case 3:
			enc = (*recorder)(nil)
		case 4:
			ser = paseto.DefaultSigner("at", fx.Provider(fx.GetKey(jose.ES256, 0).JWK("k")))
		}
		tok, err := token.Encryption(ser, enc).Serialize(bg, map[string]any{"a": 1})
		if err == nil || tok != "" {
			c.Fatalf("input %d: %q, %v", what, tok, err)
		}
		if r, ok := enc.(*recorder); ok && r != nil && len(r.calls) != 0 {
			c.Fatalf("input %d: encrypter called", what)
		}
		c.Hit("input %d", what)
		c.NonTrivial("%d", what)
	})
}
