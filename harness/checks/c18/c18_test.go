package c18

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"testing"

	cbor "github.com/fxamacker/cbor/v2"
	jose "github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"
	"pgregory.net/rapid"

	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

type kind struct {
	name, typ string
	build     func(*cose.Algorithm, jwk.KeyProviderFunc) token.Serializer
}

var kinds = []kind{
	{"access token", "at+cwt", cwt.AccessTokenSigner},
	{"refresh token", "rt+cwt", cwt.RefreshTokenSigner},
	{"request", "oauth-authz-req+cwt", cwt.RequestSigner},
	{"jarm", "jarm+cwt", cwt.JARMSigner},
	{"dpop", "dpop+cwt", cwt.DPoPSigner},
	{"client assertion", "client-assertion+cwt", cwt.ClientAssertionSigner},
	{"introspection", "token-introspection+cwt", cwt.TokenIntrospection},
	{"custom", "my type+cwt", func(a *cose.Algorithm, p jwk.KeyProviderFunc) token.Serializer {
		return cwt.DefaultSigner("my type", a, p)
	}},
}

type algo struct {
	cose *cose.Algorithm
	alg  jose.SignatureAlgorithm
	id   int64
	hash crypto.Hash
}

var algos = []algo{
	{cose.ES256, jose.ES256, -7, crypto.SHA256},
	{cose.ES384, jose.ES384, -35, crypto.SHA384},
	{cose.ES512, jose.ES512, -36, crypto.SHA512},
	{cose.PS256, jose.PS256, -37, crypto.SHA256},
}

// decoded is a COSE_Sign message, read without the library.
type decoded struct {
	bodyProt, signProt, payload, sig []byte
	prot, unprot                     map[any]any
}

func decode(c *hx.Case, tok string) *decoded {
	raw, err := base64.RawURLEncoding.Strict().DecodeString(tok)
	if err != nil {
		c.Fatalf("token is not base64url: %v: %q", err, tok)
	}
	var tag cbor.RawTag
	if err := cbor.Unmarshal(raw, &tag); err != nil || tag.Number != 98 {
		c.Fatalf("not a COSE_Sign message: tag %d (%v)", tag.Number, err)
	}
	var msg struct {
		_    struct{} `cbor:",toarray"`
		Prot []byte
		Un   map[any]any
		Pl   []byte
		Sigs []struct {
			_    struct{} `cbor:",toarray"`
			Prot []byte
			Un   map[any]any
			Sig  []byte
		}
	}
	if err := cbor.Unmarshal(tag.Content, &msg); err != nil || len(msg.Sigs) != 1 {
		c.Fatalf("COSE_Sign content: %v (%d signatures)", err, len(msg.Sigs))
	}
	d := &decoded{bodyProt: msg.Prot, signProt: msg.Sigs[0].Prot, payload: msg.Pl, sig: msg.Sigs[0].Sig, unprot: msg.Sigs[0].Un}
	if err := cbor.Unmarshal(d.signProt, &d.prot); err != nil {
		c.Fatalf("protected header: %v", err)
	}
	return d
}

// verify is an independent COSE signature check (RFC 8152 section 4.4).
func (d *decoded) verify(k *fx.Key, hash crypto.Hash) bool {
	tbs, err := cbor.Marshal([]any{"Signature", d.bodyProt, d.signProt, []byte("solid"), d.payload})
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	var digest []byte
	switch hash {
	case crypto.SHA256:
		h := sha256.Sum256(tbs)
		digest = h[:]
	case crypto.SHA384:
		h := sha512.Sum384(tbs)
		digest = h[:]
	default:
		h := sha512.Sum512(tbs)
		digest = h[:]
	}
	switch pub := k.Pub.(type) {
	case *ecdsa.PublicKey:
		n := (pub.Curve.Params().BitSize + 7) / 8
		if len(d.sig) != 2*n {
			return false
		}
		return ecdsa.Verify(pub, digest, new(big.Int).SetBytes(d.sig[:n]), new(big.Int).SetBytes(d.sig[n:]))
	case *rsa.PublicKey:
		return rsa.VerifyPSS(pub, hash, digest, d.sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash}) == nil
	}
	return false
}

var value func(depth int) *rapid.Generator[any]

func init() {
	value = func(depth int) *rapid.Generator[any] {
		leaves := []*rapid.Generator[any]{
			rapid.Map(rapid.StringOf(rapid.RuneFrom([]rune("ab\"\\<>& é\u2028\U0001F600."))), func(s string) any { return s }),
			rapid.Map(rapid.Uint64(), func(i uint64) any { return i }),
			rapid.Map(rapid.Int64Range(-1<<62, -1), func(i int64) any { return i }),
			rapid.Map(rapid.SliceOfN(rapid.Byte(), 1, 8), func(b []byte) any { return b }),
			rapid.Map(rapid.Bool(), func(b bool) any { return b }),
			rapid.Just[any](nil),
			rapid.Just[any](""),
		}
		if depth > 0 {
			leaves = append(leaves,
				rapid.Map(rapid.SliceOfN(value(depth-1), 0, 3), func(x []any) any { return x }),
				rapid.Map(rapid.MapOfN(key, value(depth-1), 0, 3), func(x map[any]any) any { return x }))
		}
		return rapid.OneOf(leaves...)
	}
}

var key = rapid.OneOf(
	rapid.Map(rapid.SampledFrom([]string{"iss", "sub", "jkt", "", "é", "a b"}), func(s string) any { return s }),
	rapid.Map(rapid.SampledFrom([]uint64{1, 2, 3, 4, 5, 6, 7, 100, 101, 102}), func(i uint64) any { return i }))

type keyed struct {
	Iss string            `cbor:"1,keyasint,omitempty"`
	Exp uint64            `cbor:"4,keyasint,omitempty"`
	Own string            `cbor:"own,omitempty"`
	Cnf map[string]string `cbor:"102,keyasint,omitempty"`
}

// claimsOf draws claims and what their payload decodes to.
func claimsOf(c *hx.Case) (claims any, want map[any]any) {
	if fx.Chance(c.T, "struct", 3) {
		s := &keyed{Iss: rapid.String().Draw(c.T, "iss"), Exp: rapid.Uint64().Draw(c.T, "exp"), Own: rapid.String().Draw(c.T, "own")}
		want = map[any]any{}
		if s.Iss != "" {
			want[uint64(1)] = s.Iss
		}
		if s.Exp != 0 {
			want[uint64(4)] = s.Exp
		}
		if s.Own != "" {
			want["own"] = s.Own
		}
		if fx.Chance(c.T, "cnf", 2) {
			s.Cnf = map[string]string{"jkt": "thumb"}
			want[uint64(102)] = map[any]any{"jkt": "thumb"}
		}
		if fx.Chance(c.T, "byvalue", 2) {
			return *s, want
		}
		return s, want
	}
	want = rapid.MapOfN(key, value(2), 0, 6).Draw(c.T, "claims")
	return want, want
}

func TestC18(t *testing.T) {
	s := hx.New(t, "C18", "CWTs of all seven kinds (and custom types) for every COSE algorithm and drawn nested claims (integer and text keys): the message is parsed and its Sig_structure verified with the standard library's ECDSA and RSA-PSS, under the signing key (accepted) and another key (refused); after a drawn alteration of payload, protected header or signature it no longer verifies; and drawn unusable inputs (nil and unserializable claims, absent, anonymous, public, symmetric and unsupported keys, failing providers). Non-trivial: every token and refusal, identified by kind, algorithm, key id and claims.",
		"floating point claims are not drawn", "an EdDSA key is refused, as COSE EdDSA is not supported by the library used")

	s.Prop("round_trip", 2500, func(c *hx.Case) {
		kd := fx.Pick(c.T, "kind", kinds...)
		a := fx.Pick(c.T, "alg", algos...)
		k := fx.GetKey(a.alg, fx.Int(c.T, "n", 0, 2))
		kid := fx.Pick(c.T, "kid", "k1", "key/ü", "a b", "https://x/y#z", "0")
		claims, want := claimsOf(c)
		signer := kd.build(a.cose, fx.Provider(k.JWK(kid)))
		tok, err := signer.Serialize(bg, claims)
		if err != nil {
			c.Fatalf("serialize %v with %s: %v", claims, k.Alg, err)
		}
		if signer.ContentType() != "CWT" {
			c.Fatalf("content type %q", signer.ContentType())
		}
		d := decode(c, tok)
		if d.prot["typ"] != kd.typ || fmt.Sprint(d.prot[uint64(1)]) != fmt.Sprint(a.id) {
			c.Fatalf("protected header of a %s token with %s: %v", kd.name, k.Alg, d.prot)
		}
		if d.unprot[uint64(4)] != kid {
			c.Fatalf("key id %v, signed with %q", d.unprot, kid)
		}
		var got map[any]any
		if err := cbor.Unmarshal(d.payload, &got); err != nil || !reflect.DeepEqual(got, want) {
			c.Fatalf("payload %v (%v), claims %v", got, err, want)
		}
		if !d.verify(k, a.hash) {
			c.Fatalf("%s %s token does not verify: %x", kd.name, k.Alg, d.sig)
		}
		if d.verify(k.Other(), a.hash) {
			c.Fatalf("%s %s token verifies with another key", kd.name, k.Alg)
		}
		// the message is what the COSE library verifies, too
		var msg cose.SignMessage
		raw := fx.UnB64(tok)
		m, err := cose.Unmarshal(raw)
		if err == nil {
			sm, ok := m.(cose.SignMessage)
			if !ok {
				c.Fatalf("not a sign message: %T", m)
			}
			msg = sm
			if err := msg.Verify([]byte("solid"), []cose.Verifier{{PublicKey: k.Pub, Alg: a.cose}}); err != nil {
				c.Fatalf("COSE verification: %v", err)
			}
			if err := msg.Verify([]byte("solid"), []cose.Verifier{{PublicKey: k.Other().Pub, Alg: a.cose}}); err == nil {
				c.Fatalf("COSE verification with another key")
			}
		}
		// a change of any part breaks the signature
		part := fx.Pick(c.T, "part", &d.payload, &d.signProt, &d.sig)
		b := bytes.Clone(*part)
		b[fx.Int(c.T, "at", 0, len(b)-1)] ^= 1 << fx.Int(c.T, "bit", 0, 7)
		*part = b
		if d.verify(k, a.hash) {
			c.Fatalf("altered %s %s token verifies", kd.name, k.Alg)
		}
		c.Hit("%s", kd.name)
		c.Hit("%s", k.Alg)
		c.NonTrivial("%s %s kid=%q claims=%v", kd.name, k.Alg, kid, want)
	})

	// A signer asks for its key at each token.
	s.Prop("rotation", 400, func(c *hx.Case) {
		kd := fx.Pick(c.T, "kind", kinds...)
		a := fx.Pick(c.T, "alg", algos...)
		n, fail := 0, false
		signer := kd.build(a.cose, func(context.Context) (*jose.JSONWebKey, error) {
			if fail {
				return nil, errors.New("no key today")
			}
			return fx.GetKey(a.alg, n).JWK(fmt.Sprintf("k%d", n)), nil
		})
		var log []string
		for i, steps := 0, fx.Int(c.T, "steps", 2, 8); i < steps; i++ {
			n, fail = fx.Int(c.T, "key", 0, 2), fx.Chance(c.T, "fail", 5)
			claims, want := claimsOf(c)
			tok, err := signer.Serialize(bg, claims)
			c.Step()
			log = append(log, fmt.Sprintf("k%d/%v", n, fail))
			if fail {
				if err == nil || tok != "" {
					c.Fatalf("token %q without a key (%v)", tok, log)
				}
				continue
			}
			if err != nil {
				c.Fatalf("serialize: %v (%v)", err, log)
			}
			d := decode(c, tok)
			var got map[any]any
			if err := cbor.Unmarshal(d.payload, &got); err != nil || !reflect.DeepEqual(got, want) {
				c.Fatalf("payload %v (%v), claims %v (%v)", got, err, want, log)
			}
			if d.unprot[uint64(4)] != fmt.Sprintf("k%d", n) || !d.verify(fx.GetKey(a.alg, n), a.hash) {
				c.Fatalf("token of key id %v does not verify with the current key k%d (%v)", d.unprot, n, log)
			}
		}
		c.NonTrivial("%s %s %v", kd.name, a.alg, log)
	})

	s.Prop("refused_inputs", 1500, func(c *hx.Case) {
		kd := fx.Pick(c.T, "kind", kinds...)
		a := fx.Pick(c.T, "alg", algos...)
		k := fx.GetKey(a.alg, 0)
		var claims any = map[string]any{"a": uint64(1)}
		key := k.JWK("k")
		provider := jwk.KeyProviderFunc(func(context.Context) (*jose.JSONWebKey, error) { return key, nil })
		what := fx.Int(c.T, "what", 0, 10)
		switch what {
		case 0:
			claims = nil
		case 1:
			claims = (*keyed)(nil)
		case 2:
			claims = (*map[string]any)(nil)
		case 3:
			provider = nil
		case 4:
			key = nil
		case 5:
			key.KeyID = ""
		case 6:
			provider = func(context.Context) (*jose.JSONWebKey, error) { return key, errors.New("no key today") }
		case 7:
			pub := k.PubJWK("k")
			key = &pub
		case 8:
			claims = fx.Pick(c.T, "unserializable", any(map[string]any{"f": func() {}}), any(make(chan int)))
		case 9:
			key = &jose.JSONWebKey{KeyID: "k", Key: fx.Pick(c.T, "badkey", any([]byte("secret")), any(nil), any("text"), fx.GetKey(jose.EdDSA, 0).Priv, fx.GetKey(jose.EdDSA, 0).Pub)}
		case 10: // key of another family
			o := fx.GetKey(jose.PS256, 0)
			if a.alg == jose.PS256 {
				o = fx.GetKey(fx.Pick(c.T, "ec", jose.ES256, jose.ES384, jose.ES512), 0)
			}
			key = o.JWK("k")
		}
		tok, err := kd.build(a.cose, provider).Serialize(bg, claims)
		if err == nil || tok != "" {
			c.Fatalf("%s %s input %d: %q, %v", kd.name, k.Alg, what, tok, err)
		}
		c.Hit("input %d", what)
		c.NonTrivial("%d %s %s", what, kd.name, k.Alg)
	})

	s.Prop("curve_mismatch", 300, func(c *hx.Case) {
		kd := fx.Pick(c.T, "kind", kinds...)
		a := fx.Pick(c.T, "alg", algos[:3]...)
		k := fx.GetKey(algos[fx.Int(c.T, "key", 0, 2)].alg, 0)
		tok, err := kd.build(a.cose, fx.Provider(k.JWK("k"))).Serialize(bg, map[string]any{"a": uint64(1)})
		if err != nil {
			if tok != "" || k.Alg == a.alg {
				c.Fatalf("%s key with %s: %q, %v", k.Alg, a.alg, tok, err)
			}
			return
		}
		if !decode(c, tok).verify(k, a.hash) {
			c.Fatalf("%s key with %s: token does not verify", k.Alg, a.alg)
		}
		c.NonTrivial("%s %s %s", kd.name, k.Alg, a.alg)
	})
}
