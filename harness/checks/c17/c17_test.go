package c17

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"testing"

	jose "github.com/go-jose/go-jose/v4"
	josejwt "github.com/go-jose/go-jose/v4/jwt"
	"pgregory.net/rapid"

	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

type kind struct {
	name, typ string
	build     func(jose.SignatureAlgorithm, jwk.KeyProviderFunc) token.Serializer
	embed     bool
}

var kinds = []kind{
	{"access token", "at+jwt", jwt.AccessTokenSigner, false},
	{"refresh token", "rt+jwt", jwt.RefreshTokenSigner, false},
	{"request", "oauth-authz-req+jwt", jwt.RequestSigner, false},
	{"jarm", "jarm+jwt", jwt.JARMSigner, false},
	{"dpop", "dpop+jwt", jwt.DPoPSigner, true},
	{"client assertion", "client-assertion+jwt", jwt.ClientAssertionSigner, false},
	{"introspection", "token-introspection+jwt", jwt.TokenIntrospection, false},
	{"metadata", "oauth-authorization-server+jwt", jwt.ServerMetadata, false},
}

var value func(depth int) *rapid.Generator[any]

func init() {
	value = func(depth int) *rapid.Generator[any] {
		leaves := []*rapid.Generator[any]{
			rapid.Map(rapid.StringOf(rapid.RuneFrom([]rune("ab\"\\<>& é\u2028\U0001F600."))), func(s string) any { return s }),
			rapid.Map(rapid.IntRange(-1<<53, 1<<53), func(i int) any { return float64(i) }),
			rapid.Map(rapid.Bool(), func(b bool) any { return b }),
			rapid.Just[any](nil),
			rapid.Just[any](""),
		}
		if depth > 0 {
			leaves = append(leaves,
				rapid.Map(rapid.SliceOfN(value(depth-1), 0, 3), func(x []any) any { return x }),
				rapid.Map(rapid.MapOfN(rapid.SampledFrom([]string{"a", "b", "c d", ""}), value(depth-1), 0, 3), func(x map[string]any) any { return x }))
		}
		return rapid.OneOf(leaves...)
	}
}

func claimsOf(t *rapid.T) fx.Map {
	m := rapid.MapOfN(rapid.SampledFrom([]string{"iss", "sub", "aud", "exp", "iat", "nbf", "jti", "x", "token_introspection", "é", "cnf", "scope"}), value(2), 0, 6).Draw(t, "claims")
	return fx.AsMap(m)
}

// keySet draws a key set and says which of the pooled keys it holds.
type entry struct {
	k   *fx.Key
	pub jose.JSONWebKey
}

func keySet(t *rapid.T) []entry {
	var out []entry
	for i := fx.Int(t, "set", 0, 4); i > 0; i-- {
		k := fx.AnyKey(t, "member")
		pub := k.PubJWK(fx.Pick(t, "kid", "k1", "k2", "K1", "k1 ", ""))
		pub.Use = fx.Pick(t, "use", "sig", "sig", "", "enc")
		out = append(out, entry{k, pub})
	}
	return out
}

func jwks(set []entry) []jose.JSONWebKey {
	var out []jose.JSONWebKey
	for _, e := range set {
		out = append(out, e.pub)
	}
	return out
}

// trusts is the oracle: may a token signed by k and naming kid be verified?
func trusts(set []entry, k *fx.Key, kid string, respectKid bool) bool {
	for _, e := range set {
		if e.pub.Use != "enc" && fx.SameKey(e.k, k) && (!respectKid || kid == "" || kid == e.pub.KeyID) {
			return true
		}
	}
	return false
}

func TestC17(t *testing.T) {
	s := hx.New(t, "C17", "JWTs of all eight kinds and all key types over drawn nested claims: serialized by the library and verified under key sets containing the key; and hand-made tokens (signed by a member or a foreign key, naming any or no key id, forged in a drawn way, disallowed algorithm) against drawn key sets (several keys, shared and missing ids, encryption keys, nil and failing providers), where claims are given exactly when the oracle finds a usable key; one verifier over changing key sets and outages; the embedded-key verifier and the signature helpers likewise. Non-trivial: every decision, identified by signer, key id, key set and forgery.",
		"numbers are within 2^53", "each key is used with one algorithm")

	s.Prop("round_trip", 3000, func(c *hx.Case) {
		kd := fx.Pick(c.T, "kind", kinds...)
		k := fx.AnyKey(c.T, "key")
		kid := fx.Pick(c.T, "kid", "k1", "key/ü", "a b", "https://x/y#z")
		claims := claimsOf(c.T)
		set := keySet(c.T)
		pub := k.PubJWK(kid)
		pub.Use = fx.Pick(c.T, "use", "sig", "")
		at := fx.Int(c.T, "at", 0, len(set))
		set = append(set[:at:at], append([]entry{{k, pub}}, set[at:]...)...)
		signer := kd.build(k.Alg, fx.Provider(k.JWK(kid)))
		tok, err := signer.Serialize(bg, claims)
		if err != nil {
			c.Fatalf("serialize %v with %s: %v", claims, k.Alg, err)
		}
		h := fx.Header(tok)
		if h["kid"] != kid || h["typ"] != kd.typ || h["alg"] != string(k.Alg) {
			c.Fatalf("header of a %s token is %v (key %q)", kd.name, h, kid)
		}
		if emb, ok := h["jwk"].(map[string]any); ok != kd.embed || emb["d"] != nil {
			c.Fatalf("embedded key of a %s token: %v", kd.name, h["jwk"])
		}
		if got := fx.Payload(tok); !reflect.DeepEqual(got, claims) {
			c.Fatalf("payload %v, claims %v", got, claims)
		}
		v := jwt.DefaultVerifier(fx.SetProvider(jwks(set)...), fx.SigAlgs)
		if err := v.Verify(tok); err != nil {
			c.Fatalf("verify: %v", err)
		}
		var got fx.Map
		if err := v.Claims(bg, tok, &got); err != nil || !reflect.DeepEqual(got, claims) {
			c.Fatalf("claims %v (%v), signed %v", got, err, claims)
		}
		p, err := v.Parse(tok)
		if err != nil {
			c.Fatalf("parse: %v", err)
		}
		typ, e1 := p.Type()
		id, e2 := p.KeyID()
		alg, e3 := p.Algorithm()
		if e1 != nil || e2 != nil || e3 != nil || typ != kd.typ || id != kid || alg != string(k.Alg) {
			c.Fatalf("parsed: %q (%v), %q (%v), %q (%v)", typ, e1, id, e2, alg, e3)
		}
		got = nil
		if err := p.Claims(k.Pub, &got); err != nil || !reflect.DeepEqual(got, claims) {
			c.Fatalf("parsed claims %v (%v), signed %v", got, err, claims)
		}
		got = nil
		if err := p.Claims(k.Other().Pub, &got); err == nil || got != nil {
			c.Fatalf("claims under another key: %v, %v", got, err)
		}
		if kd.embed {
			e := jwt.EmbeddedKeyVerifier(fx.SigAlgs)
			got = nil
			if err := e.Verify(tok); err != nil {
				c.Fatalf("embedded verify: %v", err)
			}
			if err := e.Claims(bg, tok, &got); err != nil || !reflect.DeepEqual(got, claims) {
				c.Fatalf("embedded claims %v (%v), signed %v", got, err, claims)
			}
		}
		if signer.ContentType() != "JWT" {
			c.Fatalf("content type %q", signer.ContentType())
		}
		c.Hit("%s", kd.name)
		c.Hit("%s", k.Alg)
		c.NonTrivial("%s %s kid=%q claims=%v set=%d", kd.name, k.Alg, kid, claims, len(set))
	})

	// A signer asks for its key at each token; equal claims do not make an older token good again.
	s.Prop("signer_rotation", 600, func(c *hx.Case) {
		kd := fx.Pick(c.T, "kind", kinds...)
		alg := fx.Pick(c.T, "alg", fx.CheapAlgs...)
		n, fail := 0, false
		kid := func(n int) string { return []string{"k0", "k1", "k0"}[n] }
		signer := kd.build(alg, func(context.Context) (*jose.JSONWebKey, error) {
			if fail {
				return nil, errors.New("no key today")
			}
			return fx.GetKey(alg, n).JWK(kid(n)), nil
		})
		seen := []fx.Map{claimsOf(c.T)}
		var log []string
		for i, steps := 0, fx.Int(c.T, "steps", 2, 8); i < steps; i++ {
			n, fail = fx.Int(c.T, "key", 0, 2), fx.Chance(c.T, "fail", 5)
			if rapid.Bool().Draw(c.T, "new") {
				seen = append(seen, claimsOf(c.T))
			}
			claims := fx.Pick(c.T, "claims", seen...)
			tok, err := signer.Serialize(bg, claims)
			c.Step()
			log = append(log, fmt.Sprintf("k%d/%v", n, fail))
			if fail {
				if err == nil || tok != "" {
					c.Fatalf("token %q without a key (%v)", tok, log)
				}
				continue
			}
			if err != nil {
				c.Fatalf("serialize: %v (%v)", err, log)
			}
			var got fx.Map
			if err := jwt.DefaultVerifier(fx.SetProvider(fx.GetKey(alg, n).PubJWK(kid(n))), fx.SigAlgs).Claims(bg, tok, &got); err != nil || !reflect.DeepEqual(got, claims) {
				c.Fatalf("a token signed with key %d has %v for it (%v), claims %v (%v)", n, got, err, claims, log)
			}
			if emb, ok := fx.Header(tok)["jwk"].(map[string]any); ok {
				pub := fx.GetKey(alg, n).PubJWK("")
				if m := fx.AsMap(&pub); emb["x"] != m["x"] || emb["n"] != m["n"] {
					c.Fatalf("embedded key %v, signed with %v", emb, m)
				}
			}
		}
		c.NonTrivial("%s %s %v", kd.name, alg, log)
	})

	s.Prop("signer_inputs", 1500, func(c *hx.Case) {
		kd := fx.Pick(c.T, "kind", kinds...)
		k := fx.AnyKey(c.T, "key")
		alg := k.Alg
		var claims any = fx.Map{"a": 1}
		key := k.JWK("k")
		provider := jwk.KeyProviderFunc(func(context.Context) (*jose.JSONWebKey, error) { return key, nil })
		what := fx.Int(c.T, "what", 0, 9)
		switch what {
		case 0:
			claims = nil
		case 1:
			claims = (*struct{})(nil)
		case 2:
			claims = (*fx.Map)(nil)
		case 3:
			provider = nil
		case 4:
			key = nil
		case 5:
			key.KeyID = ""
		case 6:
			provider = func(context.Context) (*jose.JSONWebKey, error) { return key, errors.New("no key today") }
		case 7:
			pub := k.PubJWK("k")
			key = &pub
		case 8:
			claims = fx.Pick(c.T, "unserializable", any(fx.Map{"f": func() {}}), any(make(chan int)), any(fx.Map{"c": make(chan int)}))
		case 9: // an algorithm of another key family
			alg = fx.Pick(c.T, "alg", append(fx.SigAlgs, "none", "", "HS256")...)
		}
		tok, err := kd.build(alg, provider).Serialize(bg, claims)
		switch {
		case what == 9 && err == nil:
			var got fx.Map
			pub := k.PubJWK("k")
			if e := jwt.DefaultVerifier(fx.SetProvider(pub), fx.SigAlgs).Claims(bg, tok, &got); e != nil {
				c.Fatalf("%s token by %s with %s does not verify: %v", kd.name, k.Alg, alg, e)
			}
		case err == nil:
			c.Fatalf("input %d accepted: %q", what, tok)
		case tok != "":
			c.Fatalf("input %d refused with a token: %q", what, tok)
		}
		c.Hit("input %d", what)
		c.NonTrivial("%d %s %s %s", what, kd.name, k.Alg, alg)
	})

	s.Prop("acceptance", 10000, func(c *hx.Case) {
		set := keySet(c.T)
		var k *fx.Key
		signerKid := "k1"
		if len(set) > 0 && !fx.Chance(c.T, "outsider", 4) {
			e := set[fx.Int(c.T, "signer", 0, len(set)-1)]
			k, signerKid = e.k, e.pub.KeyID
		} else {
			k = fx.AnyKey(c.T, "foreign")
		}
		header := fx.Map{"alg": string(k.Alg), "typ": fx.Pick(c.T, "typ", "at+jwt", "JWT", "x")}
		kid := fx.Pick(c.T, "named", signerKid, signerKid, signerKid, "", "k1", "k2", "K1", "k1 ", "unknown")
		if kid != "" {
			header["kid"] = kid
		}
		payload := claimsOf(c.T)
		payload["mark"] = "claims"
		want := trusts(set, k, kid, true)
		wantAny := trusts(set, k, kid, false)
		tok, how := fx.JWS(k, header, fx.JSON(payload)), "genuine"
		allowed := fx.SigAlgs
		switch fx.Pick(c.T, "deviation", "", "", "", "forged", "forged", "alg") {
		case "forged":
			tok, how = fx.Forge(c.T, k, header, fx.JSON(payload))
			if how == "foreign key" || how == "embedded foreign key" {
				want, wantAny = trusts(set, k.Other(), kid, true), trusts(set, k.Other(), kid, false)
			} else {
				want, wantAny = false, false
			}
		case "alg":
			allowed, how = fx.Without(k.Alg), "algorithm not allowed"
			want, wantAny = false, false
		}
		provider, setKind := fx.SetProvider(jwks(set)...), "set"
		if fx.Chance(c.T, "noset", 12) {
			want = false
			setKind = fx.Pick(c.T, "setkind", "nil", "error", "error with keys")
			provider = func(context.Context) (*jose.JSONWebKeySet, error) {
				switch setKind {
				case "nil":
					return nil, nil
				case "error":
					return nil, errors.New("no keys today")
				}
				return &jose.JSONWebKeySet{Keys: jwks(set)}, errors.New("no keys today")
			}
		}
		v := jwt.DefaultVerifier(provider, allowed)
		var got fx.Map
		err := v.Claims(bg, tok, &got)
		what := fmt.Sprintf("%s token by %s naming %q, %s of %d keys", how, k.Alg, kid, setKind, len(set))
		check := func(how string, want bool, got fx.Map, err error) {
			c.Step()
			if want {
				if err != nil || !reflect.DeepEqual(got, payload) {
					c.Fatalf("%s: %s: %v (%v), signed %v", how, what, got, err, payload)
				}
				return
			}
			if err == nil || len(got) > 0 {
				c.Fatalf("%s: %s accepted: %v (%v)", how, what, got, err)
			}
		}
		check("verifier", want, got, err)
		// the helpers work on parsed tokens
		if p, err := josejwt.ParseSigned(tok, allowed); err == nil {
			var got fx.Map
			check("ValidateToken", wantAny, got2(&got, jwk.ValidateToken(&jose.JSONWebKeySet{Keys: jwks(set)}, p, &got)), lastErr)
		}
		if p, err := jose.ParseSigned(tok, allowed); err == nil {
			err := jwk.ValidateSignature(&jose.JSONWebKeySet{Keys: jwks(set)}, p)
			if (err == nil) != wantAny {
				c.Fatalf("ValidateSignature: %s: %v", what, err)
			}
		}
		if err := v.Verify(tok); how == "algorithm not allowed" && err == nil {
			c.Fatalf("verify: %s", what)
		}
		c.Hit("%v %s", want, how)
		ids := ""
		for _, e := range set {
			ids += string(e.k.Alg) + e.pub.KeyID + e.pub.Use + ","
		}
		c.NonTrivial("%v %s [%s]", want, what, ids)
	})

	// One verifier whose key set changes: what counts is the set of the moment.
	s.Prop("rotation", 1500, func(c *hx.Case) {
		pool := []*fx.Key{fx.GetKey(jose.ES256, 0), fx.GetKey(jose.ES256, 1), fx.GetKey(jose.EdDSA, 0), fx.GetKey(jose.ES384, 0)}
		var set []entry
		down := false
		v := jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
			if down {
				return nil, errors.New("no keys now")
			}
			return &jose.JSONWebKeySet{Keys: jwks(set)}, nil
		}, fx.SigAlgs)
		type signed struct {
			raw     string
			k       *fx.Key
			kid     string
			payload fx.Map
		}
		var past []signed
		yes, no := 0, 0
		c.Repeat(map[string]func(*rapid.T){
			"rotate": func(t *rapid.T) {
				set = nil
				for i, k := range pool {
					if rapid.Bool().Draw(t, fmt.Sprintf("has%d", i)) {
						pub := k.PubJWK(fx.Pick(t, "kid", "k1", "k2", ""))
						pub.Use = fx.Pick(t, "use", "sig", "sig", "", "enc")
						set = append(set, entry{k, pub})
					}
				}
			},
			"outage": func(*rapid.T) { down = !down },
			"verify": func(t *rapid.T) {
				var a signed
				forged := false
				if len(past) > 0 && rapid.Bool().Draw(t, "again") {
					a = fx.Pick(t, "past", past...)
					if fx.Chance(t, "spliced", 3) {
						h, _, sig := fx.Split(a.raw)
						a.raw = h + "." + fx.B64(fx.JSON(fx.Map{"mark": "spliced"})) + "." + sig
						forged = true
					}
				} else {
					a = signed{k: fx.Pick(t, "signer", pool...), kid: fx.Pick(t, "named", "", "k1", "k2"), payload: fx.Map{"mark": fx.Str(t, "mark", fx.Alnum, 1, 4)}}
					h := fx.Map{"alg": string(a.k.Alg), "typ": "at+jwt"}
					if a.kid != "" {
						h["kid"] = a.kid
					}
					a.raw = fx.JWS(a.k, h, fx.JSON(a.payload))
					past = append(past, a)
				}
				c.Step()
				want := !forged && !down && trusts(set, a.k, a.kid, true)
				var got fx.Map
				err := v.Claims(bg, a.raw, &got)
				if want != (err == nil) || (want && !reflect.DeepEqual(got, a.payload)) || (!want && len(got) > 0) {
					c.Fatalf("claims %v (%v) of a token by %s naming %q (spliced %v, outage %v), signed %v, expected %v", got, err, a.k.Alg, a.kid, forged, down, a.payload, want)
				}
				if want {
					yes++
				} else {
					no++
				}
			},
		})
		if yes > 0 && no > 0 {
			c.NonTrivial("rotation %d verified, %d refused, last set %d", yes, no, len(set))
		}
	})

	s.Prop("embedded", 5000, func(c *hx.Case) {
		k := fx.AnyKey(c.T, "key")
		payload := claimsOf(c.T)
		payload["mark"] = "claims"
		pub := k.PubJWK(fx.Pick(c.T, "kid", "", "k"))
		emb := fx.AsMap(&pub)
		header := fx.Map{"alg": string(k.Alg), "typ": "dpop+jwt", "jwk": emb}
		allowed := fx.SigAlgs
		want, how := true, "genuine"
		tok := ""
		switch fx.Int(c.T, "deviation", 0, 8) {
		case 0:
			delete(header, "jwk")
			want, how = false, "no key"
		case 1:
			header["jwk"] = fx.Pick(c.T, "badjwk", any(nil), any(""), any(fx.Map{}), any(fx.Map{"kty": "oct", "k": "AAAA"}), any(fx.Map{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}), any([]any{}), any(1))
			want, how = false, "bad key"
		case 2:
			o := k.Other().PubJWK("")
			header["jwk"] = fx.AsMap(&o)
			want, how = false, "another key"
		case 3:
			o := fx.AnyKey(c.T, "any")
			p := o.PubJWK("")
			header["jwk"] = fx.AsMap(&p)
			want, how = fx.SameKey(o, k), "some key"
			if want {
				how = "genuine"
			}
		case 4:
			allowed = fx.Without(k.Alg)
			want, how = false, "algorithm not allowed"
		case 5:
			tok, how = fx.Forge(c.T, k, header, fx.JSON(payload))
			want = how == "embedded foreign key" // which is self-consistent
		}
		if tok == "" {
			tok = fx.JWS(k, header, fx.JSON(payload))
		}
		v := jwt.EmbeddedKeyVerifier(allowed)
		var got fx.Map
		err := v.Claims(bg, tok, &got)
		if want && (err != nil || !reflect.DeepEqual(got, payload)) {
			c.Fatalf("%s token by %s refused: %v", how, k.Alg, err)
		}
		if !want && (err == nil || len(got) > 0) {
			c.Fatalf("%s token by %s accepted: %v", how, k.Alg, got)
		}
		if err := v.Verify(tok); err == nil && (how == "no key" || how == "bad key" || how == "algorithm not allowed") {
			c.Fatalf("%s token by %s: verify succeeds", how, k.Alg)
		}
		c.Hit("%v %s", want, how)
		c.NonTrivial("%v %s %s %v", want, how, k.Alg, payload)
	})

	s.Prop("garbage", 4000, func(c *hx.Case) {
		k := fx.GetKey(jose.ES256, 0)
		pub := k.PubJWK("k")
		tok := ""
		switch fx.Int(c.T, "kind", 0, 4) {
		case 0:
			tok = rapid.String().Draw(c.T, "s")
		case 1:
			tok = fx.Str(c.T, "dots", fx.Alnum+"..-_={}\"", 0, 60)
		case 2:
			tok = fx.JWS(k, fx.Map{"alg": "ES256", "typ": fx.Pick(c.T, "typ", any(nil), any(1), any([]any{})), "kid": fx.Pick(c.T, "kid", any(nil), any(1), any("k"))}, []byte(fx.Pick(c.T, "payload", "null", "[]", "1", `"x"`, "", "{", "\xff")))
		case 3:
			tok = fx.B64([]byte(fx.Pick(c.T, "header", "{}", "null", "[]", `{"alg":null}`, `{"alg":"ES256","crit":["x"]}`, `{"alg":"ES256","b64":false,"crit":["b64"]}`, `{"alg":"ES256","jwk":{}}`))) + ".e30." + fx.B64(make([]byte, 64))
		case 4:
			tok = string(fx.JSON(fx.Map{"payload": fx.Pick(c.T, "p", any("e30"), any(nil), any(1), any("")), "signatures": fx.Pick(c.T, "sigs", any(nil), any([]any{}), any([]any{nil}), any([]fx.Map{{}}), any("x"), any([]fx.Map{{"protected": "e30", "signature": ""}}))}))
		}
		for _, v := range []token.Verifier{jwt.DefaultVerifier(fx.SetProvider(pub), fx.SigAlgs), jwt.EmbeddedKeyVerifier(fx.SigAlgs), jwt.DefaultVerifier(fx.SetProvider(), nil)} {
			var got struct {
				X string `json:"x"`
			}
			_ = v.Verify(tok)
			if err := v.Claims(bg, tok, &got); err == nil {
				if p := fx.Header(tok); p["alg"] != "ES256" { // only genuinely signed ones
					c.Fatalf("%q accepted", tok)
				}
			}
			if p, err := v.Parse(tok); err == nil {
				_, _ = p.Type()
				_, _ = p.KeyID()
				_, _ = p.Algorithm()
				_, _ = p.PublicKey()
				_, _ = p.PublicKeyThumbPrint()
				_ = p.Claims(k.Other().Pub, &got)
				_ = p.Claims(nil, &got)
			}
		}
		if jwk.ValidateToken(nil, nil, nil) == nil || jwk.ValidateToken(&jose.JSONWebKeySet{}, nil, nil) == nil || jwk.ValidateToken(&jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, nil, nil) == nil ||
			jwk.ValidateSignature(nil, nil) == nil || jwk.ValidateSignature(&jose.JSONWebKeySet{}, nil) == nil || jwk.ValidateSignature(&jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, nil) == nil {
			c.Fatalf("nil accepted")
		}
		c.NonTrivial("%q", tok)
	})
}

var lastErr error

func got2(m *fx.Map, err error) fx.Map {
	lastErr = err
	return *m
}
