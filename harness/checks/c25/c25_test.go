package c25

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	jose "github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/token/jwt"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

func draw(c *hx.Case) *flowv1.AuthorizationRequest {
	r := &flowv1.AuthorizationRequest{}
	fx.FillProto(c.T, r.ProtoReflect(), 1, fx.Pick(c.T, "density", 1, 2, 4))
	return r
}

func encode(c *hx.Case, k *fx.Key, kid string, r *flowv1.AuthorizationRequest) string {
	before := proto.Clone(r)
	tok, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(k.Alg, fx.Provider(k.JWK(kid)))).Encode(bg, r)
	if err != nil {
		c.Fatalf("encode %v: %v", r, err)
	}
	if !proto.Equal(before, r) {
		c.Fatalf("encoding changed the request to %v, was %v", r, before)
	}
	return tok
}

func TestC25(t *testing.T) {
	s := hx.New(t, "C25", "authorization requests drawn field by field (each absent, empty or any Unicode text, numbers up to 2^64-1), signed with every algorithm: decoded requests equal the encoded one including presence; tokens which are altered, forged or signed by a key outside the set, and genuine signatures over payloads with an unknown or ill-typed parameter, are refused without a request. Non-trivial: every request and refused token, identified by its content.",
		"the typ header is not checked by the decoder and not required to be")

	s.Prop("round_trip", 4000, func(c *hx.Case) {
		k := fx.AnyKey(c.T, "key")
		r := draw(c)
		tok := encode(c, k, "k1", r)
		if h := fx.Header(tok); h["typ"] != jwsreq.HeaderType {
			c.Fatalf("typ %v", h)
		}
		dec := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(fx.SetProvider(k.Other().PubJWK("k1"), k.PubJWK("k1")), fx.SigAlgs))
		for i := 0; i < 2; i++ {
			got, err := dec.Decode(bg, tok)
			if err != nil || !proto.Equal(got, r) {
				c.Fatalf("decoded %v (%v), encoded %v", got, err, r)
			}
		}
		// the request is carried under its protocol names
		want := &flowv1.AuthorizationRequest{}
		p := fx.Payload(tok)
		if err := protojson.Unmarshal(fx.JSON(p), want); err != nil || !proto.Equal(want, r) {
			c.Fatalf("payload %v of %v (%v)", p, r, err)
		}
		if _, ok := p["code_challenge"]; ok != (r.CodeChallenge != "") {
			c.Fatalf("payload %v of %v", p, r)
		}
		c.Hit("%s", k.Alg)
		c.NonTrivial("%s %v", k.Alg, r)
	})

	// One encoder and one decoder serve many requests: each is what was encoded, whatever came before.
	s.Prop("history", 1200, func(c *hx.Case) {
		key := 0
		keys := []*fx.Key{fx.GetKey(jose.ES256, 0), fx.GetKey(jose.ES256, 1), fx.GetKey(jose.ES256, 2)}
		enc := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return keys[key].JWK(fmt.Sprintf("k%d", key)), nil }))
		trusted := map[int]bool{0: true}
		dec := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
			set := &jose.JSONWebKeySet{}
			for i, k := range keys {
				if trusted[i] {
					set.Keys = append(set.Keys, k.PubJWK(fmt.Sprintf("k%d", i)))
				}
			}
			return set, nil
		}, fx.SigAlgs))
		type sent struct {
			tok string
			key int
			r   *flowv1.AuthorizationRequest
		}
		var all []*sent
		var log []string
		judge := func(m *sent) {
			got, err := dec.Decode(bg, m.tok)
			c.Step()
			if !trusted[m.key] {
				if err == nil || got != nil {
					c.Fatalf("signed by key %d, trusted are %v: decoded %v (%s)", m.key, trusted, got, strings.Join(log, " "))
				}
				return
			}
			if err != nil || !proto.Equal(got, m.r) {
				c.Fatalf("decoded %v (%v), encoded %v (%s)", got, err, m.r, strings.Join(log, " "))
			}
			fx.Spoil(got.ProtoReflect()) // the caller may do with it what he wants
		}
		c.Repeat(map[string]func(*rapid.T){
			"encode": func(t *rapid.T) {
				r := draw(c)
				if fx.Chance(t, "sparse", 3) {
					r = &flowv1.AuthorizationRequest{ClientId: r.ClientId, State: r.State}
				}
				tok, err := enc.Encode(bg, r)
				if err != nil {
					c.Fatalf("encode %v: %v", r, err)
				}
				m := &sent{tok, key, proto.Clone(r).(*flowv1.AuthorizationRequest)}
				fx.Spoil(r.ProtoReflect())
				all = append(all, m)
				log = append(log, "encode")
				if rapid.Bool().Draw(t, "now") {
					judge(m)
				}
			},
			"decode": func(t *rapid.T) {
				if len(all) > 0 {
					judge(all[len(all)-1-fx.Int(t, "which", 0, len(all)-1)])
					log = append(log, "decode")
				}
			},
			"spliced": func(t *rapid.T) { // parts of two genuine tokens
				if len(all) < 2 {
					return
				}
				a, b := all[fx.Int(t, "a", 0, len(all)-1)], all[fx.Int(t, "b", 0, len(all)-1)]
				x, y := strings.Split(a.tok, "."), strings.Split(b.tok, ".")
				if x[1] == y[1] {
					return
				}
				if got, err := dec.Decode(bg, x[0]+"."+x[1]+"."+y[2]); err == nil || got != nil {
					c.Fatalf("decoded %v of spliced parts", got)
				}
				log = append(log, "spliced")
			},
			"broken": func(t *rapid.T) { // signed, but no authorization request
				tok := fx.JWS(keys[0], fx.Map{"alg": "ES256", "typ": jwsreq.HeaderType, "kid": "k0"}, fx.JSON(fx.Map{"state": "left", "scope": "admin", "nonce": "n", "unheard_of": 1}))
				if got, err := dec.Decode(bg, tok); err == nil || got != nil {
					c.Fatalf("decoded %v of an ill-formed request", got)
				}
				log = append(log, "broken")
			},
			"rotate": func(t *rapid.T) {
				key = fx.Int(t, "key", 0, len(keys)-1)
				log = append(log, fmt.Sprintf("key%d", key))
			},
			"trust": func(t *rapid.T) {
				k := fx.Int(t, "trust", 0, len(keys)-1)
				trusted[k] = !trusted[k]
				log = append(log, fmt.Sprintf("trust%d=%v", k, trusted[k]))
			},
		})
		if len(all) > 1 {
			c.NonTrivial("%s", strings.Join(log, " "))
		}
	})

	s.Prop("forged", 5000, func(c *hx.Case) {
		k := fx.AnyKey(c.T, "key")
		r := draw(c)
		if r.State == "" {
			r.State = "state"
		}
		payload := fx.JSON(fx.Payload(encode(c, k, "k1", r)))
		set := []jose.JSONWebKey{k.PubJWK("k1")}
		tok, how := fx.Forge(c.T, k, fx.Map{"alg": string(k.Alg), "typ": jwsreq.HeaderType, "kid": "k1"}, payload)
		switch fx.Int(c.T, "other", 0, 4) {
		case 0:
			tok, how = encode(c, k.Other(), "k1", r), "another key"
		case 1:
			tok, how, set = encode(c, k, "k1", r), "key not in the set", []jose.JSONWebKey{k.Other().PubJWK("k1")}
		case 2:
			tok, how, set = encode(c, k, "k1", r), "other key id", []jose.JSONWebKey{k.PubJWK("k2")}
		}
		got, err := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(fx.SetProvider(set...), fx.SigAlgs)).Decode(bg, tok)
		if err == nil || got != nil {
			c.Fatalf("%s: %v (%v)", how, got, err)
		}
		c.Hit("%s", how)
		c.NonTrivial("%s %s %v", how, k.Alg, r)
	})

	s.Prop("parameters", 5000, func(c *hx.Case) {
		k := fx.GetKey(fx.Pick(c.T, "alg", fx.CheapAlgs...), 0)
		r := draw(c)
		p := fx.Payload(encode(c, k, "k1", r))
		how := "unknown"
		if fx.Chance(c.T, "typed", 2) {
			how = "ill-typed"
			fds := r.ProtoReflect().Descriptor().Fields()
			fd := fds.Get(fx.Int(c.T, "field", 0, fds.Len()-1))
			name := string(fd.Name())
			var v any
			switch {
			case fd.IsList():
				v = fx.Pick(c.T, "list", any("x"), any(1), any(fx.Map{}), any([]any{1}), any([]any{"a", nil}), any([]any{[]any{}}), any(true), any(false), any(0), any(""))
			case fd.Name() == "max_age":
				v = fx.Pick(c.T, "number", any("x"), any(-1), any(1.5), any("-1"), any(true), any([]any{1}), any(fx.Map{}), any("18446744073709551616"), any(""), any(false), any([]any{}), any(-0.5))
			default:
				v = fx.Pick(c.T, "string", any(1), any(true), any([]any{"a"}), any(fx.Map{"a": "b"}), any(0.5), any([]any{}), any(0), any(false), any(fx.Map{}))
			}
			p[name] = v
			how = fmt.Sprintf("ill-typed %s=%v", name, v)
		} else {
			name := fx.Pick(c.T, "name", "x", "client_secret", "Scope", "SCOPE", "client-id", "", "scope ", "exp", "iss2", "codechallenge", "é", "1", "request_", "aud")
			p[name] = fx.Pick(c.T, "value", any("x"), any(1), any(true), any([]any{}), any(fx.Map{}))
			how = fmt.Sprintf("unknown %q", name)
		}
		tok := fx.JWS(k, fx.Map{"alg": string(k.Alg), "typ": jwsreq.HeaderType, "kid": "k1"}, fx.JSON(p))
		got, err := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(fx.SetProvider(k.PubJWK("k1")), fx.SigAlgs)).Decode(bg, tok)
		if err == nil || got != nil {
			c.Fatalf("%s: %v (%v)", how, got, err)
		}
		c.Hit("%.9s", how)
		c.NonTrivial("%s %v", how, r)
	})

	s.Prop("absent", 500, func(c *hx.Case) {
		k := fx.GetKey(jose.ES256, 0)
		verifier := jwt.DefaultVerifier(fx.SetProvider(k.PubJWK("k1")), fx.SigAlgs)
		switch fx.Int(c.T, "what", 0, 4) {
		case 0:
			if tok, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(k.Alg, fx.Provider(k.JWK("k1")))).Encode(bg, nil); err == nil || tok != "" {
				c.Fatalf("nil request encoded: %q", tok)
			}
		case 1:
			bad := jwk.KeyProviderFunc(func(context.Context) (*jose.JSONWebKey, error) { return nil, errors.New("no key today") })
			if tok, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(k.Alg, bad)).Encode(bg, draw(c)); err == nil || tok != "" {
				c.Fatalf("encoded without a key: %q", tok)
			}
		case 2:
			in := fx.Pick(c.T, "in", "", ".", "..", "a.b.c", "...", "é")
			if r, err := jwsreq.AuthorizationRequestDecoder(verifier).Decode(bg, in); err == nil || r != nil {
				c.Fatalf("%q decoded: %v", in, r)
			}
		case 3: // invalid UTF-8 cannot be carried
			r := draw(c)
			r.State = "\xff"
			if tok, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(k.Alg, fx.Provider(k.JWK("k1")))).Encode(bg, r); err == nil || tok != "" {
				c.Fatalf("encoded %q: %q", r.State, tok)
			}
		default: // payloads which are no objects
			tok := fx.JWS(k, fx.Map{"alg": "ES256", "kid": "k1", "typ": jwsreq.HeaderType}, []byte(fx.Pick(c.T, "payload", "[]", "1", "\"x\"", "", "{", "{}{}", "true")))
			if r, err := jwsreq.AuthorizationRequestDecoder(verifier).Decode(bg, tok); err == nil || r != nil {
				c.Fatalf("payload of %q decoded: %v", tok, r)
			}
		}
	})
}
