package c15

import (
	"context"
	"fmt"
	"slices"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/clientauthentication"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

var ids = []string{"client-a", "client-b", "CLIENT-A", "client-a ", "client", "https://client.example/a", "é"}

func TestC15(t *testing.T) {
	s := hx.New(t, "C15", "JWT bearer assertions for a drawn set of registered clients (keys of all types, several keys, encryption keys, no or unreadable key sets, shared keys), hand-signed with a drawn set of deviations (claims, time, signer, forgery, algorithm, assertion type, client), authenticated exactly when there is none; histories of one authenticator while keys are registered, rotated and removed; and assertions of the library's own generator. Non-trivial: every assertion that reached a decision, identified by its deviations, algorithm, client and time offset.",
		"the exact second of expiration is not tested", "audiences are strings", "key ids are absent or right", "keys are used with the algorithm they are registered for")

	type reg struct {
		c    *clientv1.Client
		sigs []*fx.Key
		encs []*fx.Key
	}
	population := func(c *hx.Case) (map[string]*reg, *fx.ClientStore) {
		m, st := map[string]*reg{}, fx.NewClientStore()
		for i, id := range ids[:fx.Int(c.T, "clients", 2, len(ids))] {
			r := &reg{c: fx.FullClient(id)}
			var set []jose.JSONWebKey
			for j := fx.Int(c.T, "keys", 0, 3); j > 0; j-- {
				k := fx.GetKey(fx.Pick(c.T, "alg", fx.SigAlgs...), fx.Int(c.T, "key_n", 0, 3))
				pub := k.PubJWK(fmt.Sprintf("k%d", j))
				switch fx.Int(c.T, "use", 0, 4) {
				case 0:
					pub.Use = "enc"
					r.encs = append(r.encs, k)
				case 1:
					pub.Use = ""
					r.sigs = append(r.sigs, k)
				default:
					r.sigs = append(r.sigs, k)
				}
				set = append(set, pub)
			}
			r.c.Jwks = fx.JWKS(set...)
			if len(set) == 0 {
				r.c.Jwks = []byte(fx.Pick(c.T, "nokeys", "", "{}", `{"keys":[]}`, `{"keys":null}`, "null", "garbage", "[]", `{"keys":[{"kty":"EC"}]}`, "{", `{"keys":"x"}`))
			}
			if i == 0 && len(r.sigs) == 0 { // at least one usable
				k := fx.AnyKey(c.T, "first")
				r.c.Jwks, r.sigs, r.encs = fx.JWKS(k.PubJWK("k0")), []*fx.Key{k}, nil
			}
			m[id] = r
			st.Put(r.c)
		}
		return m, st
	}
	belongs := func(k *fx.Key, set []*fx.Key) bool {
		for _, o := range set {
			if string(fx.JSON(o.PubJWK(""))) == string(fx.JSON(k.PubJWK(""))) || fx.SameKey(o, k) {
				return true
			}
		}
		return false
	}

	deviations := []string{"claim", "expired", "not yet", "iss", "sub", "both unknown", "other client", "foreign key", "enc key", "forged", "alg", "type", "no type", "no assertion", "keyless client", "other client's key"}
	s.Prop("assertion", 9000, func(c *hx.Case) {
		regs, st := population(c)
		var usable, keyless []string
		for _, id := range ids {
			if r := regs[id]; r != nil && len(r.sigs) > 0 {
				usable = append(usable, id)
			} else if r != nil {
				keyless = append(keyless, id)
			}
		}
		id := fx.Pick(c.T, "client", usable...)
		k := fx.Pick(c.T, "signer", regs[id].sigs...)
		dev := ""
		if rapid.Bool().Draw(c.T, "deviate") {
			dev = fx.Pick(c.T, "deviation", deviations...)
		}
		auth := func(allowed []jose.SignatureAlgorithm, req *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
			c.Step()
			res, err := clientauthentication.PrivateKeyJWT(st, allowed).Authenticate(bg, req)
			if res == nil {
				c.Fatalf("no response object (%v)", err)
			}
			return res, err
		}
		c.Bubble(func() {
			time.Sleep(time.Duration(fx.Int(c.T, "start", 0, 4000)) * time.Millisecond)
			now := time.Now().Unix()
			off := fx.Pick(c.T, "exp", 1, 2, 30, 3600, 86400*3650)
			claims := fx.Map{"iss": id, "sub": id, "aud": fx.Pick(c.T, "aud", "https://as.example.com", "x", "https://as.example.com/token"), "jti": fx.Str(c.T, "jti", fx.Alnum, 1, 20), "exp": now + int64(off)}
			if rapid.Bool().Draw(c.T, "iat") {
				claims["iat"] = now
			}
			if fx.Chance(c.T, "far", 6) {
				off = 86400 * 3650
				claims["exp"] = fx.Far(c.T, "farexp", now)
			}
			begin := int64(0)
			if fx.Chance(c.T, "begun", 3) {
				claims["nbf"] = now - int64(fx.Pick(c.T, "ago", 0, 1, 3600))
			}
			header := fx.Map{"alg": string(k.Alg)}
			if rapid.Bool().Draw(c.T, "kid") { // the one it is registered with
				for _, j := range fx.ParseJWKS(regs[id].c.Jwks).Keys {
					if j.Use == "enc" || (j.Algorithm != "" && j.Algorithm != string(k.Alg)) {
						continue
					}
					o := j
					o.KeyID, o.Use, o.Algorithm = "", "", ""
					mine := k.PubJWK("")
					mine.Use, mine.Algorithm = "", ""
					if string(fx.JSON(&o)) == string(fx.JSON(&mine)) {
						header["kid"] = j.KeyID
						break
					}
				}
			}
			if rapid.Bool().Draw(c.T, "typ") {
				header["typ"] = fx.Pick(c.T, "typv", "JWT", "client-assertion+jwt")
			}
			allowed := fx.SigAlgs
			req := &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTBearer)}
			forge := ""
			switch dev {
			case "claim":
				n := fx.Pick(c.T, "claimn", "iss", "sub", "aud", "jti", "exp")
				bad := []any{nil, "", 0, []string{}, fx.Map{}, true}
				v := fx.Pick(c.T, "claimv", bad...)
				delete(claims, n)
				if v != nil || rapid.Bool().Draw(c.T, "null") {
					claims[n] = v
				}
			case "expired":
				claims["exp"] = fx.Pick(c.T, "expv", any(now-1), any(now-2), any(now-3600), any(1), any(-1), any("never"), any(now-86400*365))
			case "not yet":
				begin = now + int64(fx.Pick(c.T, "nbf", 2, 3, 30, 3000))
				claims["nbf"], claims["exp"] = begin, now+3600
				if fx.Chance(c.T, "farnbf", 3) {
					begin = 0
					claims["nbf"], claims["exp"] = fx.Far(c.T, "nbfv", now), uint64(1<<64-1)
				}
				if rapid.Bool().Draw(c.T, "later_iat") { // an issue time is no excuse
					claims["iat"] = now + int64(fx.Pick(c.T, "iat_in", -3600, 1, 2, 3, 30, 3000, 3600))
				}
			case "iss":
				claims["iss"] = fx.Mutate(c.T, "issm", id)
			case "sub":
				claims["sub"] = fx.Mutate(c.T, "subm", id)
				if rapid.Bool().Draw(c.T, "subother") {
					claims["sub"] = fx.Pick(c.T, "suboth", ids...)
					if claims["sub"] == id {
						claims["sub"] = "somebody"
					}
				}
			case "both unknown":
				x := fx.Mutate(c.T, "unknown", id)
				if regs[x] != nil {
					x += "~~"
				}
				claims["iss"], claims["sub"] = x, x
			case "other client": // named, but the signer is not registered for it
				o := ""
				for _, x := range ids {
					if regs[x] != nil && !belongs(k, regs[x].sigs) && !belongs(k, regs[x].encs) {
						o = x
						break
					}
				}
				if o == "" {
					dev = ""
				} else {
					claims["iss"], claims["sub"] = o, o
				}
			case "foreign key", "other client's key":
				o := fx.AnyKey(c.T, "foreign")
				if dev == "other client's key" {
					for _, x := range usable {
						if x != id {
							o = regs[x].sigs[0]
						}
					}
				}
				if belongs(o, regs[id].sigs) {
					o = fx.GetKey(o.Alg, 7) // registered for nobody
				}
				k = o
				header["alg"] = string(k.Alg)
			case "enc key":
				if len(regs[id].encs) == 0 || belongs(regs[id].encs[0], regs[id].sigs) {
					dev = ""
				} else {
					k = regs[id].encs[0]
					header["alg"] = string(k.Alg)
				}
			case "keyless client":
				if len(keyless) == 0 {
					dev = ""
				} else {
					x := fx.Pick(c.T, "keyless", keyless...)
					claims["iss"], claims["sub"] = x, x
				}
			case "alg":
				allowed = fx.Without(k.Alg)
				if rapid.Bool().Draw(c.T, "noalg") {
					allowed = nil
				}
			case "type":
				req.ClientAssertionType = fx.Ref(fx.Pick(c.T, "typev", "", "urn:ietf:params:oauth:client-assertion-type:saml2-bearer", oidc.AssertionTypeJWTClientAttestation, fx.Mutate(c.T, "typem", oidc.AssertionTypeJWTBearer)))
			case "no type":
				req.ClientAssertionType = nil
			}
			payload := fx.JSON(claims)
			tok := fx.JWS(k, header, payload)
			if dev == "forged" {
				tok, forge = fx.Forge(c.T, k, header, payload)
				if forge == "foreign key" || forge == "embedded foreign key" {
					if belongs(k.Other(), regs[id].sigs) {
						dev, forge = "", ""
						tok = fx.JWS(k, header, payload)
					}
				}
			}
			req.ClientAssertion = &tok
			if dev == "no assertion" {
				req.ClientAssertion = fx.Pick(c.T, "noassertion", nil, fx.Ref(""), fx.Ref(" "), fx.Ref("."), fx.Ref(".."), fx.Ref("null"), fx.Ref("{}"))
			}
			res, err := auth(allowed, req)
			what := fmt.Sprintf("%q %s: header %v claims %v", dev, forge, header, claims)
			if dev != "" {
				fx.WantRefusal(c, what, err, res.Error)
				if res.Client != nil {
					c.Fatalf("refused with a client: %s", what)
				}
				c.Hit("deviation %s %s", dev, forge)
			} else {
				fx.WantOK(c, what, err, res.Error)
				if !proto.Equal(res.Client, regs[id].c) {
					c.Fatalf("authenticated %q as %v", id, res.Client)
				}
				c.Hit("accepted %s", k.Alg)
			}
			c.NonTrivial("%s %s %s %s exp=%v clients=%d", dev, forge, k.Alg, id, claims["exp"], len(regs))
			if begin > 0 {
				time.Sleep(time.Duration(begin-now+1) * time.Second)
				res, err := auth(allowed, req)
				fx.WantOK(c, "begun "+what, err, res.Error)
				if !proto.Equal(res.Client, regs[id].c) {
					c.Fatalf("authenticated %q as %v", id, res.Client)
				}
			}
			// expiry
			if dev == "" && off <= 3600 {
				time.Sleep(time.Duration(off+1) * time.Second)
				res, err := auth(allowed, req)
				fx.WantRefusal(c, "expired "+what, err, res.Error)
				if res.Client != nil {
					c.Fatalf("expired assertion gives a client")
				}
			}
		})
	})

	// One authenticator over a changing registration: what counts is the set of
	// keys at the moment of the request.
	s.Prop("history", 1200, func(c *hx.Case) {
		st := fx.NewClientStore()
		p := clientauthentication.PrivateKeyJWT(st, fx.SigAlgs)
		names := []string{"client-a", "client-b"}
		pool := []*fx.Key{fx.GetKey(jose.ES256, 0), fx.GetKey(jose.ES256, 1), fx.GetKey(jose.EdDSA, 0), fx.GetKey(jose.EdDSA, 1)}
		reg := map[string][]int{}
		put := func(id string) {
			var set []jose.JSONWebKey
			reg[id] = nil
			for i := range pool {
				if rapid.Bool().Draw(c.T, fmt.Sprintf("has%d", i)) {
					reg[id] = append(reg[id], i)
					set = append(set, pool[i].PubJWK(fx.Pick(c.T, "kid", "k", "k1", fmt.Sprintf("k%d", i))))
				}
			}
			cl := fx.FullClient(id)
			cl.Jwks = fx.JWKS(set...)
			st.Put(cl)
		}
		type issued struct {
			raw, id string
			key     int
			exp     int64
		}
		var past []issued
		accepted, refused := 0, 0
		c.Bubble(func() {
			time.Sleep(time.Second)
			put(names[0])
			c.Repeat(map[string]func(*rapid.T){
				"register": func(*rapid.T) { put(fx.Pick(c.T, "id", names...)) },
				"remove": func(*rapid.T) {
					id := fx.Pick(c.T, "id", names...)
					st.Remove(id)
					delete(reg, id)
				},
				"wait": func(*rapid.T) { time.Sleep(time.Duration(fx.Pick(c.T, "wait", 1, 30, 61)) * time.Second) },
				"authenticate": func(*rapid.T) {
					now := time.Now().Unix()
					var a issued
					good := true
					if len(past) > 0 && rapid.Bool().Draw(c.T, "again") {
						a = fx.Pick(c.T, "past", past...)
						if rapid.Bool().Draw(c.T, "spliced") { // the signature of something else
							h, _, sig := fx.Split(a.raw)
							a.id = fx.Pick(c.T, "spliceid", names...)
							a.raw = h + "." + fx.B64(fx.JSON(fx.Map{"iss": a.id, "sub": a.id, "aud": "x", "jti": "spliced", "exp": now + 60})) + "." + sig
							good = false
						}
					} else {
						a = issued{id: fx.Pick(c.T, "id", names...), key: fx.Int(c.T, "key", 0, len(pool)-1), exp: now + int64(fx.Pick(c.T, "exp", 1, 60, 3600))}
						k := pool[a.key]
						a.raw = fx.JWS(k, fx.Map{"alg": string(k.Alg)}, fx.JSON(fx.Map{"iss": a.id, "sub": a.id, "aud": "x", "jti": fx.Str(c.T, "jti", fx.Alnum, 1, 4), "exp": a.exp}))
						past = append(past, a)
					}
					if now == a.exp {
						return // not decided
					}
					good = good && slices.Contains(reg[a.id], a.key) && now < a.exp
					res, err := p.Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTBearer), ClientAssertion: &a.raw})
					what := fmt.Sprintf("assertion of %q by key %d (registered %v), expiring in %d s", a.id, a.key, reg, a.exp-now)
					if res == nil {
						c.Fatalf("no response object: %s", what)
					}
					if good {
						accepted++
						fx.WantOK(c, what, err, res.Error)
						want, _ := st.Get(bg, a.id)
						if !proto.Equal(res.Client, want) {
							c.Fatalf("authenticated %q as %v", a.id, res.Client)
						}
					} else {
						refused++
						fx.WantRefusal(c, what, err, res.Error)
						if res.Client != nil {
							c.Fatalf("refused with a client: %s", what)
						}
					}
				},
			})
		})
		if accepted > 0 && refused > 0 {
			c.NonTrivial("history %d accepted, %d refused, keys %v", accepted, refused, reg)
		}
	})

	// The library's own assertion generator authenticates the client.
	s.Prop("generator", 400, func(c *hx.Case) {
		id := fx.Pick(c.T, "client", "client-a", "6779ef20e75817b79602", "https://client.example/x")
		k, foreign := fx.AnyKey(c.T, "key"), rapid.Bool().Draw(c.T, "foreign")
		cl := fx.FullClient(id)
		cl.Jwks = fx.JWKS(k.PubJWK("k"))
		st := fx.NewClientStore(cl)
		c.Bubble(func() {
			time.Sleep(time.Second)
			signer := k
			if foreign {
				signer = k.Other()
			}
			now := uint64(time.Now().Unix())
			gen := token.ClientAssertion(jwt.ClientAssertionSigner(signer.Alg, fx.Provider(signer.JWK("k"))))
			a, err := gen.Generate(bg, &tokenv1.Token{TokenId: fx.Str(c.T, "jti", fx.Alnum, 4, 12), Metadata: &tokenv1.TokenMeta{Issuer: id, Subject: id, Audience: "https://as.example.com", IssuedAt: now, NotBefore: now, ExpiresAt: now + 30}})
			if err != nil {
				c.Fatalf("generate: %v", err)
			}
			res, err := clientauthentication.PrivateKeyJWT(st, fx.SigAlgs).Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTBearer), ClientAssertion: &a})
			if foreign {
				fx.WantRefusal(c, "foreign", err, res.Error)
			} else {
				fx.WantOK(c, "own", err, res.Error)
				if res.Client.GetClientId() != id {
					c.Fatalf("authenticated as %v", res.Client)
				}
			}
			c.NonTrivial("%s %s foreign=%v", id, k.Alg, foreign)
		})
	})

	s.Prop("garbage", 3000, func(c *hx.Case) {
		k := fx.GetKey(jose.ES256, 0)
		cl := fx.FullClient("client-a")
		cl.Jwks = fx.JWKS(k.PubJWK("k"))
		p := clientauthentication.PrivateKeyJWT(fx.NewClientStore(cl), fx.SigAlgs)
		var req *clientv1.AuthenticateRequest
		if !fx.Chance(c.T, "nil", 20) {
			req = &clientv1.AuthenticateRequest{ClientAssertionType: types.StringRef(oidc.AssertionTypeJWTBearer)}
			v := ""
			switch fx.Int(c.T, "kind", 0, 3) {
			case 0:
				v = rapid.String().Draw(c.T, "s")
			case 1:
				v = fx.Str(c.T, "dots", fx.Alnum+"..-_={}\"", 0, 80)
			case 2:
				v = fx.JWS(k, fx.Map{"alg": "ES256"}, []byte(fx.Pick(c.T, "payload", "null", "[]", "1", `"x"`, "{}", `{"iss":null,"sub":null}`, "", "{", `{"iss":"client-a","sub":"client-a"}`, `{"exp":1e400}`)))
			case 3:
				v = string(fx.JSON(fx.Map{"payload": fx.Pick(c.T, "p", any("e30"), any(nil), any(1), any("")), "signatures": fx.Pick(c.T, "sigs", any(nil), any([]any{}), any([]any{nil}), any([]fx.Map{{}}), any("x"), any([]fx.Map{{"protected": "e30", "signature": ""}}))}))
			}
			req.ClientAssertion = &v
		}
		res, err := p.Authenticate(bg, req)
		if res == nil {
			c.Fatalf("no response object")
		}
		fx.WantRefusal(c, "garbage", err, res.Error)
		if res.Client != nil {
			c.Fatalf("garbage gives a client")
		}
		c.NonTrivial("%v", req)
	})
}
