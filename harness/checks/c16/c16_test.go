package c16

import (
	"context"
	"fmt"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/server/clientauthentication"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

func TestC16(t *testing.T) {
	s := hx.New(t, "C16", "attestations and proofs of possession of several clients, instances and attesters, hand-signed with a drawn set of deviations in either part (claims, time, signer, forgery, algorithm, confirmed key, named client, structure, assertion type) or crossed between clients and instances, authenticated exactly when nothing deviates; and histories of one authenticator while attesters and clients are registered, re-keyed and removed. Non-trivial: every assertion that reached a decision, identified by its deviations, algorithms, clients and times.",
		"the exact second of expiration is not tested", "every client with usable signature keys counts as an attester (the client model has no other mark)", "not-before is in the past")

	type side struct {
		c    *clientv1.Client
		keys []*fx.Key
	}
	deviations := []string{
		"att not yet", "pop not yet",
		"att claim", "att expired", "att unknown attester", "att keyless attester", "att other attester", "att foreign key", "att forged", "att no cnf", "att enc key",
		"pop claim", "pop expired", "pop issuer", "pop other key", "pop attester key", "pop forged", "cnf other key", "subject", "unknown client", "alg att", "alg pop",
		"structure", "type", "no type", "no assertion", "crossed",
	}
	s.Prop("assertion", 9000, func(c *hx.Case) {
		ka := fx.AnyKey(c.T, "attester key")
		encKey := fx.GetKey(jose.EdDSA, 5)
		attester := fx.FullClient(fx.Pick(c.T, "attester", "urn:solid:attestation-server", "attester"))
		enc := encKey.PubJWK("e")
		enc.Use = "enc"
		set := []jose.JSONWebKey{ka.PubJWK("a"), enc}
		if rapid.Bool().Draw(c.T, "enc first") {
			set[0], set[1] = set[1], set[0]
		}
		attester.Jwks = fx.JWKS(set...)
		ko := fx.GetKey(jose.ES256, 6)
		other := fx.FullClient("other-attester")
		other.Jwks = fx.JWKS(ko.PubJWK("o"))
		keyless := fx.FullClient("keyless-attester")
		keyless.Jwks = []byte(fx.Pick(c.T, "nokeys", "", "{}", `{"keys":[]}`, "null", "garbage", "[]"))
		a, b := fx.FullClient("client-a"), fx.FullClient("client-b")
		a.Jwks, b.Jwks = nil, fx.JWKS(fx.GetKey(jose.EdDSA, 4).PubJWK("b"))
		st := fx.NewClientStore(attester, other, keyless, a, b)
		me, they := a, b
		if rapid.Bool().Draw(c.T, "swap") {
			me, they = b, a
		}
		inst := fx.AnyKey(c.T, "instance key")
		inst2 := inst.Other()
		dev := ""
		if rapid.Bool().Draw(c.T, "deviate") {
			dev = fx.Pick(c.T, "deviation", deviations...)
		}
		c.Bubble(func() {
			time.Sleep(time.Duration(fx.Int(c.T, "start", 0, 4000)) * time.Millisecond)
			now := time.Now().Unix()
			offA, offP := fx.Pick(c.T, "attexp", 1, 2, 30, 3600, 86400*3650), fx.Pick(c.T, "popexp", 1, 2, 30, 3600, 86400*3650)
			cnfKey := func(k *fx.Key) fx.Map {
				pub := k.PubJWK(fx.Pick(c.T, "cnf_kid", "", "", "a", "e", "o")) // names of the attesters' keys, too
				m := fx.AsMap(&pub)
				if rapid.Bool().Draw(c.T, "cnf_plain") {
					delete(m, "alg")
					delete(m, "use")
				}
				return fx.Map{"jwk": m}
			}
			att := fx.Map{"iss": attester.ClientId, "sub": me.ClientId, "exp": now + int64(offA), "iat": now, "cnf": cnfKey(inst)}
			pop := fx.Map{"iss": me.ClientId, "aud": fx.Pick(c.T, "aud", "https://as.example.com", "https://as.example.com", they.ClientId, attester.ClientId, me.ClientId, "x"), "jti": fx.Str(c.T, "jti", fx.Alnum, 1, 20), "exp": now + int64(offP), "iat": now}
			if rapid.Bool().Draw(c.T, "nbf") {
				att["nbf"], pop["nbf"] = now-1, now
			}
			if fx.Chance(c.T, "far", 6) {
				offA, offP = 86400*3650, 86400*3650
				att["exp"], pop["exp"] = fx.Far(c.T, "faratt", now), fx.Far(c.T, "farpop", now)
			}
			// claims which say nothing about who is authenticated
			if rapid.Bool().Draw(c.T, "noise") {
				att["aud"], att["jti"], att["client_id"] = they.ClientId, they.ClientId, they.ClientId
				pop["sub"], pop["client_id"], pop["azp"] = they.ClientId, they.ClientId, they.ClientId
				pop["cnf"] = cnfKey(inst2)
			}
			attSigner, popSigner := ka, inst
			allowed := fx.SigAlgs
			req := &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTClientAttestation)}
			begin := int64(0)
			spoil := func(m fx.Map, names ...string) {
				n := fx.Pick(c.T, "claimn", names...)
				v := fx.Pick(c.T, "claimv", any(nil), any(""), any(0), any([]string{}), any(fx.Map{}), any(true))
				delete(m, n)
				if v != nil || rapid.Bool().Draw(c.T, "null") {
					m[n] = v
				}
			}
			expired := func() any {
				return fx.Pick(c.T, "expv", any(now-1), any(now-2), any(now-3600), any(1), any(-1), any("never"))
			}
			how := ""
			switch dev {
			case "att claim":
				spoil(att, "iss", "sub", "exp", "cnf")
			case "att expired":
				att["exp"] = expired()
			case "att not yet":
				begin = now + int64(fx.Pick(c.T, "nbf", 2, 3, 30, 3000))
				att["nbf"], att["exp"], pop["exp"] = begin, now+3600, now+3600
				if fx.Chance(c.T, "farnbf", 3) {
					begin = 0
					att["nbf"], att["exp"], pop["exp"] = fx.Far(c.T, "nbfv", now), uint64(1<<64-1), uint64(1<<64-1)
				}
				att["iat"] = now + int64(fx.Pick(c.T, "iat_in", -3600, 0, 2, 3, 30, 3000, 3600))
			case "pop not yet":
				begin = now + int64(fx.Pick(c.T, "nbf", 2, 3, 30, 3000))
				pop["nbf"], att["exp"], pop["exp"] = begin, now+3600, now+3600
				if fx.Chance(c.T, "farnbf", 3) {
					begin = 0
					pop["nbf"], att["exp"], pop["exp"] = fx.Far(c.T, "nbfv", now), uint64(1<<64-1), uint64(1<<64-1)
				}
				pop["iat"] = now + int64(fx.Pick(c.T, "iat_in", -3600, 0, 2, 3, 30, 3000, 3600))
			case "att unknown attester":
				att["iss"] = fx.Mutate(c.T, "issm", attester.ClientId)
				if rapid.Bool().Draw(c.T, "own key") { // of the client itself
					a.Jwks = fx.JWKS(fx.GetKey(jose.EdDSA, 4).PubJWK("b"))
					st.Put(a)
					attSigner = fx.GetKey(jose.EdDSA, 4)
				}
			case "att keyless attester":
				att["iss"] = keyless.ClientId
			case "att other attester": // signed by one, naming another
				att["iss"] = other.ClientId
				if fx.SameKey(ka, ko) {
					dev = ""
					att["iss"] = attester.ClientId
				}
			case "att foreign key":
				attSigner = fx.Pick(c.T, "signer", inst, fx.GetKey(ka.Alg, 8), inst.Other(), fx.GetKey(jose.EdDSA, 4), ko)
				if fx.SameKey(attSigner, ka) {
					attSigner = fx.GetKey(ka.Alg, 8)
				}
			case "att enc key":
				attSigner = encKey
			case "att no cnf":
				inst0, _ := att["cnf"].(fx.Map)
				switch fx.Int(c.T, "nocnf", 0, 5) {
				case 0:
					delete(inst0, "jwk")
				case 1:
					inst0["jwk"] = nil
				case 2:
					inst0["jwk"] = fx.Pick(c.T, "badjwk", any(""), any(1), any(fx.Map{}), any(fx.Map{"kty": "EC"}), any([]any{}))
				case 3:
					att["cnf"] = fx.Map{"jkt": "x"}
				case 4:
					att["cnf"] = fx.Map{"JWKS": inst0["jwk"]}
				case 5:
					att["cnf"] = nil
				}
			case "pop claim":
				spoil(pop, "iss", "aud", "jti", "exp")
			case "pop expired":
				pop["exp"] = expired()
			case "pop issuer":
				pop["iss"] = fx.Pick(c.T, "popiss", they.ClientId, attester.ClientId, "unknown", fx.Mutate(c.T, "popissm", me.ClientId))
			case "pop other key":
				popSigner = fx.Pick(c.T, "popsigner", inst2, fx.GetKey(jose.EdDSA, 4), fx.GetKey(jose.ES256, 8), ko)
				if fx.SameKey(popSigner, inst) {
					popSigner = inst2
				}
			case "pop attester key":
				popSigner = ka
				if fx.SameKey(ka, inst) {
					popSigner = fx.GetKey(jose.ES384, 8)
				}
			case "cnf other key":
				att["cnf"] = cnfKey(inst2)
			case "subject":
				att["sub"] = fx.Pick(c.T, "subject", they.ClientId, attester.ClientId, "unknown", fx.Mutate(c.T, "subm", me.ClientId))
			case "unknown client":
				x := fx.Mutate(c.T, "unknown", me.ClientId)
				att["sub"], pop["iss"] = x, x
				st.Remove(x)
			case "type":
				req.ClientAssertionType = fx.Ref(fx.Pick(c.T, "typev", "", oidc.AssertionTypeJWTBearer, fx.Mutate(c.T, "typem", oidc.AssertionTypeJWTClientAttestation)))
			case "no type":
				req.ClientAssertionType = nil
			case "alg att":
				allowed = fx.Without(attSigner.Alg)
			case "alg pop":
				allowed = fx.Without(popSigner.Alg)
			}
			ah, ph := fx.Map{"alg": string(attSigner.Alg)}, fx.Map{"alg": string(popSigner.Alg)}
			if rapid.Bool().Draw(c.T, "typ") {
				ah["typ"], ph["typ"] = "jwt-client-attestation", "jwt-client-attestation-pop"
			}
			attJWT, popJWT := fx.JWS(attSigner, ah, fx.JSON(att)), fx.JWS(popSigner, ph, fx.JSON(pop))
			switch dev {
			case "att forged":
				attJWT, how = fx.Forge(c.T, attSigner, ah, fx.JSON(att))
			case "pop forged":
				popJWT, how = fx.Forge(c.T, popSigner, ph, fx.JSON(pop))
			}
			tok := attJWT + "~" + popJWT
			if dev == "structure" {
				i := fx.Int(c.T, "structure", 0, 11)
				how = fmt.Sprint(i)
				tok = []string{attJWT, popJWT, attJWT + popJWT, popJWT + "~" + attJWT, attJWT + "~~" + popJWT, "~" + popJWT, attJWT + "~", "~", attJWT + "~" + popJWT + "~" + popJWT, attJWT + "~" + attJWT, popJWT + "~" + popJWT, attJWT + "." + popJWT}[i]
			}
			if dev == "crossed" { // two genuine pairs: the parts of different ones do not fit
				att2 := fx.JWS(ka, fx.Map{"alg": string(ka.Alg)}, fx.JSON(fx.Map{"iss": attester.ClientId, "sub": they.ClientId, "exp": now + 100, "cnf": cnfKey(inst2)}))
				pop2 := fx.JWS(inst2, fx.Map{"alg": string(inst2.Alg)}, fx.JSON(fx.Map{"iss": they.ClientId, "aud": "x", "jti": "y", "exp": now + 100}))
				good, err := clientauthentication.ClientAttestation(st, allowed).Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: req.ClientAssertionType, ClientAssertion: fx.Ref(att2 + "~" + pop2)})
				if err != nil || good.GetClient().GetClientId() != they.ClientId {
					c.Fatalf("second pair: %v, %v", good, err)
				}
				tok = fx.Pick(c.T, "cross", attJWT+"~"+pop2, att2+"~"+popJWT)
			}
			req.ClientAssertion = &tok
			if dev == "no assertion" {
				req.ClientAssertion = fx.Pick(c.T, "noassertion", nil, fx.Ref(""), fx.Ref(" "), fx.Ref("~"), fx.Ref(".~."), fx.Ref("..~.."), fx.Ref("{}~{}"))
			}
			auth := func() (*clientv1.AuthenticateResponse, error) {
				c.Step()
				res, err := clientauthentication.ClientAttestation(st, allowed).Authenticate(bg, req)
				if res == nil {
					c.Fatalf("no response object (%v)", err)
				}
				return res, err
			}
			res, err := auth()
			what := fmt.Sprintf("%q %s: attestation %v by %s, proof %v by %s", dev, how, att, attSigner.Alg, pop, popSigner.Alg)
			if dev != "" {
				fx.WantRefusal(c, what, err, res.Error)
				if res.Client != nil {
					c.Fatalf("refused with a client: %s", what)
				}
			} else {
				fx.WantOK(c, what, err, res.Error)
				if !proto.Equal(res.Client, me) {
					c.Fatalf("authenticated as %v, expected %v", res.Client, me)
				}
			}
			c.Hit("%s %s", dev, how)
			c.NonTrivial("%s %s %s/%s %s exp %v/%v", dev, how, ka.Alg, inst.Alg, me.ClientId, att["exp"], pop["exp"])
			if begin > 0 {
				time.Sleep(time.Duration(begin-now+1) * time.Second)
				res, err := auth()
				fx.WantOK(c, "begun "+what, err, res.Error)
				if !proto.Equal(res.Client, me) {
					c.Fatalf("authenticated as %v, expected %v", res.Client, me)
				}
			}
			if off := min(offA, offP); dev == "" && off <= 3600 {
				time.Sleep(time.Duration(off+1) * time.Second)
				res, err := auth()
				fx.WantRefusal(c, "expired "+what, err, res.Error)
				if res.Client != nil {
					c.Fatalf("expired assertion gives a client: %s", what)
				}
			}
		})
	})

	// One authenticator over a changing registration: what counts is what is
	// registered at the moment of the request.
	s.Prop("history", 1200, func(c *hx.Case) {
		st := fx.NewClientStore(fx.FullClient("client-a"), fx.FullClient("client-b"))
		p := clientauthentication.ClientAttestation(st, fx.SigAlgs)
		clients := map[string]bool{"client-a": true, "client-b": true}
		pool := []*fx.Key{fx.GetKey(jose.ES256, 0), fx.GetKey(jose.ES256, 1), fx.GetKey(jose.EdDSA, 0)}
		inst := []*fx.Key{fx.GetKey(jose.ES256, 2), fx.GetKey(jose.EdDSA, 2)}
		current := map[string]int{}
		put := func(at string) {
			i := fx.Int(c.T, "akey", -1, len(pool)-1)
			cl := fx.FullClient(at)
			cl.Jwks = nil
			if current[at] = i; i >= 0 {
				cl.Jwks = fx.JWKS(pool[i].PubJWK("a"))
			}
			st.Put(cl)
		}
		type attestation struct {
			raw, by, sub string
			key, inst    int
			exp          int64
		}
		var atts []attestation
		attesters := []string{"attester-1", "attester-2"}
		accepted, refused := 0, 0
		c.Bubble(func() {
			time.Sleep(time.Second)
			put(attesters[0])
			c.Repeat(map[string]func(*rapid.T){
				"register": func(*rapid.T) { put(fx.Pick(c.T, "at", attesters...)) },
				"remove": func(*rapid.T) {
					at := fx.Pick(c.T, "at", attesters...)
					st.Remove(at)
					delete(current, at)
				},
				"client": func(*rapid.T) {
					id := fx.Pick(c.T, "client", "client-a", "client-b")
					if clients[id] = !clients[id]; clients[id] {
						st.Put(fx.FullClient(id))
					} else {
						st.Remove(id)
					}
				},
				"wait": func(*rapid.T) { time.Sleep(time.Duration(fx.Pick(c.T, "wait", 1, 30, 61)) * time.Second) },
				"authenticate": func(*rapid.T) {
					now := time.Now().Unix()
					var a attestation
					if len(atts) > 0 && rapid.Bool().Draw(c.T, "again") {
						a = fx.Pick(c.T, "att", atts...)
					} else {
						a = attestation{by: fx.Pick(c.T, "by", attesters...), sub: fx.Pick(c.T, "sub", "client-a", "client-b"), key: fx.Int(c.T, "key", 0, len(pool)-1), inst: fx.Int(c.T, "inst", 0, 1), exp: now + int64(fx.Pick(c.T, "exp", 1, 60, 3600))}
						if i := current[a.by]; i > 0 && rapid.Bool().Draw(c.T, "right") {
							a.key = i
						}
						pub := inst[a.inst].PubJWK("a")
						a.raw = fx.JWS(pool[a.key], fx.Map{"alg": string(pool[a.key].Alg)}, fx.JSON(fx.Map{"iss": a.by, "sub": a.sub, "exp": a.exp, "cnf": fx.Map{"jwk": fx.AsMap(&pub)}}))
						atts = append(atts, a)
					}
					popIss, popKey := a.sub, a.inst
					if fx.Chance(c.T, "wrong", 5) {
						popIss = fx.Pick(c.T, "popiss", "client-a", "client-b")
						popKey = fx.Int(c.T, "popkey", 0, 1)
					}
					if now == a.exp {
						return // not decided
					}
					i, ok := current[a.by]
					good := ok && i == a.key && now < a.exp && clients[a.sub] && popIss == a.sub && popKey == a.inst
					k := inst[popKey]
					tok := a.raw + "~" + fx.JWS(k, fx.Map{"alg": string(k.Alg)}, fx.JSON(fx.Map{"iss": popIss, "aud": "x", "jti": "j", "exp": now + 60}))
					res, err := p.Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTClientAttestation), ClientAssertion: &tok})
					what := fmt.Sprintf("attestation of %q by %q with key %d (registered %v), expiring in %d s, proof of %q by %d", a.sub, a.by, a.key, current, a.exp-now, popIss, popKey)
					if res == nil {
						c.Fatalf("no response object: %s", what)
					}
					if good {
						accepted++
						fx.WantOK(c, what, err, res.Error)
						if res.Client.GetClientId() != a.sub {
							c.Fatalf("authenticated as %v: %s", res.Client, what)
						}
					} else {
						refused++
						fx.WantRefusal(c, what, err, res.Error)
						if res.Client != nil {
							c.Fatalf("refused with a client: %s", what)
						}
					}
				},
			})
		})
		if accepted > 0 && refused > 0 {
			c.NonTrivial("history %d accepted, %d refused, %v", accepted, refused, current)
		}
	})

	s.Prop("garbage", 4000, func(c *hx.Case) {
		k := fx.GetKey(jose.ES256, 0)
		at := fx.FullClient("attester")
		at.Jwks = fx.JWKS(k.PubJWK("k"))
		p := clientauthentication.ClientAttestation(fx.NewClientStore(at, fx.FullClient("client-a")), fx.SigAlgs)
		var req *clientv1.AuthenticateRequest
		part := func(label string) string {
			switch fx.Int(c.T, label+"_kind", 0, 3) {
			case 0:
				return rapid.String().Draw(c.T, label)
			case 1:
				return fx.Str(c.T, label+"_dots", fx.Alnum+"..-_={}\"", 0, 60)
			case 2:
				return fx.JWS(k, fx.Map{"alg": "ES256"}, []byte(fx.Pick(c.T, label+"_payload", "null", "[]", "1", `"x"`, "{}", "", "{", `{"exp":1e400}`, `{"iss":"attester","sub":"client-a","exp":99999999999,"cnf":null}`, `{"iss":"attester","sub":"client-a","exp":99999999999,"cnf":{}}`, `{"iss":"attester","sub":"client-a","exp":99999999999,"cnf":{"jwk":null}}`, `{"iss":"attester","sub":"client-a","exp":99999999999,"cnf":{"jwk":{"kty":"oct","k":"AAAA"}}}`, `{"iss":"attester","sub":"client-a","exp":99999999999,"cnf":[]}`)))
			default:
				return string(fx.JSON(fx.Map{"payload": fx.Pick(c.T, label+"_p", any("e30"), any(nil), any(1), any("")), "signatures": fx.Pick(c.T, label+"_sigs", any(nil), any([]any{}), any([]any{nil}), any([]fx.Map{{}}), any("x"), any([]fx.Map{{"protected": "e30", "signature": ""}}))}))
			}
		}
		if !fx.Chance(c.T, "nil", 20) {
			req = &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTClientAttestation), ClientAssertion: fx.Ref(part("a") + fx.Pick(c.T, "sep", "~", "~", "", "~~") + part("b"))}
		}
		res, err := p.Authenticate(bg, req)
		if res == nil {
			c.Fatalf("no response object")
		}
		fx.WantRefusal(c, "garbage", err, res.Error)
		if res.Client != nil {
			c.Fatalf("garbage gives a client")
		}
		c.NonTrivial("%v", req)
	})
}
