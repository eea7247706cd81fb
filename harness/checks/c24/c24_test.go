package c24

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwk"
	"zntr.io/solid/sdk/rfcerrors"
	"zntr.io/solid/sdk/token/jwt"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

var textGen = rapid.OneOf(
	rapid.StringN(1, 40, -1),
	rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019-_.~")), 1, 60, -1),
	rapid.StringOfN(rapid.RuneFrom([]rune("abcXYZ019-_.~")), 61, 3000, -1),
	rapid.SampledFrom([]string{"error", "null", "0", "\"", "<script>", "é"}),
)

func text(t *rapid.T, label string) string { return textGen.Draw(t, label) }

func success(t *rapid.T, issuer, client string) *flowv1.AuthorizeResponse {
	r := &flowv1.AuthorizeResponse{
		Code: text(t, "code"), State: text(t, "state"), ClientId: client, Issuer: issuer,
		ExpiresIn: fx.Pick[uint64](t, "expires", 1, 5, 60, 3600, 86400, 1e9, 1<<31-1, 1<<31, 1<<32+5, 5e9),
	}
	if fx.Chance(t, "more", 2) {
		r.RedirectUri, r.ResponseMode = "https://client.example/cb", "query.jwt"
	}
	return r
}

func refused(c *hx.Case, what string, r *flowv1.AuthorizeResponse, err error) {
	if err == nil || r.GetCode() != "" {
		c.Fatalf("%s: accepted: %v (%v)", what, r, err)
	}
	c.NonTrivial("%s", what)
}

func TestC24(t *testing.T) {
	s := hx.New(t, "C24", "drawn authorization responses (successes with drawn lifetimes, every protocol error) encoded and decoded by the library with every signature algorithm, on a fake clock before and after the lifetime; decoding by another issuer, audience or key, altered and forged tokens, tokens of other types and hand-made claims must be refused without a code; one decoder over several responses, audiences, times and keys; and incomplete responses must not be encoded. Non-trivial: every round trip and refusal, identified by its content.",
		"the exact second of expiration is not tested", "lifetimes above 5e9 seconds are not drawn")

	s.Prop("round_trip", 4000, func(c *hx.Case) {
		k := fx.AnyKey(c.T, "key")
		issuer, client := fx.Issuer(c.T, "iss"), text(c.T, "client")
		skew := time.Duration(fx.Int(c.T, "skew", 0, 999_999_999))
		r := success(c.T, issuer, client)
		if fx.Chance(c.T, "error", 3) {
			r = &flowv1.AuthorizeResponse{State: r.State, Error: &corev1.Error{Err: fx.Pick(c.T, "err", "access_denied", "invalid_request", "server_error", "unauthorized_client", "invalid_scope", "consent_required"), ErrorDescription: fx.Pick(c.T, "desc", "", "because é \"x\"", "the resource owner denied the request", strings.Repeat("a long story ", fx.Int(c.T, "long", 1, 200)))}}
			if fx.Chance(c.T, "built", 2) {
				r.Error = fx.Pick(c.T, "builder", rfcerrors.InvalidRequest(), rfcerrors.AccessDenied(), rfcerrors.ServerError(), rfcerrors.UnauthorizedClient()).Build()
			}
			if fx.Chance(c.T, "coded", 2) { // a code never leaves with an error
				r.Code, r.ClientId, r.ExpiresIn = "code", client, 60
			}
		}
		c.Bubble(func() {
			time.Sleep(skew)
			before := proto.Clone(r)
			tok, err := jarm.Encoder(jwt.JARMSigner(k.Alg, fx.Provider(k.JWK("k1")))).Encode(bg, issuer, r)
			if err != nil || !proto.Equal(before, r) {
				c.Fatalf("encode %v: %v, left %v", before, err, r)
			}
			dec := jarm.Decoder(issuer, jwt.DefaultVerifier(fx.SetProvider(k.Other().PubJWK("k1"), k.PubJWK("k1")), fx.SigAlgs))
			if fx.Header(tok)["typ"] != "jarm+jwt" {
				c.Fatalf("type of %q", tok)
			}
			got, err := dec.Decode(bg, client, tok)
			if r.Error != nil {
				if err != nil || got.GetError().GetErr() != r.Error.Err || got.GetError().GetErrorDescription() != r.Error.ErrorDescription || got.GetCode() != "" || got.GetState() != r.State {
					c.Fatalf("error %v decoded to %v (%v)", r, got, err)
				}
				if fx.Payload(tok)["code"] != nil {
					c.Fatalf("error carries a code: %v", fx.Payload(tok))
				}
				c.Hit("error")
				c.NonTrivial("error %v", r)
				return
			}
			ok := func(when string) {
				if err != nil || got.GetCode() != r.Code || got.GetState() != r.State || got.GetIssuer() != issuer || got.Error != nil {
					c.Fatalf("%v decoded %s to %v (%v)", r, when, got, err)
				}
			}
			ok("at once")
			life := time.Duration(r.ExpiresIn) * time.Second
			if early := life - 2*time.Second; early > 0 {
				time.Sleep(early)
				got, err = dec.Decode(bg, client, tok)
				ok("before its end")
				time.Sleep(2 * time.Second)
			} else {
				time.Sleep(life)
			}
			time.Sleep(1100 * time.Millisecond)
			got, err = dec.Decode(bg, client, tok)
			refused(c, fmt.Sprintf("expired after %v: %v", life, r), got, err)
			c.Hit("success")
		})
	})

	s.Prop("foreign", 6000, func(c *hx.Case) {
		k := fx.AnyKey(c.T, "key")
		issuer, client := fx.Issuer(c.T, "iss"), text(c.T, "client")
		r := success(c.T, issuer, client)
		r.ExpiresIn = 3600
		enc := jarm.Encoder(jwt.JARMSigner(k.Alg, fx.Provider(k.JWK("k1"))))
		tok, err := enc.Encode(bg, issuer, r)
		if err != nil {
			c.Fatalf("encode %v: %v", r, err)
		}
		set := []jose.JSONWebKey{k.PubJWK("k1")}
		decIssuer, decClient, how := issuer, client, ""
		header := fx.Map{"alg": string(k.Alg), "kid": "k1", "typ": "jarm+jwt"}
		claims := fx.Payload(tok)
		switch fx.Int(c.T, "deviation", 0, 10) {
		case 0:
			decIssuer, how = fx.OtherIssuer(c.T, "iss2", issuer), "other issuer"
		case 1:
			decClient, how = fx.Mutate(c.T, "client2", client), "other audience"
			if decClient == client {
				decClient += "x"
			}
		case 2:
			set, how = []jose.JSONWebKey{k.Other().PubJWK("k1")}, "other key"
		case 3:
			tok, how = fx.Forge(c.T, k, header, fx.JSON(claims))
		case 4:
			header["typ"] = fx.Pick(c.T, "typ", "at+jwt", "rt+jwt", "jwt", "JWT", "", "jarm", "jarm+cwt", "xjarm+jwt", "jarm+jwt2", "oauth-authz-req+jwt", "JARM+JWT", "Jarm+jwt", " jarm+jwt", "jarm+jwt ", "application/jarm+jwt", "x/jarm+jwt")
			if fx.Chance(c.T, "untyped", 5) {
				delete(header, "typ")
			}
			tok, how = fx.JWS(k, header, fx.JSON(claims)), fmt.Sprint("type ", header["typ"])
		case 5:
			n := fx.Pick(c.T, "name", "iss", "aud", "exp")
			delete(claims, n)
			tok, how = fx.JWS(k, header, fx.JSON(claims)), "no "+n
		case 6:
			claims["exp"] = fx.Pick(c.T, "exp", any(0), any(1), any(time.Now().Unix()-2), any(-1), any("x"), any("9999999999"))
			if claims["exp"] == "9999999999" {
				delete(claims, "exp")
			}
			tok, how = fx.JWS(k, header, fx.JSON(claims)), fmt.Sprint("exp ", claims["exp"])
		case 7:
			claims["iss"] = fx.Pick(c.T, "issv", any(fx.OtherIssuer(c.T, "iss2", issuer)), any(""), any(1), any([]any{issuer}), any(nil))
			tok, how = fx.JWS(k, header, fx.JSON(claims)), "iss claim"
		case 8:
			claims["aud"] = fx.Pick(c.T, "audv", any(client+"x"), any(""), any(1), any("x"+client), any(nil))
			tok, how = fx.JWS(k, header, fx.JSON(claims)), "aud claim"
		case 9: // the right token of another client or issuer
			r2 := proto.Clone(r).(*flowv1.AuthorizeResponse)
			if fx.Chance(c.T, "which", 2) {
				r2.ClientId = client + "2"
			} else {
				r2.Issuer = fx.OtherIssuer(c.T, "iss2", issuer)
			}
			if tok, err = enc.Encode(bg, issuer, r2); err != nil {
				c.Fatalf("encode %v: %v", r2, err)
			}
			how = "response to another"
		default:
			tok = fx.Pick(c.T, "garbage", "", ".", "..", "a.b.c", "...", "é", tok+"."+tok)
			how = "garbage"
		}
		got, err := jarm.Decoder(decIssuer, jwt.DefaultVerifier(fx.SetProvider(set...), fx.SigAlgs)).Decode(bg, decClient, tok)
		refused(c, fmt.Sprintf("%s: %v read by %q from %q", how, r, decClient, decIssuer), got, err)
		c.Hit("%s", how)
	})

	// One decoder over several responses, audiences, times and keys.
	s.Prop("history", 1500, func(c *hx.Case) {
		k := fx.GetKey(fx.Pick(c.T, "alg", jose.ES256, jose.EdDSA), 0)
		set := []jose.JSONWebKey{k.PubJWK("k1")}
		trusted := true
		dec := jarm.Decoder("https://as.example", jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
			return &jose.JSONWebKeySet{Keys: set}, nil
		}, fx.SigAlgs))
		enc := jarm.Encoder(jwt.JARMSigner(k.Alg, fx.Provider(k.JWK("k1"))))
		type sent struct {
			raw, iss, client, code, state string
			end                           time.Time
			failed                        bool
		}
		var past []sent
		yes, no := 0, 0
		c.Bubble(func() {
			c.Repeat(map[string]func(*rapid.T){
				"wait": func(t *rapid.T) {
					time.Sleep(time.Duration(fx.Pick(t, "ms", 400, 4000, 62000)) * time.Millisecond)
				},
				"rotate": func(t *rapid.T) {
					if trusted = !trusted; trusted {
						set = []jose.JSONWebKey{k.PubJWK("k1")}
					} else {
						set = []jose.JSONWebKey{k.Other().PubJWK("k1")}
					}
				},
				"encode": func(t *rapid.T) {
					r := sent{iss: fx.Pick(t, "iss", "https://as.example", "https://as.example", "https://as2.example"), client: fx.Pick(t, "client", "a", "b"), code: fx.Str(t, "code", fx.Alnum, 1, 4), state: fx.Str(t, "state", fx.Alnum, 1, 4)}
					res := &flowv1.AuthorizeResponse{Issuer: r.iss, ClientId: r.client, Code: r.code, State: r.state, ExpiresIn: fx.Pick[uint64](t, "life", 1, 5, 60)}
					if r.failed = fx.Chance(t, "error", 4); r.failed {
						res = &flowv1.AuthorizeResponse{State: r.state, Error: &corev1.Error{Err: "access_denied"}}
					}
					r.end = time.Now().Truncate(time.Second).Add(time.Duration(res.ExpiresIn) * time.Second)
					raw, err := enc.Encode(bg, r.iss, res)
					if err != nil {
						c.Fatalf("encode %v: %v", res, err)
					}
					r.raw = raw
					past = append(past, r)
				},
				"decode": func(t *rapid.T) {
					if len(past) == 0 {
						return
					}
					r := fx.Pick(t, "response", past...)
					aud := fx.Pick(t, "aud", "a", "b")
					if d := time.Now().Truncate(time.Second).Sub(r.end); !r.failed && d == 0 {
						return
					}
					raw, spliced := r.raw, fx.Chance(t, "spliced", 4)
					if spliced {
						h, _, sig := fx.Split(raw)
						raw = h + "." + fx.B64(fx.JSON(fx.Map{"iss": "https://as.example", "aud": aud, "exp": time.Now().Unix() + 60, "code": "stolen", "state": r.state})) + "." + sig
					}
					c.Step()
					got, err := dec.Decode(bg, aud, raw)
					what := fmt.Sprintf("response %+v decoded for %s (trusted %v, spliced %v): %v (%v)", r, aud, trusted, spliced, got, err)
					if trusted && !spliced && r.failed {
						if err != nil || got.GetError().GetErr() != "access_denied" || got.GetState() != r.state || got.GetCode() != "" {
							c.Fatalf("%s", what)
						}
						return
					}
					if trusted && !spliced && r.iss == "https://as.example" && r.client == aud && time.Now().Before(r.end) {
						yes++
						if err != nil || got.GetCode() != r.code || got.GetState() != r.state || got.GetIssuer() != r.iss || got.GetError() != nil {
							c.Fatalf("%s", what)
						}
						return
					}
					no++
					if err == nil || got.GetCode() != "" {
						c.Fatalf("%s", what)
					}
				},
			})
		})
		if yes > 0 && no > 0 {
			c.NonTrivial("history of %d responses, %d decoded, %d refused", len(past), yes, no)
		}
	})

	s.Prop("hand_made", 2000, func(c *hx.Case) {
		// genuine signatures: an error never yields a code; the rest is as encoded
		k := fx.GetKey(fx.Pick(c.T, "alg", fx.CheapAlgs...), 0)
		claims := fx.Map{"iss": "https://op.example", "aud": "client", "exp": time.Now().Unix() + 600, "code": "the code", "state": "the state", "error": fx.Pick(c.T, "err", "access_denied", "x")}
		if fx.Chance(c.T, "bare", 2) {
			delete(claims, fx.Pick(c.T, "drop", "iss", "aud", "exp", "state"))
		}
		tok := fx.JWS(k, fx.Map{"alg": string(k.Alg), "kid": "k1", "typ": "jarm+jwt"}, fx.JSON(claims))
		got, err := jarm.Decoder("https://op.example", jwt.DefaultVerifier(fx.SetProvider(k.PubJWK("k1")), fx.SigAlgs)).Decode(bg, "client", tok)
		if got.GetCode() != "" {
			c.Fatalf("%v yields %v (%v)", claims, got, err)
		}
		if err == nil && got.GetError().GetErr() != claims["error"] {
			c.Fatalf("%v yields %v", claims, got)
		}
		// no audience to compare with
		delete(claims, "error")
		claims["aud"] = ""
		if fx.Chance(c.T, "noaud", 2) {
			delete(claims, "aud")
		}
		tok = fx.JWS(k, fx.Map{"alg": string(k.Alg), "kid": "k1", "typ": "jarm+jwt"}, fx.JSON(claims))
		got, err = jarm.Decoder("https://op.example", jwt.DefaultVerifier(fx.SetProvider(k.PubJWK("k1")), fx.SigAlgs)).Decode(bg, "", tok)
		refused(c, fmt.Sprintf("blank audience: %v", claims), got, err)
	})

	s.Prop("not_encoded", 1500, func(c *hx.Case) {
		k := fx.GetKey(jose.ES256, 0)
		provider := fx.Provider(k.JWK("k1"))
		issuer := "https://op.example"
		r := success(c.T, issuer, "client")
		what := fx.Pick(c.T, "what", "code", "state", "client", "lifetime", "issuer", "response", "key", "nothing")
		switch what {
		case "code":
			r.Code = ""
		case "state":
			r.State = ""
		case "client":
			r.ClientId = ""
		case "lifetime":
			r.ExpiresIn = 0
		case "issuer":
			issuer = ""
		case "response":
			r = nil
		case "key":
			provider = jwk.KeyProviderFunc(func(context.Context) (*jose.JSONWebKey, error) { return nil, errors.New("no key today") })
		case "nothing":
			r = &flowv1.AuthorizeResponse{}
		}
		tok, err := jarm.Encoder(jwt.JARMSigner(k.Alg, provider)).Encode(bg, issuer, r)
		if err == nil || tok != "" {
			c.Fatalf("no %s: encoded %v", what, r)
		}
		c.Hit("no %s", what)
		c.NonTrivial("no %s %v", what, r)
	})
}
