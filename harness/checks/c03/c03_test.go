package c03

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

type state int

const (
	alive state = iota
	maybe       // refused before the code was reached: consumed or not is unspecified
	consumed
)

type code struct {
	issuer, client, redirect, verifier, value string
	expiry                                    time.Time
	foreign                                   bool // the recorded challenge is not the verifier's
	st                                        state
}

var bg = context.Background()

// nearChallenge returns a 43-byte challenge which resembles the verifier's own.
func nearChallenge(t *rapid.T, ch, ver string) string {
	v := ch
	switch rapid.IntRange(0, 7).Draw(t, "chkind") {
	case 0:
		v = strings.ToUpper(ch)
	case 1:
		v = strings.ToLower(ch)
	case 2:
		v = fx.FlipCase(t, "ch", ch)
	case 3:
		v = ch[:42] + fx.Pick(t, "chlast", "A", "_", ch[41:42], "=", " ")
	case 4:
		v = fx.Pick(t, "chfirst", "A", "_", " ") + ch[1:]
	case 5:
		v = strings.NewReplacer("-", "+", "_", "/").Replace(ch)
	case 6:
		v = (ver + ch)[:43]
	case 7:
		v = ch[1:] + ch[:1]
	}
	return v
}

func TestC03(t *testing.T) {
	s := hx.New(t, "C03", "rapid state machine on a fake clock: codes issued to several clients at several issuers with verifiers of 1..140 bytes, redemption attempts with zero or more wrong elements (client, redirect_uri, verifier, issuer, code, expiry, replay), compared with a model of code states. Non-trivial: a history with a successful redemption and a refusal; identified by its operations.",
		"after an attempt refused before the code is looked up (missing or mis-sized verifier, client without the grant) both outcomes of a later valid attempt are allowed", "the 50 ms around an expiration are not tested")

	s.Prop("history", 6000, func(c *hx.Case) {
		shared := "https://shared.example/cb"
		a := fx.FullClient("alpha", shared, "https://shared.example/cb2", "https://shared.example/CB")
		b := fx.FullClient("beta", shared, "https://shared.example/cb2")
		up := fx.FullClient("ALPHA", shared, "https://shared.example/cb2")
		nog := fx.FullClient("nogrant", shared)
		nog.GrantTypes = []string{"authorization_code2"}
		for _, g := range fx.AllGrants {
			if g != "authorization_code" && rapid.Bool().Draw(c.T, "grant") {
				nog.GrantTypes = append(nog.GrantTypes, g)
			}
		}
		clients := []*clientv1.Client{a, b, up}
		w := fx.NewWorld(a, b, up, nog)
		iss := fx.Issuer(c.T, "iss")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss2", iss), "https://third.example"}
		var log []string
		good, bad := 0, 0
		c.Bubble(func() {
			var all []*code
			clear := func(k *code) bool {
				return fx.Clear(k.expiry)
			}
			redeem := func(iss string, cl *clientv1.Client, value, redirect, verifier string) (*flowv1.TokenResponse, error) {
				c.Step()
				res, err := w.Tok.Token(bg, &flowv1.TokenRequest{
					Issuer: iss, Client: cl, GrantType: "authorization_code",
					Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: value, RedirectUri: redirect, CodeVerifier: verifier}},
				})
				if res == nil {
					c.Fatalf("nil response")
				}
				return res, err
			}
			isRefused := func(what string, res *flowv1.TokenResponse, err error) {
				fx.WantRefusal(c, what, err, res.Error)
				if res.AccessToken != nil || res.RefreshToken != nil || res.IdToken != nil {
					c.Fatalf("%s: tokens in a refusal: %v", what, res)
				}
				bad++
			}
			sized := func(v string) bool { return len(v) >= 43 && len(v) <= 128 }
			// a fully correct attempt
			lost := map[string]bool{}      // clients which lost the grant
			moved := map[string][]string{} // clients with other redirect URIs than when they began, and these
			correct := func(k *code) {
				if l, ok := moved[k.client]; ok && !slices.Contains(l, k.redirect) {
					res, err := redeem(k.issuer, w.Claimed(k.client, k.value), k.value, k.redirect, k.verifier)
					isRefused("redeem for an URI the client has no more", res, err)
					c.Hit("removed redirect refused (%d left)", min(len(l), 1))
					if k.st == alive {
						k.st = maybe
					}
					return
				}
				if lost[k.client] {
					res, err := redeem(k.issuer, w.Claimed(k.client, k.value), k.value, k.redirect, k.verifier)
					isRefused("redeem by a client which lost the grant", res, err)
					c.Hit("lost grant refused")
					if k.st == alive {
						k.st = maybe
					}
					return
				}
				res, err := redeem(k.issuer, &clientv1.Client{ClientId: k.client}, k.value, k.redirect, k.verifier)
				expired := time.Now().After(k.expiry)
				switch {
				case k.st == consumed || expired || !sized(k.verifier) || k.foreign:
					isRefused(fmt.Sprintf("redeem (consumed=%v expired=%v verifier %d bytes, other challenge=%v)", k.st == consumed, expired, len(k.verifier), k.foreign), res, err)
					if k.st == consumed {
						c.Hit("replay refused")
					} else if expired {
						c.Hit("expired refused")
					} else if k.foreign {
						c.Hit("foreign challenge refused")
					} else {
						c.Hit("mis-sized verifier refused")
					}
				case k.st == maybe && err != nil:
					isRefused("redeem (maybe)", res, err)
				default:
					fx.WantOK(c, "redeem", err, res.Error)
					if res.AccessToken == nil || res.AccessToken.Value == "" {
						c.Fatalf("no access token: %v", res)
					}
					if res.AccessToken.Metadata.GetClientId() != k.client {
						c.Fatalf("token issued to %q", res.AccessToken.Metadata.GetClientId())
					}
					good++
					c.Hit("redeemed")
				}
				if !expired && !sized(k.verifier) && k.st == alive {
					k.st = maybe
				} else {
					k.st = consumed
				}
			}
			c.Repeat(map[string]func(*rapid.T){
				"authorize": func(t *rapid.T) {
					cl := fx.Pick(t, "client", clients...)
					if _, ok := moved[cl.ClientId]; ok || lost[cl.ClientId] {
						return
					}
					at := fx.Pick(t, "at", issuers...)
					red := fx.Pick(t, "redir", cl.RedirectUris...)
					ver := fx.Verifier(t, "v")
					switch rapid.IntRange(0, 7).Draw(t, "vkind") {
					case 5:
						ver = fx.Str(t, "vshort", fx.Unreserved, 1, 42)
					case 6:
						ver = fx.Str(t, "vlong", fx.Unreserved, 129, 140)
					case 7:
						ver = strings.Repeat("é", rapid.IntRange(20, 66).Draw(t, "vuni"))
					}
					if len(all) > 0 && rapid.IntRange(0, 5).Draw(t, "vsame") == 5 {
						ver = all[len(all)-1].verifier
					}
					req := fx.ValidRequest(t, "req", cl.ClientId, red, ver)
					if fx.Chance(t, "foreign", 5) {
						req.CodeChallenge = nearChallenge(t, req.CodeChallenge, ver)
					}
					foreign := req.CodeChallenge != fx.Challenge(ver)
					res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: at, Subject: "alice", Request: req})
					c.Step()
					fx.WantOK(c, "authorize", err, res.GetError())
					fx.Spoil(req.ProtoReflect()) // the caller reuses its object
					for _, o := range all {
						if o.value == res.Code {
							c.Fatalf("code %q issued twice", res.Code)
						}
					}
					if res.ExpiresIn == 0 {
						c.Fatalf("no lifetime advertised")
					}
					all = append(all, &code{issuer: at, client: cl.ClientId, redirect: red, verifier: ver, value: res.Code, foreign: foreign, expiry: time.Now().Add(time.Duration(res.ExpiresIn) * time.Second)})
					log = append(log, "authorize "+cl.ClientId)
				},
				"redeem": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					k := all[len(all)-1-rapid.IntRange(0, len(all)-1).Draw(t, "which")]
					if !clear(k) {
						return
					}
					log = append(log, "redeem")
					correct(k)
				},
				"regrant": func(t *rapid.T) {
					cl := proto.Clone(fx.Pick(t, "client", clients...)).(*clientv1.Client)
					if lost[cl.ClientId] = !lost[cl.ClientId]; lost[cl.ClientId] {
						cl.GrantTypes = nil
						for _, g := range append([]string{"authorization_code2", "code"}, fx.AllGrants...) {
							if g != "authorization_code" && rapid.Bool().Draw(t, "keeps") {
								cl.GrantTypes = append(cl.GrantTypes, g)
							}
						}
					}
					delete(moved, cl.ClientId)
					w.Clients.Put(cl)
					log = append(log, "regrant")
				},
				"move": func(t *rapid.T) {
					cl := proto.Clone(fx.Pick(t, "client", clients...)).(*clientv1.Client)
					if _, ok := moved[cl.ClientId]; ok || lost[cl.ClientId] {
						delete(lost, cl.ClientId)
						delete(moved, cl.ClientId)
						w.Clients.Put(cl)
						return
					}
					kept := fx.Pick(t, "kept", nil, nil, []string{}, []string{""}, []string{"https://elsewhere.example/cb"}, cl.RedirectUris[:1], cl.RedirectUris[len(cl.RedirectUris)-1:])
					cl.RedirectUris, moved[cl.ClientId] = kept, kept
					w.Clients.Put(cl)
					log = append(log, "move")
				},
				"redeem_wrong": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					k := all[len(all)-1-rapid.IntRange(0, len(all)-1).Draw(t, "which")]
					if !clear(k) {
						return
					}
					iss, client, value, redirect, verifier := k.issuer, k.client, k.value, k.redirect, k.verifier
					kind := fx.Pick(t, "wrong", "client", "redirect", "verifier", "challenge_as_verifier", "other_verifier", "verifier_size", "issuer", "code", "nogrant", "unknown_client", "missing")
					after := consumed
					switch kind {
					case "client":
						client = fx.Pick(t, "as", "alpha", "beta", "ALPHA")
						if client == k.client {
							client = map[string]string{"alpha": "beta", "beta": "alpha", "ALPHA": "alpha"}[client]
						}
					case "redirect":
						redirect = fx.Mutate(t, "red", k.redirect)
						if rapid.Bool().Draw(t, "registered") {
							redirect = map[bool]string{true: "https://shared.example/cb2", false: "https://shared.example/cb"}[k.redirect == "https://shared.example/cb"]
						}
					case "verifier":
						verifier = fx.Mutate(t, "ver", k.verifier)
						if !sized(verifier) {
							after = maybe
						}
					case "challenge_as_verifier":
						verifier = fx.Challenge(k.verifier)
					case "other_verifier":
						verifier = all[rapid.IntRange(0, len(all)-1).Draw(t, "other")].verifier
						if verifier == k.verifier {
							return
						}
					case "verifier_size":
						verifier = fx.Pick(t, "vs", "x", strings.Repeat("v", 42), strings.Repeat("v", 129))
						after = maybe
					case "issuer":
						iss = fx.OtherIssuer(t, "oi", k.issuer)
						if rapid.Bool().Draw(t, "known_issuer") {
							for _, i := range issuers {
								if i != k.issuer {
									iss = i
								}
							}
						}
						after = k.st // nothing happens to the code of this issuer
					case "code":
						value = fx.Mutate(t, "code", k.value)
						after = k.st
					case "nogrant":
						client = "nogrant"
						after = maybe
					case "unknown_client":
						client = fx.Mutate(t, "cid", k.client)
						if client == "alpha" || client == "beta" || client == "ALPHA" {
							client = "unknown"
						}
						after = maybe
					case "missing":
						switch rapid.IntRange(0, 2).Draw(t, "what") {
						case 0:
							value = ""
							after = k.st
						case 1:
							verifier = ""
							after = maybe
						case 2:
							redirect = ""
							after = maybe
						}
					}
					if _, ok := moved[client]; after == consumed && (ok || lost[client]) {
						after = maybe
					}
					if after == maybe && k.st == consumed {
						after = consumed
					}
					if after == consumed && !sized(verifier) && k.st != consumed {
						after = maybe
					}
					log = append(log, "wrong "+kind)
					res, err := redeem(iss, w.Claimed(client, value), value, redirect, verifier)
					isRefused("redeem with wrong "+kind, res, err)
					c.Hit("wrong %s", kind)
					k.st = after
				},
				"advance": func(t *rapid.T) {
					d := time.Duration(fx.Pick(t, "ms", 1500, 10500, 29500, 45500, 57500, 62500)) * time.Millisecond
					if len(all) > 0 && fx.Int(t, "end", 0, 1) == 1 {
						d = fx.NearEnd(t, "near", fx.Pick(t, "of", all...).expiry)
					}
					time.Sleep(d)
					log = append(log, "advance "+d.String())
				},
			})
			for _, k := range all {
				if clear(k) {
					correct(k)
					correct(k)
				}
			}
		})
		if good > 0 && bad > 0 {
			c.NonTrivial("%s", strings.Join(log, ", "))
		}
	})

	// Sessions as another front end may have recorded them: whatever they say,
	// only a verifier whose SHA-256 is the challenge yields tokens.
	s.Prop("recorded", 3000, func(c *hx.Case) {
		a := fx.FullClient("alpha", "https://shared.example/cb")
		w := fx.NewWorld(a)
		ver := fx.Verifier(c.T, "ver")
		req := fx.ValidRequest(c.T, "req", "alpha", a.RedirectUris[0], ver)
		req.CodeChallengeMethod = fx.Pick(c.T, "method", "S256", "S256", "plain", "", "none", "s256", "S512", "PLAIN")
		chal := fx.Pick(c.T, "challenge", "hash", "verifier", "near", "empty", "hash of hash")
		switch chal {
		case "verifier":
			req.CodeChallenge = ver
		case "near":
			req.CodeChallenge = nearChallenge(c.T, req.CodeChallenge, ver)
		case "empty":
			req.CodeChallenge = ""
		case "hash of hash":
			req.CodeChallenge = fx.Challenge(req.CodeChallenge)
		}
		value := "code-" + fx.Str(c.T, "code", fx.Alnum, 8, 32)
		iss := fx.Issuer(c.T, "iss")
		if _, err := w.Codes.Register(bg, iss, value, &sessionv1.AuthorizationCodeSession{Issuer: iss, Subject: "alice", Request: req}); err != nil {
			c.Fatalf("register: %v", err)
		}
		match := req.CodeChallenge == fx.Challenge(ver)
		what := fmt.Sprintf("redeem with method %q and challenge %s", req.CodeChallengeMethod, chal)
		c.NonTrivial("%s %d", what, len(ver))
		res, err := w.Redeem(iss, "alpha", value, a.RedirectUris[0], ver, nil)
		switch {
		case match && req.CodeChallengeMethod == "S256":
			fx.WantOK(c, what, err, res.Error)
		case match && err == nil: // unspecified
		default:
			fx.WantTokenRefusal(c, what, res, err)
		}
		res, err = w.Redeem(iss, "alpha", value, a.RedirectUris[0], ver, nil)
		fx.WantTokenRefusal(c, "again: "+what, res, err)
	})
}
