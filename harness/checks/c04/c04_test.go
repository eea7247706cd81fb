package c04

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

type issued struct {
	iss string
	tok *tokenv1.Token
}

type pending struct {
	iss, client, code, redirect, verifier, subject, audience string
	scope                                                    []string
	recorded                                                 string // the scope as recorded
	expires                                                  time.Time
}

func TestC04(t *testing.T) {
	s := hx.New(t, "C04", "rapid on a fake clock: 1..4 authorizations (direct or pushed, several clients, issuers, scopes, prompts, audiences) interleaved with clock advances, each redeemed correctly with a drawn key confirmation; issued tokens compared with the grant and with what storage returns by id and by value. Non-trivial: at least one code redeemed; identified by scope, prompt, client count and confirmation.",
		"scope words that differ from openid/offline_access only in letter case are not generated")

	s.Prop("grant", 15000, func(c *hx.Case) {
		red := []string{"https://a.example/cb", "https://a.example/cb2"}
		a, b := fx.FullClient("client-a", red...), fx.FullClient("client-b", red...)
		b.ClientType = clientv1.ClientType_CLIENT_TYPE_PUBLIC
		b.GrantTypes = []string{oidc.GrantTypeAuthorizationCode}
		b.SubjectType = "pairwise"
		w := fx.NewWorld(a, b)
		iss := fx.Issuer(c.T, "iss")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss2", iss)}
		n := fx.Int(c.T, "n", 1, 4)
		c.Bubble(func() {
			var toks []issued
			var todo []*pending
			values, ids := map[string]bool{}, map[string]bool{}
			add := func(iss string, tok *tokenv1.Token) {
				if values[tok.Value] {
					c.Fatalf("token value issued twice: %v", tok)
				}
				if ids[tok.TokenId] {
					c.Fatalf("token id issued twice: %v", tok)
				}
				values[tok.Value], ids[tok.TokenId] = true, true
				toks = append(toks, issued{iss, proto.Clone(tok).(*tokenv1.Token)})
			}
			redeem := func(p *pending) {
				if d := time.Until(p.expires); d < time.Second {
					return
				}
				cnf := fx.Confirmation(c.T, "cnf")
				var extra *string
				if fx.Int(c.T, "noise", 0, 1) == 1 {
					extra = fx.Ref("openid offline_access admin")
				}
				now := uint64(time.Now().Unix())
				res, err := w.Tok.Token(bg, &flowv1.TokenRequest{
					Issuer: p.iss, GrantType: oidc.GrantTypeAuthorizationCode, TokenConfirmation: cnf,
					Client: &clientv1.Client{ClientId: p.client, ClientName: "x"},
					Scope:  extra, Audience: extra, Resource: []string{"urn:x"},
					Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: p.code, RedirectUri: p.redirect, CodeVerifier: p.verifier}},
				})
				c.Step()
				wantRT := slices.Contains(p.scope, "openid") && slices.Contains(p.scope, "offline_access")
				fx.WantTokens(c, "redeem", res, err, wantRT)
				g := fx.Grant{Issuer: p.iss, Subject: p.subject, Client: p.client, Audience: p.audience, Scope: p.recorded, Jkt: cnf.GetJkt(), Type: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Issued: now, Lifetime: 3600}
				fx.WantToken(c, "access token", res.AccessToken, g)
				if (res.AccessToken.Confirmation != nil) != (cnf != nil) {
					c.Fatalf("confirmation presence: %v, presented %v", res.AccessToken.Confirmation, cnf)
				}
				add(p.iss, res.AccessToken)
				if wantRT {
					g.Type, g.Lifetime = tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, 7*24*3600
					fx.WantToken(c, "refresh token", res.RefreshToken, g)
					add(p.iss, res.RefreshToken)
				}
				if res.IdToken != nil {
					c.Fatalf("unexpected id token %v", res.IdToken)
				}
				c.NonTrivial("scope=%q audience=%q cnf=%v rt=%v client=%s", strings.Join(p.scope, " "), p.audience, cnf != nil, wantRT, p.client)
				c.Hit("rt=%v cnf=%v", wantRT, cnf != nil)
			}
			for i := 0; i < n; i++ {
				p := &pending{
					iss: fx.Pick(c.T, "at", issuers...), client: fx.Pick(c.T, "client", "client-a", "client-b"),
					redirect: fx.Pick(c.T, "redir", red...), verifier: fx.Verifier(c.T, "ver"),
					subject: fx.Pick(c.T, "sub", "alice", "bob", "user:42 é", " spaced ", "client-a"),
				}
				r := fx.ValidRequest(c.T, "req", p.client, p.redirect, p.verifier)
				if fx.Chance(c.T, "core", 2) {
					r.Scope = strings.TrimSpace("openid offline_access " + r.Scope)
				}
				r.Scope = fx.Spaced(c.T, "spaced", r.Scope)
				r.Audience = fx.Pick(c.T, "audience", r.Audience, r.Audience, "a b", " a", "a ", "a  b", "A", "é\t", r.Audience+" other", strings.Repeat("aud", 100))
				p.scope, p.audience = fx.RecordedScope(r), r.Audience
				noise(c, r)
				if fx.Chance(c.T, "push", 3) {
					pr, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: p.iss, Client: &clientv1.Client{ClientId: p.client}, Request: r})
					fx.WantOK(c, "push", err, pr.GetError())
					fx.Spoil(r.ProtoReflect()) // the caller reuses its object
					r = &flowv1.AuthorizationRequest{ClientId: p.client, RequestUri: &pr.RequestUri, Scope: "openid offline_access admin", Audience: "other"}
					c.Hit("pushed")
				}
				res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: p.iss, Subject: p.subject, Request: r})
				c.Step()
				fx.WantOK(c, "authorize", err, res.GetError())
				fx.Spoil(r.ProtoReflect())
				sess, err := w.Codes.Get(bg, p.iss, res.Code)
				if err != nil || !slices.Equal(strings.Fields(sess.GetRequest().GetScope()), p.scope) || sess.GetRequest().GetAudience() != p.audience {
					c.Fatalf("recorded grant: %v %v, expected scope %q audience %q", sess, err, p.scope, p.audience)
				}
				p.recorded = sess.Request.Scope
				p.code, p.expires = res.Code, time.Now().Add(time.Duration(res.ExpiresIn)*time.Second)
				todo = append(todo, p)
				if fx.Int(c.T, "wait", 0, 2) == 0 {
					time.Sleep(time.Duration(fx.Int(c.T, "ms", 1, 25000)) * time.Millisecond)
				}
				if fx.Int(c.T, "now", 0, 1) == 1 {
					k := fx.Int(c.T, "which", 0, len(todo)-1)
					redeem(todo[k])
					todo = slices.Delete(todo, k, k+1)
				}
			}
			for _, p := range todo {
				redeem(p)
			}
			if fx.Int(c.T, "later", 0, 2) == 0 {
				time.Sleep(time.Duration(fx.Int(c.T, "laterms", 1, 20*24*3600)) * time.Second)
			}
			// every token is retrievable under its issuer with the same content
			for _, k := range toks {
				for what, get := range map[string]func() (*tokenv1.Token, error){
					"by value": func() (*tokenv1.Token, error) { return w.Tokens.GetByValue(bg, k.iss, k.tok.Value) },
					"by id":    func() (*tokenv1.Token, error) { return w.Tokens.Get(bg, k.iss, k.tok.TokenId) },
				} {
					got, err := get()
					if err != nil {
						c.Fatalf("issued token not retrievable %s: %v (%v)", what, err, k.tok)
					}
					x, y := proto.Clone(got).(*tokenv1.Token), proto.Clone(k.tok).(*tokenv1.Token)
					x.Value, y.Value = "", ""
					if !proto.Equal(x, y) {
						c.Fatalf("token retrieved %s differs:\n got %v\nwant %v", what, x, y)
					}
				}
			}
		})
	})

	// Over many issuances from one world ids and values stay distinct.
	s.Prop("distinct", 150, func(c *hx.Case) {
		a := fx.FullClient("client-a", "https://a.example/cb")
		w := fx.NewWorld(a)
		seen := map[string]bool{}
		n := fx.Int(c.T, "n", 20, 150)
		ver := fx.Verifier(c.T, "v")
		for i := 0; i < n; i++ {
			r := &flowv1.AuthorizationRequest{Scope: "openid offline_access", ResponseType: "code", ClientId: "client-a", RedirectUri: "https://a.example/cb",
				State: strings.Repeat("s", 32), Nonce: "nonce-nonce", Audience: "aud", CodeChallenge: fx.Challenge(ver), CodeChallengeMethod: "S256", Prompt: fx.Ref("consent")}
			res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: "https://as.example", Subject: "alice", Request: r})
			fx.WantOK(c, "authorize", err, res.GetError())
			tr, err := w.Redeem("https://as.example", "client-a", res.Code, "https://a.example/cb", ver, nil)
			fx.WantTokens(c, "redeem", tr, err, true)
			for _, v := range []string{tr.AccessToken.Value, tr.RefreshToken.Value, "id " + tr.AccessToken.TokenId, "id " + tr.RefreshToken.TokenId} {
				if seen[v] {
					c.Fatalf("issued twice: %q", v)
				}
				seen[v] = true
			}
		}
		c.NonTrivial("%d issuances", n)
	})
}

// noise sets fields which must not influence the issued tokens.
func noise(c *hx.Case, r *flowv1.AuthorizationRequest) {
	if fx.Int(c.T, "noise_req", 0, 2) > 0 {
		return
	}
	r.MaxAge = fx.Ref(uint64(fx.Int(c.T, "max_age", 0, 100000)))
	r.LoginHint = fx.Ref("mallory")
	r.Iss = fx.Ref("https://evil.example")
	r.Resource = []string{fmt.Sprintf("urn:%d", fx.Int(c.T, "res", 0, 3))}
	r.AcrValues = fx.Ref("1")
}
