package c09

import (
	"context"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

const hour = 3600

type entry struct {
	iss     string
	tok     *tokenv1.Token
	revoked bool
}

func TestC09(t *testing.T) {
	s := hx.New(t, "C09", "rapid state machine on a fake clock: tokens of every type, most of them issued by the code, client_credentials, refresh and exchange grants to several clients at two issuers; revocations by owners and others, with type hints, through right and wrong issuers, of altered values; introspection of every issued token and of arbitrary strings after each step; refresh and exchange of revoked and live tokens; the model holds every issued token. Non-trivial: a revocation by the owner and one refused; identified by the operations.",
		"revoking an already revoked or unknown token may report success or an error (C26 has the known finding about its shape); only its effect is checked here")

	s.Prop("history", 4000, func(c *hx.Case) {
		red := "https://c.example/cb"
		near := fx.Pick(c.T, "near", "alpha2", "alpha2", "Alpha", "alpha ", "alph", "ALPHA", "beta")
		a, b := fx.FullClient("alpha", red), fx.FullClient(near, red)
		w := fx.NewWorld(a, b)
		ids := []string{"alpha", near}
		iss := fx.Issuer(c.T, "iss")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss2", iss)}
		revoked, foreign := 0, 0
		var log []string
		c.Bubble(func() {
			var all []*entry
			add := func(iss string, toks ...*tokenv1.Token) {
				for _, k := range toks {
					if k != nil {
						all = append(all, &entry{iss: iss, tok: proto.Clone(k).(*tokenv1.Token)})
					}
				}
			}
			introspect := func(iss, as, value string) *tokenv1.Token {
				res, err := w.Introspect(iss, as, value)
				if res == nil {
					c.Fatalf("nil introspection response")
				}
				fx.WantOK(c, "introspect", err, res.Error)
				if res.Token == nil {
					c.Fatalf("introspection without token")
				}
				return res.Token
			}
			audit := func() {
				for i, e := range all {
					got := introspect(e.iss, ids[i%2], e.tok.Value)
					want := proto.Clone(e.tok).(*tokenv1.Token)
					if e.revoked {
						want.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
					}
					if e.revoked && got.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
						c.Fatalf("revoked token is active: %v", got)
					}
					if got.Status != want.Status || got.TokenId != want.TokenId || got.TokenType != want.TokenType || !proto.Equal(got.Metadata, want.Metadata) || !proto.Equal(got.Confirmation, want.Confirmation) {
						c.Fatalf("introspection of token %d differs (revoked by owner: %v):\n got %v\nwant %v", i, e.revoked, got, want)
					}
				}
			}
			unknown := func(what, iss, as, value string) {
				for _, e := range all {
					if e.iss == iss && e.tok.Value == value {
						return
					}
				}
				got := introspect(iss, as, value)
				if got.Status != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN || got.Metadata != nil || got.Confirmation != nil || got.TokenId != "" {
					c.Fatalf("introspection of %s gives %v", what, got)
				}
				c.Hit("unknown %s", what)
			}
			pick := func(t *rapid.T) *entry { return all[len(all)-1-fx.Int(t, "which", 0, len(all)-1)] }
			c.Repeat(map[string]func(*rapid.T){
				"code": func(t *rapid.T) {
					at, as, ver := fx.Pick(t, "at", issuers...), fx.Pick(t, "as", ids...), fx.Verifier(t, "v")
					r := fx.ValidRequest(t, "req", as, red, ver)
					r.Prompt = fx.Ref("consent")
					ar, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: at, Subject: fx.Pick(t, "sub", "alice", "bob"), Request: r})
					fx.WantOK(c, "authorize", err, ar.GetError())
					res, err := w.Redeem(at, as, ar.Code, red, ver, fx.Confirmation(t, "cnf"))
					fx.WantOK(c, "redeem", err, res.GetError())
					add(at, res.AccessToken, res.RefreshToken)
					c.Step()
					log = append(log, "code")
				},
				"credentials": func(t *rapid.T) {
					at, as := fx.Pick(t, "at", issuers...), fx.Pick(t, "as", ids...)
					res, err := w.Tok.Token(bg, &flowv1.TokenRequest{Issuer: at, Client: &clientv1.Client{ClientId: as}, GrantType: oidc.GrantTypeClientCredentials, Scope: fx.Ref("read"), Audience: fx.Ref("urn:x"), TokenConfirmation: fx.Confirmation(t, "cnf"),
						Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}})
					fx.WantOK(c, "credentials", err, res.GetError())
					add(at, res.AccessToken)
					c.Step()
					log = append(log, "credentials")
				},
				"other": func(t *rapid.T) { // a token of another type, stored by other means
					at, now := fx.Pick(t, "at", issuers...), uint64(time.Now().Unix())
					tok := &tokenv1.Token{
						TokenType: fx.Pick(t, "type", tokenv1.TokenType_TOKEN_TYPE_ID_TOKEN, tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN, tokenv1.TokenType_TOKEN_TYPE_UNSPECIFIED),
						TokenId:   fx.Str(t, "jti", fx.Alnum, 12, 12), Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Value: fx.Str(t, "val", fx.Alnum, 24, 24),
						Metadata: &tokenv1.TokenMeta{Issuer: at, Subject: "alice", ClientId: fx.Pick(t, "as", ids...), IssuedAt: now, NotBefore: now, ExpiresAt: now + hour},
					}
					if err := w.Tokens.Create(bg, at, proto.Clone(tok).(*tokenv1.Token)); err != nil {
						c.Fatalf("store: %v", err)
					}
					add(at, tok)
					log = append(log, "other")
				},
				"revoke": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					e := pick(t)
					as, at, value := e.tok.Metadata.ClientId, e.iss, e.tok.Value
					kind := fx.Pick(t, "kind", "owner", "owner", "owner", "foreign", "foreign", "issuer", "value", "id", "unknown_client")
					switch kind {
					case "foreign":
						as = map[string]string{"alpha": near, near: "alpha"}[as]
					case "issuer":
						at = fx.OtherIssuer(t, "oi", at)
						if rapid.Bool().Draw(t, "known") {
							at = map[bool]string{true: issuers[1], false: issuers[0]}[e.iss == issuers[0]]
						}
					case "value":
						value = fx.Mutate(t, "val", value)
					case "id":
						value = e.tok.TokenId
					case "unknown_client":
						as = fx.Pick(t, "nobody", "alpha3", "aLPHA", "")
					}
					for _, o := range all { // do not hit another real token by accident
						if o != e && o.iss == at && o.tok.Value == value {
							return
						}
					}
					hint := fx.Opt(t, "hint", rapid.SampledFrom([]string{"access_token", "refresh_token", "x", ""}))
					res, err := w.Tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: at, Client: &clientv1.Client{ClientId: as}, Token: value, TokenTypeHint: hint})
					if res == nil {
						c.Fatalf("nil revocation response")
					}
					c.Step()
					log = append(log, "revoke "+kind)
					c.Hit("revoke %s", kind)
					switch kind {
					case "owner":
						if !e.revoked {
							fx.WantOK(c, "revoke", err, res.Error)
						}
						e.revoked = true
						revoked++
					case "foreign":
						if err == nil {
							c.Fatalf("client %q revoked a token of %q", as, e.tok.Metadata.ClientId)
						}
						foreign++
					default:
						if kind == "unknown_client" && err == nil {
							c.Fatalf("an unknown client revoked a token")
						}
					}
					audit()
				},
				"use": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					e := pick(t)
					m := e.tok.Metadata
					now := uint64(time.Now().Unix())
					if now == m.ExpiresAt || (e.tok.TokenType != tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN && e.tok.TokenType != tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN) {
						return
					}
					live := !e.revoked && now < m.ExpiresAt
					c.Step()
					if e.tok.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {
						res, err := w.Refresh(e.iss, m.ClientId, e.tok.Value)
						log = append(log, "refresh")
						if !live {
							fx.WantTokenRefusal(c, "refresh of a revoked or expired token", res, err)
							c.Hit("refresh refused revoked=%v", e.revoked)
							return
						}
						fx.WantTokens(c, "refresh", res, err, now+hour > m.ExpiresAt)
						e.revoked = res.RefreshToken != nil
						add(e.iss, res.AccessToken, res.RefreshToken)
					} else {
						as := fx.Pick(t, "as", ids...)
						res, err := w.Exchange(e.iss, as, e.tok.Value, nil, nil)
						log = append(log, "exchange")
						if !live {
							fx.WantTokenRefusal(c, "exchange of a revoked or expired token", res, err)
							c.Hit("exchange refused revoked=%v", e.revoked)
							return
						}
						fx.WantTokens(c, "exchange", res, err, false)
						add(e.iss, res.AccessToken)
					}
				},
				"introspect": func(t *rapid.T) {
					v := fx.Str(t, "any", fx.Alnum+"._-é \x00", 1, 40)
					unknown("an arbitrary string", fx.Pick(t, "at", issuers...), fx.Pick(t, "as", ids...), v)
					if len(all) > 0 {
						e := pick(t)
						unknown("an altered value", e.iss, "alpha", fx.Mutate(t, "m", e.tok.Value))
						unknown("a token id", e.iss, "alpha", e.tok.TokenId)
						unknown("another issuer's token", fx.OtherIssuer(t, "oi", e.iss), "alpha", e.tok.Value)
						unknown("another issuer's token", map[bool]string{true: issuers[1], false: issuers[0]}[e.iss == issuers[0]], "alpha", e.tok.Value)
					}
				},
				"advance": func(t *rapid.T) {
					time.Sleep(time.Duration(fx.Pick(t, "s", 1, 30, 62, hour+1, 24*hour, 6*24*hour, 8*24*hour)) * time.Second)
					log = append(log, "advance")
				},
			})
			audit()
		})
		if revoked > 0 && foreign > 0 {
			c.NonTrivial("%s", strings.Join(log, ","))
		}
	})
}
