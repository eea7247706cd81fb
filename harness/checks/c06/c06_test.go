package c06

import (
	"context"
	"slices"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

const (
	day  = 24 * 3600
	hour = 3600
)

type entry struct {
	iss string
	tok *tokenv1.Token // with its value
}

func TestC06(t *testing.T) {
	s := hx.New(t, "C06", "rapid state machine on a fake clock over token storage: refresh tokens and look-alikes of every type and status, drawn owner, issuer, grant and expiry (dense around now, now+1h), refreshed by right and wrong clients and issuers with misleading scope/audience/confirmation in the request, clients which lose and get back the grant, revoked, and refreshed again from what was returned; accept-iff model of the storage. Non-trivial: a successful refresh; identified by the grant, remaining lifetime and operations.",
		"the exact second of expiration is not tested")

	s.Prop("history", 6000, func(c *hx.Case) {
		a, b, up := fx.FullClient("alpha"), fx.FullClient("beta"), fx.FullClient("ALPHA")
		pub := fx.FullClient("public")
		pub.ClientType = clientv1.ClientType_CLIENT_TYPE_PUBLIC
		no := fx.FullClient("no-grant")
		no.GrantTypes = []string{"authorization_code", "refresh", "refresh_token2", "client_credentials"}
		w := fx.NewWorld(a, b, up, pub, no)
		owners := []string{"alpha", "beta", "ALPHA", "public"}
		registered := map[string]*clientv1.Client{"alpha": a, "beta": b, "ALPHA": up, "public": pub}
		lost := map[string]bool{} // clients which lost the grant
		iss := fx.Issuer(c.T, "iss")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss2", iss)}
		var log []string
		good := 0
		c.Bubble(func() {
			var all []*entry
			n := 0
			refresh := func(t *rapid.T, e *entry, at, as, value string) {
				req := &flowv1.TokenRequest{
					Issuer: at, Client: w.Claimed(as, value+at), GrantType: oidc.GrantTypeRefreshToken,
					Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: value}},
				}
				if rapid.Bool().Draw(t, "noise") {
					req.Scope, req.Audience = fx.Ref("openid offline_access admin"), fx.Ref("urn:example:backend-api")
					req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: strings.Repeat("z", 43)}
				}
				c.Step()
				m := e.tok.Metadata
				now := uint64(time.Now().Unix())
				ok := at == e.iss && value == e.tok.Value && e.tok.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN &&
					e.tok.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && now < m.ExpiresAt && as == m.ClientId && slices.Contains(owners, as) && !lost[as]
				res, err := w.Tok.Token(bg, req)
				if !ok {
					fx.WantTokenRefusal(c, "refresh", res, err)
					c.Hit("refused type=%v status=%v iss=%v owner=%v expired=%v", e.tok.TokenType, e.tok.Status, at == e.iss, as == m.ClientId, now >= m.ExpiresAt)
					return
				}
				rotate := now+hour > m.ExpiresAt
				fx.WantTokens(c, "refresh", res, err, rotate)
				g := fx.Grant{Issuer: m.Issuer, Subject: m.Subject, Client: m.ClientId, Audience: m.Audience, Scope: m.Scope, Jkt: e.tok.Confirmation.GetJkt(), Type: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Issued: now, Lifetime: hour}
				fx.WantToken(c, "new access token", res.AccessToken, g)
				all = append(all, &entry{at, proto.Clone(res.AccessToken).(*tokenv1.Token)})
				if rotate {
					g.Type, g.Lifetime = tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, 7*day
					fx.WantToken(c, "replacement", res.RefreshToken, g)
					if res.RefreshToken.Value == value || res.RefreshToken.TokenId == e.tok.TokenId || res.RefreshToken.Value == res.AccessToken.Value {
						c.Fatalf("replacement token is not new")
					}
					e.tok.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
					all = append(all, &entry{at, proto.Clone(res.RefreshToken).(*tokenv1.Token)})
				}
				good++
				c.Hit("refreshed rotate=%v cnf=%v", rotate, e.tok.Confirmation != nil)
				c.NonTrivial("left=%d scope=%q", m.ExpiresAt-now, m.Scope)
			}
			c.Repeat(map[string]func(*rapid.T){
				"regrant": func(t *rapid.T) { // the registration changes
					id := fx.Pick(t, "client", owners...)
					cl := proto.Clone(registered[id]).(*clientv1.Client)
					if lost[id] = !lost[id]; lost[id] {
						cl.GrantTypes = slices.DeleteFunc(cl.GrantTypes, func(g string) bool { return g == oidc.GrantTypeRefreshToken })
					}
					w.Clients.Put(cl)
					log = append(log, "regrant "+id)
				},
				"store": func(t *rapid.T) {
					n++
					now := uint64(time.Now().Unix())
					at := fx.Pick(t, "at", issuers...)
					exp := now
					switch fx.Int(t, "expkind", 0, 6) {
					case 0:
						exp = now + uint64(fx.Int(t, "exp", 2, 7*day))
					case 1:
						exp = now + hour + uint64(fx.Int(t, "near", 0, 3)) // around the rotation boundary
					case 2:
						exp = now + hour - uint64(fx.Int(t, "near", 1, 3))
					case 3:
						exp = now - uint64(fx.Int(t, "past", 2, day))
						if fx.Chance(t, "epoch", 3) {
							exp = uint64(fx.Int(t, "since", 0, 1))
						}
					case 4:
						exp = now + uint64(fx.Int(t, "soon", 2, 20))
					default:
						exp = now + 7*day
					}
					iat := min(now, max(exp, 1)-1)
					if back := uint64(fx.Int(t, "age", 0, 6*day)); back < iat {
						iat -= back
					}
					tok := &tokenv1.Token{
						TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, TokenId: fx.Str(t, "jti", fx.Alnum, 12, 12), Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
						Value: "rt-" + fx.Str(t, "val", fx.Alnum, 20, 20), Confirmation: fx.Confirmation(t, "cnf"),
						Metadata: &tokenv1.TokenMeta{Issuer: at, Subject: fx.Pick(t, "sub", "alice", "bob", ""), ClientId: fx.Pick(t, "owner", "alpha", "alpha", "beta", "ALPHA", "public", "no-grant"), Scope: fx.Scope(t, "scope"), Audience: fx.Pick(t, "aud", "api", "https://api.example", "urn:x"), IssuedAt: iat, NotBefore: iat, ExpiresAt: exp},
					}
					switch fx.Int(t, "alike", 0, 9) {
					case 7:
						tok.TokenType = fx.Pick(t, "type", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, tokenv1.TokenType_TOKEN_TYPE_ID_TOKEN, tokenv1.TokenType_TOKEN_TYPE_UNSPECIFIED, tokenv1.TokenType_TOKEN_TYPE_UNKNOWN, tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN)
					case 8:
						tok.Status = fx.Pick(t, "status", tokenv1.TokenStatus_TOKEN_STATUS_REVOKED, tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN, tokenv1.TokenStatus_TOKEN_STATUS_UNSPECIFIED)
					}
					if err := w.Tokens.Create(bg, at, proto.Clone(tok).(*tokenv1.Token)); err != nil {
						c.Fatalf("store: %v", err)
					}
					all = append(all, &entry{at, tok})
					log = append(log, "store")
				},
				"refresh": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					e := all[len(all)-1-fx.Int(t, "which", 0, len(all)-1)]
					if now := uint64(time.Now().Unix()); now == e.tok.Metadata.ExpiresAt {
						return
					}
					log = append(log, "refresh")
					refresh(t, e, e.iss, e.tok.Metadata.ClientId, e.tok.Value)
				},
				"refresh_wrong": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					e := all[len(all)-1-fx.Int(t, "which", 0, len(all)-1)]
					at, as, value := e.iss, e.tok.Metadata.ClientId, e.tok.Value
					switch fx.Int(t, "wrong", 0, 4) {
					case 0:
						as = fx.Pick(t, "as", "alpha", "beta", "ALPHA", "public", "no-grant", "unknown")
					case 1:
						at = fx.OtherIssuer(t, "oi", e.iss)
					case 2:
						at = issuers[0]
					case 3:
						value = fx.Mutate(t, "val", value)
					case 4:
						value = e.tok.TokenId
					}
					if now := uint64(time.Now().Unix()); now == e.tok.Metadata.ExpiresAt {
						return
					}
					log = append(log, "refresh_wrong")
					refresh(t, e, at, as, value)
				},
				"revoke": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					e := all[len(all)-1-fx.Int(t, "which", 0, len(all)-1)]
					res, err := w.Revoke(e.iss, e.tok.Metadata.ClientId, e.tok.Value)
					fx.WantOK(c, "revoke", err, res.GetError())
					e.tok.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
					log = append(log, "revoke")
				},
				"refresh_named": func(t *rapid.T) { // another client, whose object mentions the owner
					if len(all) == 0 {
						t.Skip("none")
					}
					e := all[len(all)-1-fx.Int(t, "which", 0, len(all)-1)]
					if now := uint64(time.Now().Unix()); now == e.tok.Metadata.ExpiresAt {
						return
					}
					owner := e.tok.Metadata.ClientId
					as := fx.Pick(t, "as", owners...)
					if as == owner {
						return
					}
					cl := fx.FullClient(owner)
					cl.ClientId, cl.ClientName = as, owner
					cl.SectorIdentifier, cl.ApplicationType, cl.SubjectType, cl.ClientUri = owner, owner, owner, owner
					res, err := w.Tok.Token(bg, &flowv1.TokenRequest{
						Issuer: e.iss, Client: cl, GrantType: oidc.GrantTypeRefreshToken,
						Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: e.tok.Value}},
					})
					fx.WantTokenRefusal(c, "refresh by another client which mentions the owner", res, err)
					log = append(log, "refresh_named")
				},
				"advance": func(t *rapid.T) {
					d := time.Duration(fx.Pick(t, "s", 1, 2, 10, hour-2, hour, hour+1, day, 6*day, 7*day)) * time.Second
					time.Sleep(d)
					log = append(log, "advance "+d.String())
				},
			})
			// every modelled status is the stored one
			for _, e := range all {
				got, err := w.Tokens.GetByValue(bg, e.iss, e.tok.Value)
				if err != nil {
					c.Fatalf("token lost: %v", err)
				}
				if got.Status != e.tok.Status {
					c.Fatalf("stored status %v, expected %v", got.Status, e.tok.Status)
				}
			}
		})
		if good > 0 {
			c.NonTrivial("%s", strings.Join(log, ","))
		}
	})
}
