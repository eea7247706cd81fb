package c08

import (
	"context"
	"slices"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

// resources maps what is requested to the URN tokens carry.
type resources map[string]string

func (r resources) GetByURI(_ context.Context, uri string) (*resourcev1.Resource, error) {
	if urn, ok := r[uri]; ok {
		return &resourcev1.Resource{Urn: urn, Urls: []string{uri}}, nil
	}
	return nil, storage.ErrNotFound
}

func (r resources) Get(ctx context.Context, id string) (*resourcev1.Resource, error) {
	return r.GetByURI(ctx, id)
}

type entry struct {
	iss string
	tok *tokenv1.Token
}

func TestC08(t *testing.T) {
	s := hx.New(t, "C08", "rapid state machine on a fake clock: subject tokens of every type and status with drawn owner, issuer, scope, confirmation and expiry, exchanged (also the results again) by several clients with scope lists inside and outside of the granted one, known and unknown audiences, wrong subject_token_type, value or issuer; accept-iff model and exact result contents, and the stored subject token compared before and after. Non-trivial: a successful exchange or one refused for a single reason; identified by scopes, audience and reason.",
		"scope words in other letter cases than the granted ones are treated as not granted", "an actor token is not specified; it is sent as noise", "the exact second of expiration is not tested")

	s.Prop("history", 6000, func(c *hx.Case) {
		a, b, pub := fx.FullClient("alpha"), fx.FullClient("beta"), fx.FullClient("public")
		pub.ClientType = clientv1.ClientType_CLIENT_TYPE_PUBLIC
		no := fx.FullClient("no-grant")
		no.GrantTypes = []string{"authorization_code", "token-exchange", "urn:ietf:params:oauth:grant-type:token-exchange2", "refresh_token", "client_credentials"}
		w := fx.NewWorld(a, b, pub, no)
		res := resources{"https://api.example/orders": "urn:orders", "https://api.example": "urn:api", "urn:self": "urn:self"}
		builtin := fx.Chance(c.T, "builtin", 3)
		if builtin {
			res = resources{"urn:example:cooperation-context": "urn:example:cooperation-context", "urn:example:backend-api": "urn:example:backend-api"}
		} else {
			w.Resources = res
			w.Wire()
		}
		var uris []string
		for u := range res {
			uris = append(uris, u)
		}
		slices.Sort(uris)
		owners := []string{"alpha", "beta", "public"}
		iss := fx.Issuer(c.T, "iss")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss2", iss)}
		good := 0
		c.Bubble(func() {
			var all []*entry
			c.Repeat(map[string]func(*rapid.T){
				"store": func(t *rapid.T) {
					now := uint64(time.Now().Unix())
					at := fx.Pick(t, "at", issuers...)
					exp := now + 3600
					switch fx.Int(t, "expkind", 0, 6) {
					case 2:
						exp = uint64(fx.Pick(t, "never", 0, 0, 1))
					case 0:
						exp = now + uint64(fx.Int(t, "exp", 2, 50))
					case 1:
						exp = now - uint64(fx.Int(t, "past", 2, 5000))
					}
					tok := &tokenv1.Token{
						TokenType: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, TokenId: fx.Str(t, "jti", fx.Alnum, 12, 12), Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
						Value: "at-" + fx.Str(t, "val", fx.Alnum, 20, 20), Confirmation: fx.Confirmation(t, "cnf"),
						Metadata: &tokenv1.TokenMeta{Issuer: at, Subject: fx.Pick(t, "sub", "alice", "bob", ""), ClientId: fx.Pick(t, "owner", owners...), Scope: fx.Scope(t, "scope"), Audience: fx.Pick(t, "aud", "api", "urn:orders"), IssuedAt: min(now, max(exp, 1)-1), NotBefore: min(now, max(exp, 1)-1), ExpiresAt: exp},
					}
					switch fx.Int(t, "alike", 0, 7) {
					case 6:
						tok.TokenType = fx.Pick(t, "type", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, tokenv1.TokenType_TOKEN_TYPE_ID_TOKEN, tokenv1.TokenType_TOKEN_TYPE_UNSPECIFIED, tokenv1.TokenType_TOKEN_TYPE_UNKNOWN, tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN)
					case 7:
						tok.Status = fx.Pick(t, "status", tokenv1.TokenStatus_TOKEN_STATUS_REVOKED, tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED, tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN, tokenv1.TokenStatus_TOKEN_STATUS_UNSPECIFIED)
					}
					if err := w.Tokens.Create(bg, at, proto.Clone(tok).(*tokenv1.Token)); err != nil {
						c.Fatalf("store: %v", err)
					}
					all = append(all, &entry{at, tok})
				},
				"exchange": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					e := all[len(all)-1-fx.Int(t, "which", 0, len(all)-1)]
					m := e.tok.Metadata
					now := uint64(time.Now().Unix())
					if now == m.ExpiresAt {
						return
					}
					at, as, value, typ := e.iss, fx.Pick(t, "as", owners...), e.tok.Value, oidc.TokenExchangeAccessTokenType
					var why []string
					if e.tok.TokenType != tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN {
						why = append(why, "type")
					}
					if e.tok.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
						why = append(why, "status")
					}
					if now > m.ExpiresAt {
						why = append(why, "expired")
					}
					var scope, aud *string
					granted := strings.Fields(m.Scope)
					scopeKind := fx.Int(t, "scopekind", 0, 4)
					if len(granted) == 0 {
						scopeKind = []int{0, 2, 5}[scopeKind%3]
					}
					switch scopeKind {
					case 1: // subset, any order, repeats
						var sub []string
						for i, n := 0, fx.Int(t, "nsub", 0, 4); i < n; i++ {
							sub = append(sub, fx.Pick(t, "word", granted...))
						}
						scope = fx.Ref(strings.Join(sub, " "))
					case 2:
						scope = fx.Ref(m.Scope)
					case 5: // any scope of a token without one
						scope = fx.Ref(fx.Pick(t, "any", "admin", "openid", "offline_access", "read write", " admin"))
					case 3: // one word more
						w := fx.Pick(t, "more", "admin", "openid", "offline_access", "read", granted[0]+"x", granted[0]+":all", strings.ToUpper(granted[0]), granted[0][:len(granted[0])-1]+"~")
						l := slices.Insert(slices.Clone(granted), fx.Int(t, "pos", 0, len(granted)), w)
						scope = fx.Ref(strings.Join(l, " "))
					}
					for _, w := range strings.Fields(scope2(scope)) {
						if !slices.Contains(granted, w) {
							why = append(why, "scope")
							break
						}
					}
					wantAud := ""
					switch fx.Int(t, "audkind", 0, 3) {
					case 1, 2:
						aud = fx.Ref(fx.Pick(t, "uri", uris...))
						wantAud = res[*aud]
					case 3:
						aud = fx.Ref(fx.Pick(t, "uri_w", "", fx.Mutate(t, "uri_m", fx.Pick(t, "uri", uris...))))
						if _, ok := res[*aud]; ok {
							wantAud = res[*aud]
						} else {
							why = append(why, "audience")
						}
					}
					switch fx.Int(t, "wrong", 0, 11) {
					case 7:
						as = "no-grant"
						why = append(why, "grant")
					case 8:
						at = fx.OtherIssuer(t, "oi", e.iss)
						why = append(why, "issuer")
					case 9:
						value = fx.Mutate(t, "value", value)
						why = append(why, "value")
					case 10:
						typ = fx.Pick(t, "typ", "urn:ietf:params:oauth:token-type:refresh_token", "urn:ietf:params:oauth:token-type:id_token", "urn:ietf:params:oauth:token-type:jwt", "access_token", "")
						why = append(why, "subject_token_type")
					case 11:
						value = ""
						why = append(why, "blank")
					}
					g := &flowv1.GrantTokenExchange{SubjectToken: value, SubjectTokenType: typ}
					if fx.Chance(t, "actor", 4) {
						g.ActorToken, g.ActorTokenType = fx.Ref("x"), fx.Ref(oidc.TokenExchangeAccessTokenType)
					}
					before, _ := w.Tokens.GetByValue(bg, e.iss, e.tok.Value)
					c.Step()
					out, err := w.Tok.Token(bg, &flowv1.TokenRequest{
						Issuer: at, Client: &clientv1.Client{ClientId: as, GrantTypes: fx.AllGrants}, GrantType: oidc.GrantTypeTokenExchange, Scope: scope, Audience: aud,
						TokenConfirmation: fx.Confirmation(t, "req_cnf"),
						Grant:             &flowv1.TokenRequest_TokenExchange{TokenExchange: g},
					})
					after, gerr := w.Tokens.GetByValue(bg, e.iss, e.tok.Value)
					if gerr != nil || !proto.Equal(before, after) {
						c.Fatalf("the subject token changed: %v\n -> %v (%v)", before, after, gerr)
					}
					if len(why) > 0 {
						fx.WantTokenRefusal(c, "exchange with wrong "+strings.Join(why, ","), out, err)
						if len(why) == 1 {
							c.Hit("refused for %s", why[0])
							c.NonTrivial("refused for %s scope=%q of %q", why[0], scope2(scope), m.Scope)
						}
						return
					}
					fx.WantTokens(c, "exchange", out, err, false)
					want := m.Scope
					if scope != nil {
						want = *scope
					}
					tok := out.AccessToken
					fx.WantToken(c, "exchanged token", tok, fx.Grant{Issuer: e.iss, Subject: m.Subject, Client: as, Audience: wantAud, Scope: tok.GetMetadata().GetScope(), Jkt: e.tok.Confirmation.GetJkt(), Type: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN})
					if out.Issuer != e.iss || out.GetIssuedTokenType() != oidc.TokenExchangeAccessTokenType {
						c.Fatalf("answered by %q with a token of type %q", out.Issuer, out.GetIssuedTokenType())
					}
					if got := words(tok.Metadata.Scope); out.Scope != nil && !slices.Equal(words(*out.Scope), got) || out.Scope == nil && !slices.Equal(words(m.Scope), got) {
						c.Fatalf("scope of the answer %v, of the token %q, of the subject token %q", out.Scope, tok.Metadata.Scope, m.Scope)
					}
					for _, w := range strings.Fields(tok.Metadata.Scope) {
						if !slices.Contains(granted, w) {
							c.Fatalf("scope amplified: %q of %q", tok.Metadata.Scope, m.Scope)
						}
						if !slices.Contains(strings.Fields(want), w) {
							c.Fatalf("scope %q exceeds the requested %q", tok.Metadata.Scope, want)
						}
					}
					if (tok.Confirmation != nil) != (e.tok.Confirmation != nil) {
						c.Fatalf("confirmation %v of %v", tok.Confirmation, e.tok.Confirmation)
					}
					if tok.Metadata.ExpiresAt > now+60 || tok.Metadata.ExpiresAt < now {
						c.Fatalf("exchanged token lives %d s", int64(tok.Metadata.ExpiresAt)-int64(now))
					}
					for _, o := range all {
						if o.tok.Value == tok.Value || o.tok.TokenId == tok.TokenId {
							c.Fatalf("exchanged token is not new")
						}
					}
					good++
					c.Hit("exchanged scope=%d aud=%v builtin=%v", scopeKind, aud != nil, builtin)
					c.NonTrivial("scope=%q of %q aud=%q", want, m.Scope, wantAud)
					all = append(all, &entry{e.iss, proto.Clone(tok).(*tokenv1.Token)})
				},
				"advance": func(t *rapid.T) {
					time.Sleep(time.Duration(fx.Pick(t, "s", 1, 10, 45, 62, 3000)) * time.Second)
				},
			})
		})
	})
}

func words(s string) []string {
	l := strings.Fields(s)
	slices.Sort(l)
	return slices.Compact(l)
}

func scope2(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}
