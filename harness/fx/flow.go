package fx

import (
	"context"
	"hash/fnv"
	"slices"
	"strings"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

// RecordedScope is the scope an accepted authorization request is recorded with.
func RecordedScope(r *flowv1.AuthorizationRequest) []string {
	words := strings.Fields(r.Scope)
	if !slices.Contains(words, oidc.ScopeOpenID) || (r.Prompt != nil && *r.Prompt == oidc.PromptConsent) {
		return words
	}
	out := []string{}
	for _, w := range words {
		if w != oidc.ScopeOfflineAccess {
			out = append(out, w)
		}
	}
	return out
}

// Claimed is the client object of a request of a client: the id decides, all the
// rest of it may be anything (what a value is presented with depends on the value).
func (w *World) Claimed(client, value string) *clientv1.Client {
	h := fnv.New32a()
	_, _ = h.Write([]byte(client + "\x00" + value))
	n := h.Sum32()
	c := &clientv1.Client{ClientId: client}
	if n%3 == 0 {
		return c
	}
	ids := w.Clients.IDs()
	other := "nobody"
	if len(ids) > 0 {
		other = ids[int(n>>8)%len(ids)]
	}
	if n%3 == 1 {
		c = FullClient(other)
		c.ClientId, c.ClientName = client, other
		c.SubjectType, c.SectorIdentifier = "public", other
		return c
	}
	c.ClientName, c.ClientType = other, clientv1.ClientType_CLIENT_TYPE_PUBLIC
	c.ApplicationType, c.Contacts = other, []string{other}
	c.ClientSecret = []byte(other)
	return c
}

// Redeem presents an authorization code.
func (w *World) Redeem(iss, client, code, redirect, verifier string, cnf *tokenv1.TokenConfirmation) (*flowv1.TokenResponse, error) {
	return w.Tok.Token(context.Background(), &flowv1.TokenRequest{
		Issuer: iss, Client: w.Claimed(client, code), GrantType: oidc.GrantTypeAuthorizationCode, TokenConfirmation: cnf,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: redirect, CodeVerifier: verifier}},
	})
}

// Refresh presents a refresh token.
func (w *World) Refresh(iss, client, value string) (*flowv1.TokenResponse, error) {
	return w.Tok.Token(context.Background(), &flowv1.TokenRequest{
		Issuer: iss, Client: w.Claimed(client, value), GrantType: oidc.GrantTypeRefreshToken,
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: value}},
	})
}

// Exchange presents a subject token.
func (w *World) Exchange(iss, client, value string, scope, audience *string) (*flowv1.TokenResponse, error) {
	return w.Tok.Token(context.Background(), &flowv1.TokenRequest{
		Issuer: iss, Client: w.Claimed(client, value), GrantType: oidc.GrantTypeTokenExchange, Scope: scope, Audience: audience,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: value, SubjectTokenType: oidc.TokenExchangeAccessTokenType}},
	})
}

// Poll presents a device code.
func (w *World) Poll(iss, client, value string) (*flowv1.TokenResponse, error) {
	return w.Tok.Token(context.Background(), &flowv1.TokenRequest{
		Issuer: iss, Client: w.Claimed(client, value), GrantType: oidc.GrantTypeDeviceCode,
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: value, ClientId: client}},
	})
}

// Introspect asks for the state of a token.
func (w *World) Introspect(iss, client, value string) (*tokenv1.IntrospectResponse, error) {
	return w.Tok.Introspect(context.Background(), &tokenv1.IntrospectRequest{Issuer: iss, Client: w.Claimed(client, value), Token: value})
}

// Revoke revokes a token.
func (w *World) Revoke(iss, client, value string) (*tokenv1.RevokeResponse, error) {
	return w.Tok.Revoke(context.Background(), &tokenv1.RevokeRequest{Issuer: iss, Client: w.Claimed(client, value), Token: value})
}

// WantNoTokens fails when a token response carries a credential.
func WantNoTokens(t TB, what string, res *flowv1.TokenResponse) {
	if res == nil {
		t.Fatalf("%s: no response object", what)
	}
	if res.AccessToken != nil || res.RefreshToken != nil || res.IdToken != nil {
		t.Fatalf("%s: refusal carries a token: %v", what, res)
	}
}

// WantTokenRefusal checks a refused token request.
func WantTokenRefusal(t TB, what string, res *flowv1.TokenResponse, err error) {
	WantNoTokens(t, what, res)
	WantRefusal(t, what, err, res.Error)
}

// WantTokens checks a successful token request.
func WantTokens(t TB, what string, res *flowv1.TokenResponse, err error, refresh bool) {
	if res == nil {
		t.Fatalf("%s: no response object", what)
	}
	WantOK(t, what, err, res.Error)
	if res.AccessToken == nil || res.AccessToken.Value == "" || res.AccessToken.TokenId == "" || res.AccessToken.Metadata == nil {
		t.Fatalf("%s: incomplete access token: %v", what, res.AccessToken)
	}
	if (res.RefreshToken != nil) != refresh {
		t.Fatalf("%s: refresh token present=%v, expected %v", what, res.RefreshToken != nil, refresh)
	}
	if refresh && (res.RefreshToken.Value == "" || res.RefreshToken.TokenId == "" || res.RefreshToken.Metadata == nil) {
		t.Fatalf("%s: incomplete refresh token: %v", what, res.RefreshToken)
	}
}

// Grant is what a token is expected to say.
type Grant struct {
	Issuer, Subject, Client, Audience, Scope string
	Jkt                                      string // empty: no confirmation
	Type                                     tokenv1.TokenType
	Issued, Lifetime                         uint64 // unix seconds; Lifetime 0: not checked
}

// WantToken compares a token with a grant.
func WantToken(t TB, what string, tok *tokenv1.Token, g Grant) {
	m := tok.GetMetadata()
	if m == nil {
		t.Fatalf("%s: no metadata in %v", what, tok)
	}
	bad := func(f string, got, want any) {
		t.Fatalf("%s: %s is %v, expected %v (token %v)", what, f, got, want, tok)
	}
	if m.Issuer != g.Issuer {
		bad("issuer", m.Issuer, g.Issuer)
	}
	if m.Subject != g.Subject {
		bad("subject", m.Subject, g.Subject)
	}
	if m.ClientId != g.Client {
		bad("client", m.ClientId, g.Client)
	}
	if m.Audience != g.Audience {
		bad("audience", m.Audience, g.Audience)
	}
	if m.Scope != g.Scope {
		bad("scope", m.Scope, g.Scope)
	}
	if tok.Confirmation.GetJkt() != g.Jkt {
		bad("confirmation", tok.Confirmation, g.Jkt)
	}
	if tok.TokenType != g.Type {
		bad("type", tok.TokenType, g.Type)
	}
	if tok.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
		bad("status", tok.Status, "active")
	}
	if g.Lifetime > 0 {
		if m.IssuedAt != g.Issued {
			bad("issue time", m.IssuedAt, g.Issued)
		}
		if m.ExpiresAt != g.Issued+g.Lifetime {
			bad("expiry", m.ExpiresAt, g.Issued+g.Lifetime)
		}
		if m.NotBefore < m.IssuedAt || m.NotBefore > m.ExpiresAt {
			bad("not-before", m.NotBefore, "within the lifetime")
		}
	}
}
