# Shared pieces of the demonstration programs (exec'd by the specs).
TOKEN_HEAD = '''
package token

import (
	"context"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/pkce"
	sdktoken "zntr.io/solid/sdk/token"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

const (
	iss = "https://as.example"
	app = "6779ef20e75817b79602"
	cb  = "http://127.0.0.1:8085/oidc/as/127.0.0.1"
)

var (
	ctx     = context.Background()
	tokens  = inmemory.Tokens()
	codes   = inmemory.AuthorizationCodeSessions()
	devices = inmemory.DeviceCodeSessions()
	_       = pkce.CodeVerifier
	_       = oidc.GrantTypeRefreshToken
	_       = time.Now
	_       = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
	_       = tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
	_       storage.Token
	clients = inmemory.Clients()
)

func svc() services.Token {
	return New(sdktoken.OpaqueToken(), sdktoken.OpaqueToken(), clients, inmemory.AuthorizationRequests(), codes, devices, tokens, inmemory.Resources())
}

func stored(t *testing.T, id, value string, kind tokenv1.TokenType, life time.Duration, edit func(*tokenv1.Token)) {
	now := time.Now()
	tok := &tokenv1.Token{TokenId: id, Value: value, TokenType: kind, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
		Metadata: &tokenv1.TokenMeta{Issuer: iss, Subject: "alice", ClientId: app, Scope: "openid offline_access", Audience: "api",
			IssuedAt: uint64(now.Unix()) - 10, NotBefore: uint64(now.Unix()) - 9, ExpiresAt: uint64(now.Add(life).Unix())}}
	if edit != nil {
		edit(tok)
	}
	if err := tokens.Create(ctx, iss, tok); err != nil {
		t.Fatal(err)
	}
}

func refresh(v string) (*flowv1.TokenResponse, error) {
	return svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeRefreshToken,
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: v}}})
}

func redeem(client, code, redirect, verifier string) (*flowv1.TokenResponse, error) {
	return svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: client}, GrantType: oidc.GrantTypeAuthorizationCode,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: redirect, CodeVerifier: verifier}}})
}
'''.replace("	_       storage.Token\n", "	_       = storage.ErrNotFound\n")
