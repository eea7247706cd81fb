ID="rotation-unbound"; PROP="C06"
NEEDS="a key-bound refresh token used in its last hour, so that it is rotated, and then the rotated token used again"
BREAKS="The rotated refresh token loses the key confirmation of the grant, so the tokens it yields are plain bearer tokens."
EDITS=[("server/services/token/grant_refresh_token.go","newRt, err := s.generateRefreshToken(ctx, client, rt.Metadata, at.Confirmation)","newRt, err := s.generateRefreshToken(ctx, client, rt.Metadata, req.TokenConfirmation)")]
PKG="server/services/token"
DEMO='''
package token

import (
	"context"
	"testing"
	"time"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/oidc"
	sdktoken "zntr.io/solid/sdk/token"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	ctx, iss, id := context.Background(), "https://as.example", "6779ef20e75817b79602"
	tokens := inmemory.Tokens()
	s := New(sdktoken.OpaqueToken(), sdktoken.OpaqueToken(), inmemory.Clients(), inmemory.AuthorizationRequests(), inmemory.AuthorizationCodeSessions(), inmemory.DeviceCodeSessions(), tokens, inmemory.Resources())
	now := uint64(time.Now().Unix())
	err := tokens.Create(ctx, iss, &tokenv1.Token{TokenId: "1", Value: "old", TokenType: tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
		Confirmation: &tokenv1.TokenConfirmation{Jkt: "key"},
		Metadata:     &tokenv1.TokenMeta{Issuer: iss, Subject: "alice", ClientId: id, Scope: "openid offline_access", Audience: "api", IssuedAt: now - 1000, NotBefore: now - 999, ExpiresAt: now + 60}})
	if err != nil {
		t.Fatal(err)
	}
	refresh := func(v string) *flowv1.TokenResponse {
		res, err := s.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: id}, GrantType: oidc.GrantTypeRefreshToken,
			Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: v}}})
		if err != nil {
			t.Fatal(err)
		}
		return res
	}
	first := refresh("old")
	if first.RefreshToken == nil {
		t.Fatal("not rotated")
	}
	if second := refresh(first.RefreshToken.Value); second.AccessToken.GetConfirmation().GetJkt() != "key" {
		t.Fatalf("token is not bound any more: %v", second.AccessToken)
	}
}
'''
