ID="challenge-case"; PROP="C03"
NEEDS="a code challenge which differs from the hash of the presented verifier in letter case only"
BREAKS="The PKCE comparison at the token endpoint ignores letter case, so a verifier which does not hash to the challenge is accepted."
EDITS=[("server/services/token/grant_authorization_code.go","if computedVerifier != ar.Request.CodeChallenge {","if !strings.EqualFold(computedVerifier, ar.Request.CodeChallenge) {")]
PKG="server/services/token"
DEMO='''
package token

import (
	"context"
	"strings"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/sdk/pkce"
	sdktoken "zntr.io/solid/sdk/token"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	ctx, iss, id, cb := context.Background(), "https://as.example", "6779ef20e75817b79602", "http://127.0.0.1:8085/oidc/as/127.0.0.1"
	codes := inmemory.AuthorizationCodeSessions()
	s := New(sdktoken.OpaqueToken(), sdktoken.OpaqueToken(), inmemory.Clients(), inmemory.AuthorizationRequests(), codes, inmemory.DeviceCodeSessions(), inmemory.Tokens(), inmemory.Resources())
	v, ch, err := pkce.CodeVerifier()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := codes.Register(ctx, iss, "code", &sessionv1.AuthorizationCodeSession{Issuer: iss, Subject: "alice", Request: &flowv1.AuthorizationRequest{
		ClientId: id, RedirectUri: cb, Scope: "openid", Audience: "api", CodeChallenge: strings.ToUpper(ch), CodeChallengeMethod: "S256"}}); err != nil {
		t.Fatal(err)
	}
	res, err := s.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: id}, GrantType: oidc.GrantTypeAuthorizationCode,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: "code", RedirectUri: cb, CodeVerifier: v}}})
	if err == nil {
		t.Fatalf("verifier accepted for another challenge: %v", res)
	}
}
'''
