ID="nonce-runes"; PROP="C01"
NEEDS="a nonce of fewer than 8 characters"
EDITS=[("server/services/authorization/service.go","	if len(req.CodeChallenge) != desiredMinCodeChallengeValueLength {","	if len(strings.TrimRight(req.CodeChallenge, \"=\")) != desiredMinCodeChallengeValueLength {")]
ID="challenge-padding"
NEEDS="a code challenge of 43 bytes followed by padding"
BREAKS="Padded code challenges are accepted (and recorded as sent), although only 43-byte challenges are allowed and the code can never be redeemed."
PKG="server/services/authorization"
DEMO='''
package authorization

import (
	"context"
	"testing"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	s := New(inmemory.Clients(), inmemory.AuthorizationRequests(), inmemory.AuthorizationCodeSessions(), generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
	req := func(ch string) error {
		_, err := s.Authorize(context.Background(), &flowv1.AuthorizeRequest{Issuer: "https://as.example", Subject: "alice", Request: &flowv1.AuthorizationRequest{
			ClientId: "6779ef20e75817b79602", RedirectUri: "http://127.0.0.1:8085/oidc/as/127.0.0.1", ResponseType: "code", Scope: "openid", Audience: "api",
			State: "0123456789012345678901234567890123456789", Nonce: "0123456789", CodeChallengeMethod: "S256", CodeChallenge: ch}})
		return err
	}
	ch := "K2-ltc83acc4h0c9w6ESC_rEMTJ3bww-uCHaoeK1t8U"
	if err := req(ch); err != nil {
		t.Fatal(err)
	}
	if req(ch+"=") == nil {
		t.Fatal("padded challenge accepted")
	}
}
'''
