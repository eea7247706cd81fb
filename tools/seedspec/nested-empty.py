exec(open("/verif/tools/seedspec/common.inc").read())
ID="nested-empty"; PROP="C02"
NEEDS="a pushed request with a request_uri parameter that is present and empty"
BREAKS="A pushed request with an (empty) nested request_uri is accepted."
EDITS=[("server/services/authorization/service.go","""	// Check nested request
	if req.Request.RequestUri != nil {""","""	// Check nested request
	if req.Request.GetRequestUri() != "" {""")]
PKG="server/services/authorization"
DEMO='''
package authorization

import (
	"context"
	"strings"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	reqs := inmemory.AuthorizationRequests()
	s := New(inmemory.Clients(), reqs, inmemory.AuthorizationCodeSessions(), generator.DefaultAuthorizationCode(), generator.DefaultRequestURI())
	app := "6779ef20e75817b79602"
	req := func() *flowv1.RegistrationRequest {
		return &flowv1.RegistrationRequest{Issuer: "https://as.example", Client: &clientv1.Client{ClientId: app}, Request: &flowv1.AuthorizationRequest{
			Audience: "api", ClientId: app, CodeChallenge: strings.Repeat("a", 43), CodeChallengeMethod: "S256", Nonce: strings.Repeat("n", 32),
			Prompt: types.StringRef("consent"), RedirectUri: "http://127.0.0.1:8085/oidc/as/127.0.0.1", ResponseType: "code", Scope: "openid", State: strings.Repeat("s", 32)}}
	}
	if _, err := s.Register(context.Background(), req()); err != nil {
		t.Fatal(err)
	}
	r := req()
	r.Request.RequestUri = types.StringRef("")
	if res, err := s.Register(context.Background(), r); err == nil {
		t.Fatalf("nested request accepted: %v", res)
	}
}
'''
