exec(open("/verif/tools/seedspec/common.inc").read())
ID="refresh-unbound"; PROP="C04"
NEEDS="a code with openid and offline_access redeemed with a key confirmation"
BREAKS="The refresh token of a bound grant is a bearer token."
EDITS=[("server/services/token/generator.go","""			ExpiresAt: uint64(now.AddDate(0, 0, 7).Unix()),
			Scope:     meta.Scope,
			Audience:  meta.Audience,
		},
		Confirmation: cnf,
		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
""","""			ExpiresAt: uint64(now.AddDate(0, 0, 7).Unix()),
			Scope:     meta.Scope,
			Audience:  meta.Audience,
		},
		Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,
""")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	v, ch, err := pkce.CodeVerifier()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := codes.Register(ctx, iss, "code", &sessionv1.AuthorizationCodeSession{Issuer: iss, Subject: "alice", Request: &flowv1.AuthorizationRequest{
		ClientId: app, RedirectUri: cb, Scope: "openid offline_access", Audience: "api", CodeChallenge: ch, CodeChallengeMethod: "S256"}}); err != nil {
		t.Fatal(err)
	}
	res, err := svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeAuthorizationCode,
		TokenConfirmation: &tokenv1.TokenConfirmation{Jkt: "thumb"},
		Grant:             &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: "code", RedirectUri: cb, CodeVerifier: v}}})
	if err != nil {
		t.Fatal(err)
	}
	if res.GetRefreshToken().GetConfirmation().GetJkt() != "thumb" {
		t.Fatalf("refresh token not bound: %v", res.RefreshToken)
	}
}
'''
