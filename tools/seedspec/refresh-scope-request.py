exec(open("/verif/tools/seedspec/common.inc").read())
ID="refresh-scope-request"; PROP="C34"
NEEDS="a refresh request with a scope parameter that names more than the grant did"
BREAKS="A refresh with a scope parameter yields a token with any scope the client asks for."
EDITS=[("server/services/token/grant_refresh_token.go","""	at, err := s.generateAccessToken(ctx, client, rt.Metadata, rt.Confirmation)""","""	meta := rt.Metadata
	if req.GetScope() != "" {
		meta.Scope = req.GetScope()
	}
	at, err := s.generateAccessToken(ctx, client, meta, rt.Confirmation)""")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	stored(t, "id", "value", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, 72*time.Hour, nil)
	scope := "openid admin"
	res, err := svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeRefreshToken, Scope: &scope,
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: "value"}}})
	if err != nil {
		return
	}
	if res.AccessToken.Metadata.Scope != "openid offline_access" {
		t.Fatalf("scope extended to %q", res.AccessToken.Metadata.Scope)
	}
}
'''
