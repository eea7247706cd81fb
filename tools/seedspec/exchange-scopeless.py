exec(open("/verif/tools/seedspec/common.inc").read())
ID="exchange-scopeless"; PROP="C08"
NEEDS="a subject token without any scope exchanged with a requested scope"
BREAKS="A token which grants nothing is exchanged for one with whatever scope is asked for."
EDITS=[("server/services/token/grant_token_exchange.go","		scope = *req.Scope\n","		if scope = *req.Scope; st.Metadata.Scope == \"\" {\n			st.Metadata.Scope = scope\n		}\n")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	stored(t, "1", "subject", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, time.Hour, func(tok *tokenv1.Token) { tok.Metadata.Scope = "" })
	scope := "admin"
	res, err := svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeTokenExchange, Scope: &scope,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "subject", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
	if err == nil && res.AccessToken.GetMetadata().GetScope() != "" {
		t.Fatalf("scope %q from a token without scope", res.AccessToken.Metadata.Scope)
	}
}
'''
