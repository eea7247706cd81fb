exec(open("/verif/tools/seedspec/common.inc").read())
ID="exchange-nil-meta"; PROP="C26"
NEEDS="a stored access token without metadata presented for exchange"
BREAKS="The exchange of a token stored without metadata crashes."
EDITS=[("server/services/token/grant_token_exchange.go","""	if st.Metadata == nil {
		res.Error = rfcerrors.ServerError().Build()
		return fmt.Errorf("token doesn't have metadata")
	}

	// If expired
""","""
	// If expired
""")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	stored(t, "1", "subject", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, time.Hour, func(tok *tokenv1.Token) { tok.Metadata = nil })
	res, err := svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeTokenExchange,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "subject", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
	if err == nil || res.Error == nil {
		t.Fatal("no error")
	}
}
'''
