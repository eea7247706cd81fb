exec(open("/verif/tools/seedspec/common.inc").read())
ID="exchange-empty-value"; PROP="C27"
NEEDS="a token generator which yields an empty value during a token exchange"
BREAKS="A token exchange returns, and stores, a token whose value is empty."
EDITS=[("server/services/token/grant_token_exchange.go","""	// Check generator value
	if at.Value == "" {
		res.Error = rfcerrors.ServerError().Build()
		return fmt.Errorf("accessTokenGenerator generated an empty value")
	}

""","")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
type blank struct{}

func (blank) Generate(context.Context, *tokenv1.Token) (string, error) { return "", nil }

func TestDemo(t *testing.T) {
	stored(t, "1", "subject", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, time.Hour, nil)
	s := New(blank{}, blank{}, clients, inmemory.AuthorizationRequests(), codes, devices, tokens, inmemory.Resources())
	res, err := s.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeTokenExchange,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "subject", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
	if err == nil {
		t.Fatalf("token issued: %v", res)
	}
}
'''
