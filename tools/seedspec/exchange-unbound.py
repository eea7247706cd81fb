exec(open("/verif/tools/seedspec/common.inc").read())
ID="exchange-unbound"; PROP="C08"
NEEDS="a key-bound subject token exchanged by a request which presents no key confirmation (or another one)"
BREAKS="The exchanged token takes the confirmation of the request instead of the subject token's: exchanging a key-bound token yields a plain bearer token."
EDITS=[("server/services/token/grant_token_exchange.go","Confirmation: st.Confirmation,","Confirmation: req.TokenConfirmation,")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	stored(t, "1", "subject", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, time.Hour, func(tok *tokenv1.Token) { tok.Confirmation = &tokenv1.TokenConfirmation{Jkt: "key"} })
	res, err := svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeTokenExchange,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "subject", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
	if err != nil {
		t.Fatal(err)
	}
	if res.AccessToken.GetConfirmation().GetJkt() != "key" {
		t.Fatal("the exchanged token is not bound to the key of the subject token")
	}
}
'''
