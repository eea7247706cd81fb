exec(open("/verif/tools/seedspec/common.inc").read())
ID="revoke-id-token"; PROP="C09"
NEEDS="a stored token which is neither an access nor a refresh token (a phantom token, say), revoked by its client"
BREAKS="Revocation reports success for identity and phantom tokens without revoking them."
EDITS=[("server/services/token/revoke.go","	// Update token status\n	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {","	// Update token status\n	if !revocable(t) {\n		return res, nil\n	} else if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {"),
("server/services/token/revoke.go","	// No error\n	return res, nil\n}","	// No error\n	return res, nil\n}\n\nfunc revocable(t *tokenv1.Token) bool {\n	switch t.TokenType {\n	case tokenv1.TokenType_TOKEN_TYPE_ID_TOKEN, tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN:\n		return false\n	}\n	return true\n}")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	for i, k := range []tokenv1.TokenType{tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, tokenv1.TokenType_TOKEN_TYPE_ID_TOKEN, tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN} {
		v := string(rune('a' + i))
		stored(t, v, "value-"+v, k, time.Hour, nil)
		cl := &clientv1.Client{ClientId: app}
		if _, err := svc().Revoke(ctx, &tokenv1.RevokeRequest{Issuer: iss, Client: cl, Token: "value-" + v}); err != nil {
			t.Fatal(err)
		}
		res, err := svc().Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: iss, Client: cl, Token: "value-" + v})
		if err != nil {
			t.Fatal(err)
		}
		if res.Token.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
			t.Errorf("%v is active after its revocation", k)
		}
	}
}
'''
