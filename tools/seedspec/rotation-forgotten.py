exec(open("/verif/tools/seedspec/common.inc").read())
ID="rotation-forgotten"; PROP="C27"
NEEDS="a rotation during which the token storage reports the old refresh token as not found when it is to be revoked"
BREAKS="The new tokens are handed out although the old refresh token could not be revoked and stays usable."
EDITS=[("server/services/token/grant_refresh_token.go","		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil {","		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil && err != storage.ErrNotFound {")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
type forgetful struct{ storage.Token }

func (forgetful) Revoke(context.Context, string, string) error { return storage.ErrNotFound }

func TestDemo(t *testing.T) {
	stored(t, "1", "old", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, time.Minute, nil)
	s := New(sdktoken.OpaqueToken(), sdktoken.OpaqueToken(), clients, inmemory.AuthorizationRequests(), codes, devices, forgetful{tokens}, inmemory.Resources())
	res, err := s.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeRefreshToken,
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: "old"}}})
	if err == nil {
		t.Fatalf("rotated although the old token was not revoked: %v", res)
	}
}
'''
