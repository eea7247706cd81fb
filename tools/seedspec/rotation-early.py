exec(open("/verif/tools/seedspec/common.inc").read())
ID="rotation-early"; PROP="C06"
NEEDS="a refresh token whose expiration is at or shortly after the new access token's"
BREAKS="A refresh token is revoked and replaced although the new access token does not outlive it (whole minutes are compared)."
EDITS=[("server/services/token/grant_refresh_token.go","if at.Metadata.ExpiresAt > rt.Metadata.ExpiresAt {","if at.Metadata.ExpiresAt/60 >= rt.Metadata.ExpiresAt/60 {")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	fixed := time.Unix(1700000040, 0)
	old := timeFunc
	timeFunc = func() time.Time { return fixed }
	defer func() { timeFunc = old }()
	stored(t, "1", "old", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, time.Minute, func(tok *tokenv1.Token) { tok.Metadata.ExpiresAt = uint64(fixed.Unix()) + 3600 + 5 })
	res, err := refresh("old")
	if err != nil {
		t.Fatal(err)
	}
	if res.RefreshToken != nil {
		t.Fatal("rotated although the access token does not outlive the refresh token")
	}
}
'''
