ID="generator-lifetime"; PROP="C19"
NEEDS="an access token which lives longer than two hours from its issue time, but less than two hours from now"
BREAKS="The two-hour limit is counted from now instead of the issue time, so a token issued in the past may live longer."
EDITS=[("sdk/token/access_token.go","maxExpiration := uint64(time.Unix(int64(meta.IssuedAt), 0).Add(2 * time.Hour).Unix())","maxExpiration := uint64(time.Now().Add(2 * time.Hour).Unix())")]
PKG="sdk/token"
DEMO='''
package token

import (
	"testing"
	"time"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func TestDemo(t *testing.T) {
	now := uint64(time.Now().Unix())
	g := &accessTokenGenerator{}
	m := &tokenv1.TokenMeta{Issuer: "https://as.example", Subject: "a", Audience: "b", ClientId: "c", Scope: "s", IssuedAt: now - 3600, NotBefore: now - 3600, ExpiresAt: now + 3600 + 1800}
	if g.validateMeta(m) == nil {
		t.Fatal("token which lives for two hours and a half accepted")
	}
}
'''
