ID="htu-slash"; PROP="C13"
NEEDS="a proof made for a URL which differs from the request URL in one trailing slash"
BREAKS="DPoP verification ignores a trailing slash in the URL, so a proof made for one resource is accepted for another."
EDITS=[("sdk/dpop/verifier.go","if claims.HTTPURL != htu {","if strings.TrimSuffix(claims.HTTPURL, \"/\") != strings.TrimSuffix(htu, \"/\") {")]
PKG="sdk/dpop"
DEMO='''
package dpop

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	v := &defaultVerifier{}
	c := &proofClaims{JTI: "1", HTTPMethod: "GET", HTTPURL: "https://rs.example/files/", IssuedAt: uint64(time.Now().Unix())}
	if _, err := v.validateProofClaims("GET", "https://rs.example/files", c); err == nil {
		t.Fatal("proof accepted for another URL")
	}
}
'''
