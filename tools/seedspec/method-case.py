ID="method-case"; PROP="C13"
NEEDS="a proof whose method is the request's in another letter case"
BREAKS="DPoP verification compares methods without case."
EDITS=[("sdk/dpop/verifier.go","if claims.HTTPMethod != htm {","if !strings.EqualFold(claims.HTTPMethod, htm) {")]
PKG="sdk/dpop"
DEMO='''
package dpop

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	v := &defaultVerifier{}
	c := &proofClaims{JTI: "1", HTTPMethod: "post", HTTPURL: "https://rs.example/", IssuedAt: uint64(time.Now().Unix())}
	if _, err := v.validateProofClaims("POST", "https://rs.example/", c); err == nil {
		t.Fatal("proof accepted for another method")
	}
}
'''
