ID="hmac-truncated"; PROP="C20"
NEEDS="a token whose last signature bytes were altered"
BREAKS="Only half of the signature is compared: the rest of a token can be altered."
EDITS=[("sdk/token/verifiable/uuid.go","subtle.ConstantTimeCompare(sig[12:], hm.Sum(nil)) != 1","subtle.ConstantTimeCompare(sig[12:28], hm.Sum(nil)[:16]) != 1")]
PKG="sdk/token/verifiable"
DEMO='''
package verifiable

import "testing"

func TestDemo(t *testing.T) {
	g := UUIDGenerator(UUIDv4Source(), []byte("secret"))
	tok, err := g.Generate()
	if err != nil {
		t.Fatal(err)
	}
	v := UUIDVerifier([]byte("secret"))
	if v.Verify(tok) != nil {
		t.Fatal("token refused")
	}
	last := "a"
	if tok[len(tok)-1] == 'a' {
		last = "b"
	}
	if v.Verify(tok[:len(tok)-1]+last) == nil {
		t.Fatal("altered token accepted")
	}
}
'''
