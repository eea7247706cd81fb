ID="verified-signature"; PROP="C20"
NEEDS="one verifier which first sees a genuine token and then a token with another id and that token's signature"
BREAKS="The verifier remembers signatures it found good and does not check what they sign again."
EDITS=[("sdk/token/verifiable/uuid.go","	source     UUIDGeneratorFunc\n}","	source     UUIDGeneratorFunc\n	verified   sync.Map\n}"),
("sdk/token/verifiable/uuid.go","	// Compare signature\n	if subtle.ConstantTimeCompare(sig[12:], hm.Sum(nil)) != 1 {\n		return nil, ErrTokenNotAuthenticated\n	}\n","	// Compare signature\n	if _, known := vu.verified.Load(parts[1]); !known && subtle.ConstantTimeCompare(sig[12:], hm.Sum(nil)) != 1 {\n		return nil, ErrTokenNotAuthenticated\n	}\n	vu.verified.Store(parts[1], true)\n"),
("sdk/token/verifiable/uuid.go","	\"strings\"\n","	\"strings\"\n	\"sync\"\n")]
PKG="sdk/token/verifiable"
DEMO='''
package verifiable

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	key := []byte("0123456789abcdef0123456789abcdef")
	a, err := UUIDGenerator(StaticUUIDSource([16]byte{1}), key).Generate()
	if err != nil {
		t.Fatal(err)
	}
	b, err := UUIDGenerator(StaticUUIDSource([16]byte{2}), key).Generate()
	if err != nil {
		t.Fatal(err)
	}
	v := UUIDVerifier(key)
	if err := v.Verify(a); err != nil {
		t.Fatal(err)
	}
	if err := v.Verify(strings.Split(b, "_")[0] + "_" + strings.Split(a, "_")[1]); err == nil {
		t.Fatal("another id verifies with the signature of a genuine token")
	}
}
'''
