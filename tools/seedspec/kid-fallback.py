ID="kid-fallback"; PROP="C17"
NEEDS="a token which names a key id absent from the key set, signed by another key of the set"
BREAKS="A token which names an unknown key id is verified with every key of the set."
EDITS=[("sdk/token/jwt/verifier.go","""		keys = jwks.Key(kid)
""","""		if found := jwks.Key(kid); len(found) > 0 {
			keys = found
		}
""")]
PKG="sdk/token/jwt"
DEMO='''
package jwt

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"
)

func TestDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	old := jose.JSONWebKey{Key: k, KeyID: "retired", Algorithm: "ES256", Use: "sig"}
	pub := old.Public()
	pub.KeyID = "current"
	raw, err := AccessTokenSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return &old, nil }).Serialize(context.Background(), map[string]any{"sub": "alice"})
	if err != nil {
		t.Fatal(err)
	}
	var claims map[string]any
	if DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, nil
	}, []jose.SignatureAlgorithm{jose.ES256}).Claims(context.Background(), raw, &claims) == nil {
		t.Fatal("token accepted under a key it does not name")
	}
}
'''
