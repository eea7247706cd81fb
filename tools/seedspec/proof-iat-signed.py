ID="proof-iat-signed"; PROP="C14"
NEEDS="a proof whose iat exceeds the largest signed 64-bit integer, presented twice with more than the proof cache's lifetime between"
BREAKS="The future check is done on signed seconds, so such an iat is negative there and the proof is good for ever and, when the cache has forgotten it, again."
EDITS=[("sdk/dpop/verifier.go","	if uint64(time.Now().Add(ExpirationTreshold).Unix()) < claims.IssuedAt {","	if time.Now().Add(ExpirationTreshold).Unix() < int64(claims.IssuedAt) {")]
PKG="sdk/dpop"
DEMO='''
package dpop

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"math"
	"testing"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	key := jose.JSONWebKey{Key: k, KeyID: "k", Algorithm: "ES256", Use: "sig"}
	tok, err := jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return &key, nil }).Serialize(context.Background(),
		map[string]any{"jti": "j", "htm": "GET", "htu": "https://a/", "iat": uint64(math.MaxUint64) - 5})
	if err != nil {
		t.Fatal(err)
	}
	v := DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
	if _, err := v.Verify(context.Background(), "GET", "https://a/", tok); err == nil {
		t.Fatal("proof of the remote future accepted")
	}
}
'''
