ID="dpop-shared-claims"; PROP="C40"
NEEDS="two proofs of different keys verified at the same time by one verifier"
BREAKS="The verifier keeps the confirmation of the proof in itself: a token can be bound to the key of another client."
EDITS=[("sdk/dpop/verifier.go","""	thumb, err := token.PublicKeyThumbPrint()
	if err != nil {""","""	v.thumb, err = token.PublicKeyThumbPrint()
	if err != nil {"""),
("sdk/dpop/verifier.go","""types.SecureCompareString(thumb, *dopts.tokenConfirmation)""","""types.SecureCompareString(v.thumb, *dopts.tokenConfirmation)"""),
("sdk/dpop/verifier.go","	return thumb, nil","	return v.thumb, nil"),
("sdk/dpop/verifier.go","""	verifier token.Verifier
}

// Verify""","""	verifier token.Verifier
	thumb    string
}

// Verify""")]
PKG="sdk/dpop"; FLAGS="-race "
DEMO='''
package dpop

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/base64"
	"crypto"
	"sync"
	"testing"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	v := DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256}))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			t.Fatal(err)
		}
		key := jose.JSONWebKey{Key: k, KeyID: "k", Algorithm: "ES256", Use: "sig"}
		th, err := key.Thumbprint(crypto.SHA256)
		if err != nil {
			t.Fatal(err)
		}
		want := base64.RawURLEncoding.EncodeToString(th)
		p := DefaultProver(jwt.DPoPSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return &key, nil }))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				proof, err := p.Prove("POST", "https://as.example/token")
				if err != nil {
					t.Error(err)
					return
				}
				got, err := v.Verify(context.Background(), "POST", "https://as.example/token", proof)
				if err != nil || got != want {
					t.Errorf("%q %v, expected %q", got, err, want)
				}
			}
		}()
	}
	wg.Wait()
}
'''
