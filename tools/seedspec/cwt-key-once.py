ID="cwt-key-once"; PROP="C18"
NEEDS="one signer used before and after its key provider rotates the key"
BREAKS="The signer keeps the first key it was given: after a rotation tokens are signed with the retired key."
EDITS=[("sdk/token/cwt/signer.go","	keyProvider jwk.KeyProviderFunc\n}","	keyProvider jwk.KeyProviderFunc\n	key         *jose.JSONWebKey\n}"),
("sdk/token/cwt/signer.go","	key, err := ds.keyProvider(ctx)\n	if err != nil {\n		return \"\", fmt.Errorf(\"unable to retrieve a signing key: %w\", err)\n	}\n","	key := ds.key\n	if key == nil {\n		var err error\n		if key, err = ds.keyProvider(ctx); err != nil {\n			return \"\", fmt.Errorf(\"unable to retrieve a signing key: %w\", err)\n		}\n		ds.key = key\n	}\n"),
("sdk/token/cwt/signer.go","	cbor \"github.com/fxamacker/cbor/v2\"\n","	cbor \"github.com/fxamacker/cbor/v2\"\n	\"github.com/go-jose/go-jose/v4\"\n")]
PKG="sdk/token/cwt"
DEMO='''
package cwt

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/base64"
	"bytes"
	"testing"

	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"
)

func TestDemo(t *testing.T) {
	kid := "first"
	signer := AccessTokenSigner(cose.ES256, func(context.Context) (*jose.JSONWebKey, error) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			return nil, err
		}
		return &jose.JSONWebKey{Key: k, KeyID: kid, Algorithm: "ES256"}, nil
	})
	for _, kid = range []string{"first", "second"} {
		tok, err := signer.Serialize(context.Background(), map[string]string{"sub": "x"})
		if err != nil {
			t.Fatal(err)
		}
		raw, err := base64.RawURLEncoding.DecodeString(tok)
		if err != nil || !bytes.Contains(raw, []byte(kid)) {
			t.Fatalf("token does not name the current key %q (%v)", kid, err)
		}
	}
}
'''
