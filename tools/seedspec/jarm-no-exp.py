ID="jarm-no-exp"; PROP="C24"
NEEDS="a correctly signed response of the right type, issuer and audience without an exp claim"
BREAKS="A response without expiration is accepted for ever."
EDITS=[("sdk/jarm/decoder.go","if claims.ExpiresAt < uint64(time.Now().Unix()) {","if claims.ExpiresAt > 0 && claims.ExpiresAt < uint64(time.Now().Unix()) {")]
PKG="sdk/jarm"
DEMO='''
package jarm

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/token/jwt"
)

func TestDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	key := jose.JSONWebKey{Key: k, KeyID: "k", Algorithm: "ES256", Use: "sig"}
	pub := key.Public()
	signer := jwt.JARMSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return &key, nil })
	raw, err := signer.Serialize(context.Background(), map[string]any{"iss": "https://as.example", "aud": "client", "code": "c", "state": "s"})
	if err != nil {
		t.Fatal(err)
	}
	d := Decoder("https://as.example", jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, nil
	}, []jose.SignatureAlgorithm{jose.ES256}))
	if res, err := d.Decode(context.Background(), "client", raw); err == nil {
		t.Fatalf("response without expiration accepted: %v", res)
	}
}
'''
