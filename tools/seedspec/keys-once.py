ID="keys-once"; PROP="C17"
NEEDS="a verifier in use while a key is removed from the key set it asks for"
BREAKS="The verifier keeps the first key set: tokens of a withdrawn key stay valid and those of a new one are refused."
EDITS=[("sdk/token/jwt/verifier.go","	keySetProvider      jwk.KeySetProviderFunc\n","	keySetProvider      jwk.KeySetProviderFunc\n	keySet              *jose.JSONWebKeySet\n"),
("sdk/token/jwt/verifier.go","	jwks, err := v.keySetProvider(ctx)\n	if err != nil {","	jwks, err := v.keySet, error(nil)\n	if jwks == nil {\n		jwks, err = v.keySetProvider(ctx)\n		v.keySet = jwks\n	}\n	if err != nil {")]
PKG="sdk/token/jwt"
DEMO='''
package jwt

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"
)

func TestDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	key := jose.JSONWebKey{Key: k, KeyID: "k", Algorithm: "ES256", Use: "sig"}
	set := &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{key.Public()}}
	v := DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) { return set, nil }, []jose.SignatureAlgorithm{jose.ES256})
	tok, err := AccessTokenSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return &key, nil }).Serialize(context.Background(), map[string]any{"sub": "x"})
	if err != nil {
		t.Fatal(err)
	}
	var claims map[string]any
	if err := v.Claims(context.Background(), tok, &claims); err != nil {
		t.Fatal(err)
	}
	set = &jose.JSONWebKeySet{}
	if err := v.Claims(context.Background(), tok, &claims); err == nil {
		t.Fatal("token of a withdrawn key accepted")
	}
}
'''
