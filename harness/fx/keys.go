// Package fx holds the fixtures shared by the checks: key material, storages
// owned by the harness, wired services and input generators.
package fx

import (
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"encoding/json"
	"fmt"
	"sync"

	jose "github.com/go-jose/go-jose/v4"

	"zntr.io/solid/sdk/jwk"
)

// Key is a private signing key with its algorithm.
type Key struct {
	Alg  jose.SignatureAlgorithm
	Priv any
	Pub  any
}

var (
	keyMu   sync.Mutex
	keyPool = map[string]*Key{}
)

// GetKey returns the n-th pooled key of an algorithm family.
func GetKey(alg jose.SignatureAlgorithm, n int) *Key {
	keyMu.Lock()
	defer keyMu.Unlock()
	fam := string(alg)
	switch alg {
	case jose.RS256, jose.RS384, jose.RS512, jose.PS256, jose.PS384, jose.PS512:
		fam = "RSA"
	}
	name := fmt.Sprintf("%s/%d", fam, n)
	k, ok := keyPool[name]
	if !ok {
		k = &Key{}
		switch fam {
		case "RSA":
			p, err := rsa.GenerateKey(rand.Reader, 2048)
			must(err)
			k.Priv, k.Pub = p, &p.PublicKey
		case string(jose.ES256):
			k.Priv, k.Pub = ecKey(elliptic.P256())
		case string(jose.ES384):
			k.Priv, k.Pub = ecKey(elliptic.P384())
		case string(jose.ES512):
			k.Priv, k.Pub = ecKey(elliptic.P521())
		case string(jose.EdDSA):
			pub, p, err := ed25519.GenerateKey(rand.Reader)
			must(err)
			k.Priv, k.Pub = p, pub
		default:
			panic("HARNESS-ERROR: unknown algorithm " + fam)
		}
		keyPool[name] = k
	}
	return &Key{Alg: alg, Priv: k.Priv, Pub: k.Pub}
}

func ecKey(c elliptic.Curve) (any, any) {
	p, err := ecdsa.GenerateKey(c, rand.Reader)
	must(err)
	return p, &p.PublicKey
}

func must(err error) {
	if err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
}

// JWK returns the private JWK.
func (k *Key) JWK(kid string) *jose.JSONWebKey {
	return &jose.JSONWebKey{Key: k.Priv, KeyID: kid, Algorithm: string(k.Alg), Use: "sig"}
}

// PubJWK returns the public JWK.
func (k *Key) PubJWK(kid string) jose.JSONWebKey {
	return jose.JSONWebKey{Key: k.Pub, KeyID: kid, Algorithm: string(k.Alg), Use: "sig"}
}

// Provider wraps one key.
func Provider(k *jose.JSONWebKey) jwk.KeyProviderFunc {
	return func(context.Context) (*jose.JSONWebKey, error) { return k, nil }
}

// SetProvider wraps a key set.
func SetProvider(keys ...jose.JSONWebKey) jwk.KeySetProviderFunc {
	return func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: keys}, nil
	}
}

// JWKS marshals a key set as a client record holds it.
func JWKS(keys ...jose.JSONWebKey) []byte {
	b, err := json.Marshal(&jose.JSONWebKeySet{Keys: keys})
	must(err)
	return b
}

// ParseJWKS reads a key set of the harness.
func ParseJWKS(b []byte) *jose.JSONWebKeySet {
	var s jose.JSONWebKeySet
	must(json.Unmarshal(b, &s))
	return &s
}

// SigAlgs are the asymmetric algorithms exercised by the checks.
var SigAlgs = []jose.SignatureAlgorithm{
	jose.ES256, jose.ES384, jose.ES512, jose.EdDSA, jose.RS256, jose.PS256,
}

// CheapAlgs avoids RSA.
var CheapAlgs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384, jose.EdDSA}

// SameKey reports whether two keys are the same key pair (whatever the algorithm).
func SameKey(a, b *Key) bool {
	x, ok := a.Pub.(interface{ Equal(crypto.PublicKey) bool })
	return ok && x.Equal(b.Pub)
}
