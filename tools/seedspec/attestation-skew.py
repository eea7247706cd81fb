ID="pop-notbefore"; PROP="C16"
NEEDS="an attestation which expires, presented with a proof-of-possession which is still valid, within the minute after"
BREAKS="An attestation is accepted up to one minute after its expiration."
EDITS=[("server/clientauthentication/client_attestation.go","""	if claims.Expires < uint64(time.Now().Unix()) {
		return "", nil, fmt.Errorf("expired token")""","""	if claims.Expires < uint64(time.Now().Add(-time.Minute).Unix()) {
		return "", nil, fmt.Errorf("expired token")""")]
ID="attestation-skew"
PKG="server/clientauthentication"
DEMO='''
package clientauthentication

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/json"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v4"
	"github.com/go-jose/go-jose/v4/jwt"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	attester, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	instance, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	jwks, _ := json.Marshal(&jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: attester.Public(), KeyID: "k", Algorithm: "ES256", Use: "sig"}}})
	clients := inmemory.Clients()
	att, err := clients.Register(ctx, &clientv1.Client{ClientName: "attester", Jwks: jwks})
	if err != nil {
		t.Fatal(err)
	}
	id := "attestation-client"
	sign := func(k *ecdsa.PrivateKey, claims map[string]any) string {
		sig, err := jose.NewSigner(jose.SigningKey{Algorithm: jose.ES256, Key: jose.JSONWebKey{Key: k, KeyID: "k"}}, nil)
		if err != nil {
			t.Fatal(err)
		}
		raw, err := jwt.Signed(sig).Claims(claims).Serialize()
		if err != nil {
			t.Fatal(err)
		}
		return raw
	}
	now := time.Now().Unix()
	attempt := func(exp int64) error {
		raw := sign(attester, map[string]any{"iss": att, "sub": id, "exp": exp, "iat": now - 600, "jti": "1", "cnf": map[string]any{"jwk": jose.JSONWebKey{Key: instance.Public()}}}) +
			"~" + sign(instance, map[string]any{"iss": id, "aud": "https://as.example", "exp": now + 60, "iat": now, "jti": "2"})
		typ := oidc.AssertionTypeJWTClientAttestation
		_, err := ClientAttestation(clients, []jose.SignatureAlgorithm{jose.ES256}).Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: &typ, ClientAssertion: &raw})
		return err
	}
	if err := attempt(now + 60); err != nil {
		t.Fatal(err)
	}
	if attempt(now-30) == nil {
		t.Fatal("expired attestation accepted")
	}
}
'''
