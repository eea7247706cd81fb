ID="attestation-cached"; PROP="C16"
NEEDS="one authenticator which has accepted an attestation, presented again after it expired with a fresh proof of possession"
BREAKS="An attestation accepted once is not validated again: it authenticates after its expiration, and after the attester's key or the client was removed."
EDITS=[("server/clientauthentication/client_attestation.go","	supportedAlgorithms []jose.SignatureAlgorithm\n}","	supportedAlgorithms []jose.SignatureAlgorithm\n	known               sync.Map\n}\n\ntype knownAttestation struct {\n	client string\n	key    *jose.JSONWebKey\n}"),
("server/clientauthentication/client_attestation.go","	\"strings\"\n","	\"strings\"\n	\"sync\"\n"),
("server/clientauthentication/client_attestation.go","	// Decode assertions without validation first\n	clientID, clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])\n	if err != nil {","	// Recall the attestation or decode it without validation first\n	var (\n		clientID        string\n		clientPublicKey *jose.JSONWebKey\n		err             error\n	)\n	if x, ok := p.known.Load(assertions[0]); ok {\n		clientID, clientPublicKey = x.(knownAttestation).client, x.(knownAttestation).key\n	} else if clientID, clientPublicKey, err = p.validateClientAttestation(ctx, assertions[0]); err == nil {\n		p.known.Store(assertions[0], knownAttestation{clientID, clientPublicKey})\n	}\n	if err != nil {")]
PKG="server/clientauthentication"
DEMO='''
package clientauthentication

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/json"
	"strings"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v4"
	"github.com/go-jose/go-jose/v4/jwt"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	attester, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	instance, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	jwks, _ := json.Marshal(&jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: attester.Public(), KeyID: "k", Algorithm: "ES256", Use: "sig"}}})
	clients := inmemory.Clients()
	att, err := clients.Register(ctx, &clientv1.Client{ClientName: "attester", Jwks: jwks})
	if err != nil {
		t.Fatal(err)
	}
	id := "attestation-client"
	sign := func(k *ecdsa.PrivateKey, claims map[string]any) string {
		sig, err := jose.NewSigner(jose.SigningKey{Algorithm: jose.ES256, Key: jose.JSONWebKey{Key: k, KeyID: "k"}}, nil)
		if err != nil {
			t.Fatal(err)
		}
		raw, err := jwt.Signed(sig).Claims(claims).Serialize()
		if err != nil {
			t.Fatal(err)
		}
		return raw
	}
	now := time.Now().Unix()
	auth := ClientAttestation(clients, []jose.SignatureAlgorithm{jose.ES256})
	last := ""
	attempt := func(exp int64) error {
		raw := sign(attester, map[string]any{"iss": att, "sub": id, "exp": exp, "iat": now - 600, "jti": "1", "cnf": map[string]any{"jwk": jose.JSONWebKey{Key: instance.Public()}}}) +
			"~" + sign(instance, map[string]any{"iss": id, "aud": "https://as.example", "exp": now + 60, "iat": now, "jti": "2"})
		typ := oidc.AssertionTypeJWTClientAttestation
		if last != "" && exp == 0 {
			raw = last + raw[strings.Index(raw, "~"):]
		}
		last = raw[:strings.Index(raw, "~")]
		_, err := auth.Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: &typ, ClientAssertion: &raw})
		return err
	}
	if err := attempt(now + 2); err != nil {
		t.Fatal(err)
	}
	time.Sleep(time.Until(time.Unix(now+4, 0)))
	if attempt(0) == nil {
		t.Fatal("expired attestation accepted")
	}
}
'''
