ID="assertion-subject-case"; PROP="C15"
NEEDS="a client assertion whose subject differs from its issuer in letter case"
BREAKS="An assertion whose subject is not its issuer authenticates the issuer."
EDITS=[("server/clientauthentication/private_key_jwt.go","if claims.Issuer != claims.Subject {","if !strings.EqualFold(claims.Issuer, claims.Subject) {"),
("server/clientauthentication/private_key_jwt.go",'	"fmt"\n','	"fmt"\n	"strings"\n')]
PKG="server/clientauthentication"
DEMO='''
package clientauthentication

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/json"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v4"
	"github.com/go-jose/go-jose/v4/jwt"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/oidc"
	"zntr.io/solid/server/storage/inmemory"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	jwks, _ := json.Marshal(&jose.JSONWebKeySet{Keys: []jose.JSONWebKey{{Key: k.Public(), KeyID: "k", Algorithm: "ES256", Use: "sig"}}})
	clients := inmemory.Clients()
	id, err := clients.Register(ctx, &clientv1.Client{ClientName: "a", Jwks: jwks})
	if err != nil {
		t.Fatal(err)
	}
	sub := []byte(id)
	for i := range sub {
		if sub[i] >= 'a' && sub[i] <= 'z' {
			sub[i] -= 32
		} else if sub[i] >= 'A' && sub[i] <= 'Z' {
			sub[i] += 32
		}
	}
	sig, err := jose.NewSigner(jose.SigningKey{Algorithm: jose.ES256, Key: k}, (&jose.SignerOptions{}).WithHeader("kid", "k"))
	if err != nil {
		t.Fatal(err)
	}
	raw, err := jwt.Signed(sig).Claims(map[string]any{"iss": id, "sub": string(sub), "aud": "https://as.example", "jti": "1", "exp": time.Now().Unix() + 60, "iat": time.Now().Unix()}).Serialize()
	if err != nil {
		t.Fatal(err)
	}
	typ := oidc.AssertionTypeJWTBearer
	res, err := PrivateKeyJWT(clients, []jose.SignatureAlgorithm{jose.ES256}).Authenticate(ctx, &clientv1.AuthenticateRequest{ClientAssertionType: &typ, ClientAssertion: &raw})
	if err == nil && string(sub) != id {
		t.Fatalf("assertion about another subject accepted: %v", res)
	}
}
'''
