ID="introspection-shared"; PROP="C19"
NEEDS="one introspection generator answering for an active token and afterwards for an inactive one"
BREAKS="The generator reuses the answer's map, so the assertion about an inactive token carries the issuer, subject, scope and client of the token before it."
EDITS=[("sdk/token/introspection.go","	signer Serializer\n}\n","	signer Serializer\n	answer map[string]any\n}\n"),
("sdk/token/introspection.go","		signer: signer,\n","		signer: signer,\n		answer: make(map[string]any, 9),\n"),
("sdk/token/introspection.go","	tokenIntrospection := map[string]any{\n		\"active\": active,\n	}\n","	tokenIntrospection := c.answer\n	tokenIntrospection[\"active\"] = active\n")]
PKG="sdk/token"
DEMO='''
package token

import (
	"context"
	"testing"
	"time"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

type keep struct{ claims any }

func (k *keep) ContentType() string { return "JWT" }
func (k *keep) Serialize(_ context.Context, claims any) (string, error) {
	k.claims = claims
	return "x", nil
}

func TestDemo(t *testing.T) {
	k := &keep{}
	g := Introspection(k)
	now := uint64(time.Now().Unix())
	for _, st := range []tokenv1.TokenStatus{tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, tokenv1.TokenStatus_TOKEN_STATUS_REVOKED} {
		tok := &tokenv1.Token{TokenId: "1", Status: st, Metadata: &tokenv1.TokenMeta{Issuer: "https://as.example", Subject: "alice", ClientId: "c", IssuedAt: now - 5, NotBefore: now - 5, ExpiresAt: now + 50}}
		if _, err := g.Generate(context.Background(), tok); err != nil {
			t.Fatal(err)
		}
		ti := k.claims.(map[string]any)["token_introspection"].(map[string]any)
		if _, has := ti["sub"]; has != (st == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) {
			t.Fatalf("%v token: %v", st, ti)
		}
	}
}
'''
