ID="delete-keeps-value"; PROP="C11"
NEEDS="a token which is revoked, then deleted, then looked up by value"
BREAKS="Deleting a token which was revoked before leaves it in the value index (Revoke derives the stored value a second time): it is still found by value."
EDITS=[("server/storage/inmemory/token.go","	s.valueIndex.Store(t.Value, t)\n","	s.valueIndex.Store(t.Value, t)\n")]
EDITS=[("server/storage/inmemory/token.go","	s.idIndex.Delete(s.deriveID(issuer, t.TokenId))\n	s.valueIndex.Delete(t.Value)\n","	s.idIndex.Delete(s.deriveID(issuer, t.TokenId))\n	if t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {\n		s.valueIndex.Delete(t.Value)\n	}\n")]
BREAKS="Deleting a token which was revoked before leaves it in the value index, so it is still found by value."
PKG="server/storage/inmemory"
DEMO='''
package inmemory

import (
	"context"
	"testing"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

func TestDemo(t *testing.T) {
	ctx := context.Background()
	s := Tokens()
	if err := s.Create(ctx, "https://as", &tokenv1.Token{TokenId: "1", Value: "v", Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE}); err != nil {
		t.Fatal(err)
	}
	if err := s.Revoke(ctx, "https://as", "1"); err != nil {
		t.Fatal(err)
	}
	if err := s.Delete(ctx, "https://as", "1"); err != nil {
		t.Fatal(err)
	}
	if tok, err := s.GetByValue(ctx, "https://as", "v"); err == nil {
		t.Fatalf("deleted token is found: %v", tok)
	}
}
'''
