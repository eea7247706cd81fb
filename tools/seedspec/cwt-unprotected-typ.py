ID="cwt-kid-case"; PROP="C18"
NEEDS="a key whose private part is present but which has a key id made of white space"
EDITS=[("sdk/token/cwt/signer.go",'sig.Headers.Protected["typ"] = fmt.Sprintf("%s+cwt", ds.tokenType)','sig.Headers.Unprotected["typ"] = fmt.Sprintf("%s+cwt", ds.tokenType)')]
ID="cwt-unprotected-typ"
NEEDS="a reader of the token which relies on its typ, and someone who rewrites the unprotected header (say a refresh token presented as an access token)"
BREAKS="The token kind is put in the unprotected header: it is not covered by the signature any more."
PKG="sdk/token/cwt"
DEMO='''
package cwt

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/base64"
	"testing"

	"github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"
)

func TestDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	raw, err := DefaultSigner("at", cose.ES256, func(context.Context) (*jose.JSONWebKey, error) {
		return &jose.JSONWebKey{Key: k, KeyID: "k"}, nil
	}).Serialize(context.Background(), map[string]any{"sub": "alice"})
	if err != nil {
		t.Fatal(err)
	}
	b, err := base64.RawURLEncoding.DecodeString(raw)
	if err != nil {
		t.Fatal(err)
	}
	var msg cose.SignMessage
	if err := msg.UnmarshalCBOR(b); err != nil {
		t.Fatal(err)
	}
	if got := msg.Signatures[0].Headers.Protected["typ"]; got != "at+cwt" {
		t.Fatalf("protected typ is %v", got)
	}
}
'''
