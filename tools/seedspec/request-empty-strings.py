ID="request-empty-strings"; PROP="C25"
NEEDS="a request with an optional parameter which is present but empty (prompt= for instance)"
BREAKS="The request encoder drops parameters which are present and empty, so they lose their presence on decoding."
EDITS=[("sdk/jwsreq/encoder.go","""	// Sign request
""","""	// Keep the request object small
	for k, v := range claims {
		if v == "" {
			delete(claims, k)
		}
	}

	// Sign request
"""),("sdk/jwsreq/encoder.go","		UseProtoNames:   true,\n		EmitUnpopulated: false,\n","		UseProtoNames: true,\n")]
PKG="sdk/jwsreq"
DEMO='''
package jwsreq

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/token/jwt"
)

func TestDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	key := jose.JSONWebKey{Key: k, KeyID: "k", Algorithm: "ES256", Use: "sig"}
	pub := key.Public()
	empty := ""
	in := &flowv1.AuthorizationRequest{ClientId: "c", Prompt: &empty}
	raw, err := AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return &key, nil })).Encode(context.Background(), in)
	if err != nil {
		t.Fatal(err)
	}
	out, err := AuthorizationRequestDecoder(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, nil
	}, []jose.SignatureAlgorithm{jose.ES256})).Decode(context.Background(), raw)
	if err != nil {
		t.Fatal(err)
	}
	if !proto.Equal(in, out) {
		t.Fatalf("%v became %v", in, out)
	}
}
'''
