ID="decoder-reuse"; PROP="C25"
NEEDS="one decoder used for two requests, the later one without a parameter the earlier one carried"
BREAKS="The decoder keeps the claims map between requests, so a parameter absent from a request keeps the value of an earlier client's request."
EDITS=[("sdk/jwsreq/decoder.go","type tokenDecoder struct {\n	verifier token.Verifier\n}","type tokenDecoder struct {\n	verifier token.Verifier\n	claims   map[string]any\n}"),
("sdk/jwsreq/decoder.go","	var claims map[string]any\n	if err := d.verifier.Claims(ctx, value, &claims); err != nil {","	if err := d.verifier.Claims(ctx, value, &d.claims); err != nil {"),
("sdk/jwsreq/decoder.go","Encode(claims)","Encode(d.claims)")]
PKG="sdk/jwsreq"
DEMO='''
package jwsreq

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"testing"

	"github.com/go-jose/go-jose/v4"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/token/jwt"
)

func TestDemo(t *testing.T) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	key := jose.JSONWebKey{Key: k, KeyID: "k", Algorithm: "ES256", Use: "sig"}
	pub := key.Public()
	enc := AuthorizationRequestEncoder(jwt.RequestSigner(jose.ES256, func(context.Context) (*jose.JSONWebKey, error) { return &key, nil }))
	dec := AuthorizationRequestDecoder(jwt.DefaultVerifier(func(context.Context) (*jose.JSONWebKeySet, error) {
		return &jose.JSONWebKeySet{Keys: []jose.JSONWebKey{pub}}, nil
	}, []jose.SignatureAlgorithm{jose.ES256}))
	for _, r := range []*flowv1.AuthorizationRequest{
		{ClientId: "a", Scope: "openid admin", Audience: "internal"},
		{ClientId: "b", State: "s"},
	} {
		tok, err := enc.Encode(context.Background(), r)
		if err != nil {
			t.Fatal(err)
		}
		got, err := dec.Decode(context.Background(), tok)
		if err != nil {
			t.Fatal(err)
		}
		if got.ClientId != r.ClientId || got.Scope != r.Scope || got.Audience != r.Audience || got.State != r.State {
			t.Fatalf("decoded %v, encoded %v", got, r)
		}
	}
}
'''
