ID="jwks-cache-skew"; PROP="C31"
NEEDS="a key set with an expiration, and a request for keys between that expiration and one hour later"
BREAKS="Cached keys are reused for an hour after the expiration the server stated."
EDITS=[("client/http.go","	c.jwksExpiration = jwks.Expires\n","	c.jwksExpiration = jwks.Expires\n	if jwks.Expires > 0 {\n		c.jwksExpiration += 3600\n	}\n"),]
EDITS=[("client/http.go","c.jwksExpiration > uint64(time.Now().Unix()) {","c.jwksExpiration > uint64(time.Now().Add(-time.Hour).Unix()) {")]
PKG="client"
DEMO='''
package client

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/go-jose/go-jose/v4"

	discoveryv1 "zntr.io/solid/api/oidc/discovery/v1"
)

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) {
		w.WriteHeader(http.StatusInternalServerError)
	}))
	defer s.Close()
	c := &httpClient{httpClient: s.Client(), opts: &Options{}, serverMetadata: &discoveryv1.ServerMetadata{JwksUri: s.URL},
		jwks: &jose.JSONWebKeySet{}, jwksExpiration: uint64(time.Now().Unix()) - 60}
	if _, _, err := c.PublicKeys(context.Background()); err == nil {
		t.Fatal("expired keys are reused")
	}
}
'''
