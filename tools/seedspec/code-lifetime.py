ID="code-lifetime"; PROP="C03"
NEEDS="a code redeemed between 60 and 90 seconds after it was issued"
BREAKS="Authorization codes live longer than the lifetime the server advertises."
EDITS=[("server/storage/inmemory/authorization_code_session.go","cache.New(1*time.Minute, 10*time.Minute)","cache.New(90*time.Second, 10*time.Minute)")]
PKG="server/storage/inmemory"
DEMO='''
package inmemory

import (
	"context"
	"testing"
	"time"

	sessionv1 "zntr.io/solid/api/oidc/session/v1"
)

func TestDemo(t *testing.T) {
	s := AuthorizationCodeSessions()
	in, err := s.Register(context.Background(), "https://as.example", "code", &sessionv1.AuthorizationCodeSession{})
	if err != nil {
		t.Fatal(err)
	}
	_, exp, ok := s.(*sessionStorage).backend.GetWithExpiration(s.(*sessionStorage).deriveKey("https://as.example", "code"))
	if !ok || time.Until(exp) > time.Duration(in)*time.Second {
		t.Fatalf("advertised %d s, kept %v", in, time.Until(exp))
	}
}
'''
