ID="context-same-client"; PROP="C37"
NEEDS="two clients with the same identifier and other attributes injected one after the other"
BREAKS="The second injection of a client with a known identifier is dropped: handlers see the stale client."
EDITS=[("server/clientauthentication/context.go","""	return context.WithValue(ctx, contextKeyClientAuth, client)""","""	if current, ok := FromContext(ctx); !ok || current.GetClientId() != client.GetClientId() {
		ctx = context.WithValue(ctx, contextKeyClientAuth, client)
	}

	return ctx""")]
PKG="server/clientauthentication"
DEMO='''
package clientauthentication

import (
	"context"
	"testing"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
)

func TestDemo(t *testing.T) {
	a := &clientv1.Client{ClientId: "a", ClientName: "old"}
	b := &clientv1.Client{ClientId: "a", ClientName: "new"}
	ctx := Inject(Inject(context.Background(), a), b)
	if got, ok := FromContext(ctx); !ok || got != b {
		t.Fatalf("%v %v", got, ok)
	}
}
'''
