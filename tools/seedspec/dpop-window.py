ID="dpop-window"; PROP="C14"
NEEDS="a proof whose iat lies in the future (client clock ahead) presented twice, more than ten seconds apart, both within the acceptance window"
BREAKS="A DPoP proof can be replayed: the replay cache forgets a proof before its acceptance window (iat +/- 15 s, so up to 30 s) has passed."
EDITS=[("server/storage/inmemory/proof.go","cache.New(1*time.Minute, 10*time.Minute)","cache.New(dpop.ExpirationTreshold, 10*time.Minute)"),
("server/storage/inmemory/proof.go",'	"zntr.io/solid/server/storage"\n','	"zntr.io/solid/sdk/dpop"\n	"zntr.io/solid/server/storage"\n')]
PKG="server/storage"
EDITS=[("server/storage/inmemory/proof.go","cache.New(1*time.Minute, 10*time.Minute)","cache.New(proofLifetime, 10*time.Minute)"),
("server/storage/inmemory/proof.go",'type proofCache struct {','// proofLifetime is the clock skew tolerance of the proof verifier.\nconst proofLifetime = 15 * time.Second\n\ntype proofCache struct {')]
PKG="server/storage/inmemory"
DEMO='''
package inmemory

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	p := DPoPProofs()
	if err := p.Register(context.Background(), "a"); err != nil {
		t.Fatal(err)
	}
	time.Sleep(17 * time.Second)
	if ok, _ := p.Exists(context.Background(), "a"); !ok {
		t.Fatal("proof forgotten within its acceptance window of 30 seconds")
	}
}
'''
