ID="vt-authtime-zero"; PROP="C28"
NEEDS="a token whose optional authentication time is present and zero"
BREAKS="The fast codec drops an optional field which is present with its zero value, so it disagrees with the reference encoding."
EDITS=[("api/oidc/token/v1/token_vtproto.pb.go","""	if m.AuthTime != nil {
		i -= 8""","""	if m.AuthTime != nil && *m.AuthTime != 0 {
		i -= 8"""),("api/oidc/token/v1/token_vtproto.pb.go","""	if m.AuthTime != nil {
		n +=""","""	if m.AuthTime != nil && *m.AuthTime != 0 {
		n +=""")]
PKG="api/oidc/token/v1"
DEMO='''
package tokenv1

import (
	"testing"

	"google.golang.org/protobuf/proto"
)

func TestDemo(t *testing.T) {
	var zero uint64
	in := &TokenMeta{AuthTime: &zero}
	b, err := in.MarshalVT()
	if err != nil {
		t.Fatal(err)
	}
	var out TokenMeta
	if err := proto.Unmarshal(b, &out); err != nil {
		t.Fatal(err)
	}
	if !proto.Equal(in, &out) {
		t.Fatal("presence lost")
	}
}
'''
