ID="prefix-case"; PROP="C20"
NEEDS="a generated token whose prefix was altered in letter case"
BREAKS="Extraction folds the prefix to lower case before it is authenticated: an altered token is accepted."
EDITS=[("sdk/token/verifiable/uuid.go","prefix = parts[0] + defaultSeparator","prefix = strings.ToLower(parts[0]) + defaultSeparator")]
PKG="sdk/token/verifiable"
DEMO='''
package verifiable

import "testing"

func TestDemo(t *testing.T) {
	g := UUIDGenerator(UUIDv4Source(), []byte("secret"))
	tok, err := g.Generate(WithTokenPrefix("at"))
	if err != nil {
		t.Fatal(err)
	}
	if UUIDVerifier([]byte("secret")).Verify(tok) != nil {
		t.Fatal("token refused")
	}
	if UUIDVerifier([]byte("secret")).Verify("aT"+tok[2:]) == nil {
		t.Fatal("altered token accepted")
	}
}
'''
