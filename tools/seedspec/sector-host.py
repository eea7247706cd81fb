ID="sector-host"; PROP="C21"
NEEDS="two sectors which differ in letter case only"
BREAKS="Sectors are folded to lower case: subjects of two sectors get the same pairwise identifier."
EDITS=[("sdk/pairwise/hash.go","h.Write([]byte(sectorID))","h.Write([]byte(strings.ToLower(sectorID)))")]
PKG="sdk/pairwise"
DEMO='''
package pairwise

import "testing"

func TestDemo(t *testing.T) {
	e := Hash([]byte("0123456789abcdef"))
	a, err := e.Encode("https://rp.example/A", "alice")
	if err != nil {
		t.Fatal(err)
	}
	b, err := e.Encode("https://rp.example/a", "alice")
	if err != nil {
		t.Fatal(err)
	}
	if a == b {
		t.Fatal("two sectors share an identifier")
	}
}
'''
