ID="has-all-last"; PROP="C29"
NEEDS="a list of items of which an earlier one is missing and the last one present"
BREAKS="HasAll answers for the last item only."
EDITS=[("sdk/types/string_array.go","""		found = s.Contains(item)
		if !found {
			break
		}
""","""		found = s.Contains(item)
""")]
PKG="sdk/types"
DEMO='''
package types

import "testing"

func TestDemo(t *testing.T) {
	if (StringArray{"a", "b"}).HasAll("x", "b") {
		t.Fatal("x is missing")
	}
}
'''
