ID="contains-trim"; PROP="C29"
NEEDS="items with leading or trailing white space"
BREAKS="Membership ignores surrounding white space: an absent item is reported as a member."
EDITS=[("sdk/types/string_array.go","""		if strings.EqualFold(item, v) {
			return true""","""		if strings.EqualFold(strings.TrimSpace(item), strings.TrimSpace(v)) {
			return true""")]
PKG="sdk/types"
DEMO='''
package types

import "testing"

func TestDemo(t *testing.T) {
	s := StringArray{"openid"}
	if s.Contains("openid ") {
		t.Fatal("\\"openid \\" is not a member")
	}
	s.AddIfNotContains(" openid")
	if len(s) != 2 {
		t.Fatal("item was not added")
	}
}
'''
