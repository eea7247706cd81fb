ID="profile-case"; PROP="C32"
NEEDS="an application type name written in another letter case"
BREAKS="Application types are looked up without case: undocumented names are admitted."
EDITS=[("server/profile/server.go","c, ok := s.clientProfiles[typeName]","c, ok := s.clientProfiles[strings.ToLower(typeName)]"),("server/profile/server.go","package profile\n",'package profile\n\nimport "strings"\n')]
PKG="server/profile"
DEMO='''
package profile

import (
	"strings"
	"testing"

	"zntr.io/solid/oidc"
)

func TestDemo(t *testing.T) {
	if _, ok := Strict().ApplicationType(strings.ToUpper(oidc.ApplicationTypeNative)); ok {
		t.Fatal("undocumented type name admitted")
	}
}
'''
