ID="error-shared-state"; PROP="C36"
NEEDS="a builder used again after an error was built from it"
BREAKS="Errors share the state of their builder: setting a state later changes errors already built."
EDITS=[("sdk/rfcerrors/builder.go","err.State = types.StringRef(eb.state)","err.State = &eb.state")]
PKG="sdk/rfcerrors"
DEMO='''
package rfcerrors

import "testing"

func TestDemo(t *testing.T) {
	b := AccessDenied()
	first := b.State("one").Build()
	second := b.State("two").Build()
	if first.GetState() != "one" || second.GetState() != "two" {
		t.Fatalf("%q %q", first.GetState(), second.GetState())
	}
}
'''
