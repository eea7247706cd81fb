ID="usercode-alphabet"; PROP="C23"
NEEDS="many generated user codes (one character of the alphabet never occurs)"
BREAKS="The user code alphabet loses a consonant and has another twice, so codes are biased and one letter never occurs."
EDITS=[("sdk/generator/device_user_code.go",'[]byte("BCDFGHJKLMNPQRSTVWXZ")','[]byte("BCDFGHJKLMNPQRSTVWXX")')]
PKG="sdk/generator"
DEMO='''
package generator

import (
	"context"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		c, err := DefaultDeviceUserCode().Generate(context.Background(), "")
		if err != nil {
			t.Fatal(err)
		}
		if strings.Contains(c, "Z") {
			return
		}
	}
	t.Fatal("Z never occurs")
}
'''
