ID="usercode-repeat"; PROP="C23"
NEEDS="one long-lived user code generator which serves many device authorizations"
BREAKS="The generator draws letters in blocks and starts over when a block ends, so a user code repeats among those of one generator."
EDITS=[("sdk/generator/device_user_code.go","type deviceCodeAlphaGenerator struct{}","type deviceCodeAlphaGenerator struct {\n	mu    sync.Mutex\n	block string\n	used  int\n}\n\n// letters returns the next letters of a code.\nfunc (c *deviceCodeAlphaGenerator) letters() string {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	if c.block == \"\" {\n		c.block = uniuri.NewLenChars(64*DefaultAlphaDeviceCodeLen, DefaultAlphaDeviceCodeCharset)\n	}\n	i := c.used % 64 * DefaultAlphaDeviceCodeLen\n	c.used++\n	return c.block[i : i+DefaultAlphaDeviceCodeLen]\n}"),
("sdk/generator/device_user_code.go","	code := uniuri.NewLenChars(DefaultAlphaDeviceCodeLen, DefaultAlphaDeviceCodeCharset)","	code := c.letters()"),
("sdk/generator/device_user_code.go",'	"fmt"\n','	"fmt"\n	"sync"\n')]
PKG="sdk/generator"
DEMO='''
package generator

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	g := DefaultDeviceUserCode()
	seen := map[string]bool{}
	for i := 0; i < 500; i++ {
		c, err := g.Generate(context.Background(), "")
		if err != nil {
			t.Fatal(err)
		}
		if seen[c] {
			t.Fatalf("user code %s generated twice", c)
		}
		seen[c] = true
	}
}
'''
