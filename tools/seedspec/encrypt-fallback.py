ID="encrypt-fallback"; PROP="C38"
NEEDS="an encrypter that is not configured for the content type and returns an empty string without an error"
BREAKS="A token that could not be encrypted is handed out in clear."
EDITS=[("sdk/token/encrypted.go","""		return "", fmt.Errorf("unable to encrypt signed token: %w", err)
	}
""","""		return "", fmt.Errorf("unable to encrypt signed token: %w", err)
	}
	if encrypted == "" {
		encrypted = signed
	}
"""),("sdk/token/encrypted.go","	// Encrypt token\n","	// Encrypt the signed token\n")]
PKG="sdk/token"
DEMO='''
package token

import (
	"context"
	"testing"
)

type plain struct{}

func (plain) Serialize(context.Context, any) (string, error) { return "signed", nil }
func (plain) ContentType() string                            { return "JWT" }

type silent struct{}

func (silent) Encrypt(context.Context, string, string, []byte) (string, error) { return "", nil }

func TestDemo(t *testing.T) {
	if v, err := Encryption(plain{}, silent{}).Serialize(context.Background(), map[string]any{}); err == nil && v != "" {
		t.Fatalf("token in clear: %q", v)
	}
}
'''
