// Package v4 stands in for zntr.io/paseto/v4, which is not installed in the
// sandbox: the v4.public part of the published PASETO specification, with the
// signature of the original.
package v4

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"strings"
)

// PublicPrefix is the header of a v4.public token.
const PublicPrefix = "v4.public."

func pae(parts ...[]byte) []byte {
	le := func(n int) []byte { return binary.LittleEndian.AppendUint64(nil, uint64(n)&(1<<63-1)) }
	out := bytes.NewBuffer(le(len(parts)))
	for _, p := range parts {
		out.Write(le(len(p)))
		out.Write(p)
	}
	return out.Bytes()
}

// Sign a message (m) with the private key (sk), footer (f) and implicit assertion (i).
func Sign(m []byte, sk ed25519.PrivateKey, f, i []byte) ([]byte, error) {
	if len(sk) != ed25519.PrivateKeySize {
		return nil, errors.New("paseto: invalid private key length")
	}
	sig := ed25519.Sign(sk, pae([]byte(PublicPrefix), m, f, i))
	tok := PublicPrefix + base64.RawURLEncoding.EncodeToString(append(bytes.Clone(m), sig...))
	if len(f) > 0 {
		tok += "." + base64.RawURLEncoding.EncodeToString(f)
	}
	return []byte(tok), nil
}

// Verify a token with the public key, the expected footer and implicit assertion.
func Verify(t []byte, pk ed25519.PublicKey, f, i []byte) ([]byte, error) {
	body, ok := strings.CutPrefix(string(t), PublicPrefix)
	if !ok {
		return nil, errors.New("paseto: invalid token")
	}
	body, foot, has := strings.Cut(body, ".")
	want, err := base64.RawURLEncoding.DecodeString(foot)
	if err != nil || has != (len(f) > 0) || !bytes.Equal(want, f) {
		return nil, errors.New("paseto: invalid footer")
	}
	raw, err := base64.RawURLEncoding.DecodeString(body)
	if err != nil || len(raw) < ed25519.SignatureSize {
		return nil, errors.New("paseto: invalid token")
	}
	m, sig := raw[:len(raw)-ed25519.SignatureSize], raw[len(raw)-ed25519.SignatureSize:]
	if len(pk) != ed25519.PublicKeySize || !ed25519.Verify(pk, pae([]byte(PublicPrefix), m, f, i), sig) {
		return nil, errors.New("paseto: invalid signature")
	}
	return m, nil
}
