package fx

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"strconv"
	"strings"

	jose "github.com/go-jose/go-jose/v4"
	"pgregory.net/rapid"
)

// B64 is unpadded base64url.
func B64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// UnB64 decodes unpadded base64url of the harness's own output.
func UnB64(s string) []byte {
	b, err := base64.RawURLEncoding.DecodeString(s)
	must(err)
	return b
}

// JSON marshals.
func JSON(v any) []byte {
	b, err := json.Marshal(v)
	must(err)
	return b
}

// Map is a JSON object.
type Map = map[string]any

// AsMap converts any JSON-able object to a map.
func AsMap(v any) Map {
	var m Map
	must(json.Unmarshal(JSON(v), &m))
	return m
}

func hashOf(alg jose.SignatureAlgorithm, in []byte) (crypto.Hash, []byte) {
	switch alg[len(alg)-3:] {
	case "256":
		h := sha256.Sum256(in)
		return crypto.SHA256, h[:]
	case "384":
		h := sha512.Sum384(in)
		return crypto.SHA384, h[:]
	default:
		h := sha512.Sum512(in)
		return crypto.SHA512, h[:]
	}
}

// RawSign signs bytes with a key.
func RawSign(k *Key, in []byte) []byte {
	switch p := k.Priv.(type) {
	case ed25519.PrivateKey:
		return ed25519.Sign(p, in)
	case *ecdsa.PrivateKey:
		_, d := hashOf(k.Alg, in)
		r, s, err := ecdsa.Sign(rand.Reader, p, d)
		must(err)
		n := (p.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out
	case *rsa.PrivateKey:
		h, d := hashOf(k.Alg, in)
		var sig []byte
		var err error
		if k.Alg[0] == 'P' {
			sig, err = rsa.SignPSS(rand.Reader, p, h, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		} else {
			sig, err = rsa.SignPKCS1v15(rand.Reader, p, h, d)
		}
		must(err)
		return sig
	}
	panic("HARNESS-ERROR: unknown key")
}

// JWS builds a compact JWS with any header.
func JWS(k *Key, header Map, payload []byte) string {
	in := B64(JSON(header)) + "." + B64(payload)
	return in + "." + B64(RawSign(k, []byte(in)))
}

// JWSNone builds an unsigned JWS.
func JWSNone(header Map, payload []byte, alg string) string {
	h := Map{}
	for k, v := range header {
		h[k] = v
	}
	h["alg"] = alg
	return B64(JSON(h)) + "." + B64(payload) + "."
}

// JWSMac builds an HMAC JWS whose secret is an encoding of a public key.
func JWSMac(t *rapid.T, k *Key, header Map, payload []byte) string {
	der, err := x509.MarshalPKIXPublicKey(k.Pub)
	must(err)
	pub := k.PubJWK("")
	secret := [][]byte{der, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der}), JSON(&pub), []byte(B64(der)), {}}[Int(t, "macsecret", 0, 4)]
	h := Map{}
	for k, v := range header {
		h[k] = v
	}
	h["alg"] = "HS256"
	in := B64(JSON(h)) + "." + B64(payload)
	m := hmac.New(sha256.New, secret)
	m.Write([]byte(in))
	return in + "." + B64(m.Sum(nil))
}

// Split splits a compact JWS of the harness.
func Split(tok string) (h, p, s string) {
	parts := strings.Split(tok, ".")
	if len(parts) != 3 {
		panic("HARNESS-ERROR: not a compact JWS: " + tok)
	}
	return parts[0], parts[1], parts[2]
}

// Header decodes the header of a compact JWS.
func Header(tok string) Map {
	h, _, _ := Split(tok)
	var m Map
	must(json.Unmarshal(UnB64(h), &m))
	return m
}

// Payload decodes the payload of a compact JWS.
func Payload(tok string) Map {
	_, p, _ := Split(tok)
	var m Map
	must(json.Unmarshal(UnB64(p), &m))
	return m
}

const b64Alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

// Tamper alters a compact JWS in a way which changes the decoded header,
// payload or signature bytes, or the structure; it says how.
func Tamper(t *rapid.T, tok string) (string, string) {
	h, p, s := Split(tok)
	flip := func(seg string) string {
		b := UnB64(seg)
		if len(b) == 0 {
			return B64([]byte{1})
		}
		i := Int(t, "tamper_at", 0, len(b)-1)
		b[i] ^= 1 << Int(t, "tamper_bit", 0, 7)
		return B64(b)
	}
	switch Int(t, "tamper", 0, 10) {
	case 0:
		return flip(h) + "." + p + "." + s, "header bit"
	case 1:
		return h + "." + flip(p) + "." + s, "payload bit"
	case 2:
		return h + "." + p + "." + flip(s), "signature bit"
	case 3:
		b := append(UnB64(s), 0)
		if len(b) > 1 {
			b = b[:len(b)-1]
		}
		return h + "." + p + "." + B64(b[:Int(t, "tamper_len", 0, len(b)-1)]), "signature truncated"
	case 4:
		return h + "." + p + "." + B64(append(UnB64(s), byte(Int(t, "tamper_ext", 0, 255)))), "signature extended"
	case 5:
		return h + "." + B64(append([]byte(" "), UnB64(p)...)) + "." + s, "payload prefixed"
	case 6:
		return h + "." + p, "two segments"
	case 7:
		return h + "." + p + "." + s + "." + s, "four segments"
	case 8:
		return p + "." + h + "." + s, "segments swapped"
	case 9:
		end := Pick(t, "tamper_end", "=", "==", ".", "A=", "====", "%3D", ";", "~", "\x00")
		return tok + end, strconv.Quote(end) + " appended"
	default:
		return h + "." + p + "." + B64(make([]byte, max(1, len(UnB64(s))))), "zero signature"
	}
}

// Other returns a key of the same algorithm which differs from k.
func (k *Key) Other() *Key {
	for i := 0; ; i++ {
		o := GetKey(k.Alg, i)
		if string(JSON(o.PubJWK(""))) != string(JSON(k.PubJWK(""))) {
			return o
		}
	}
}

// AnyKey draws a pooled key.
func AnyKey(t *rapid.T, label string) *Key {
	return GetKey(Pick(t, label, SigAlgs...), Int(t, label+"_n", 0, 2))
}

// Without lists the algorithms of SigAlgs except one.
func Without(alg jose.SignatureAlgorithm) []jose.SignatureAlgorithm {
	var out []jose.SignatureAlgorithm
	for _, a := range SigAlgs {
		if a != alg {
			out = append(out, a)
		}
	}
	return out
}

// Forge returns a token which claims to be k's without being signed by it, and
// how it was made.
func Forge(t *rapid.T, k *Key, header Map, payload []byte) (string, string) {
	switch Int(t, "forge", 0, 6) {
	case 0:
		return JWS(k.Other(), header, payload), "foreign key"
	case 1:
		return JWSNone(header, payload, Pick(t, "none", "none", "None", "NONE", string(k.Alg), "")), "unsigned"
	case 2:
		return JWSMac(t, k, header, payload), "mac"
	case 3: // a foreign key which is embedded
		o := k.Other()
		h := Map{}
		for n, v := range header {
			h[n] = v
		}
		// under the name of a registered key, perhaps
		pub := o.PubJWK(Pick(t, "embedded_kid", "", "k0", "k1", "k2", "k", "a", "b"))
		h["jwk"] = AsMap(&pub)
		return JWS(o, h, payload), "embedded foreign key"
	case 4: // signature of another payload
		a, _, s := Split(JWS(k, header, append([]byte(" "), payload...)))
		return a + "." + B64(payload) + "." + s, "signature of another payload"
	case 5: // JSON serialization, signed twice: foreign signature and genuine one over something else
		a, p, s := Split(JWS(k.Other(), header, payload))
		a2, _, s2 := Split(JWS(k, header, []byte("{}")))
		return string(JSON(Map{"payload": p, "signatures": []Map{{"protected": a, "signature": s}, {"protected": a2, "signature": s2}}})), "json, two signatures"
	default:
		tok, how := Tamper(t, JWS(k, header, payload))
		return tok, how
	}
}

// Far draws an instant which is out of reach: in milliseconds, or next to the
// limits of the integer types.
func Far(t *rapid.T, label string, now int64) uint64 {
	return Pick(t, label, uint64(now)*1000, 1<<32, 1<<53, 1<<62, 1<<63-1, 1<<63, 1<<63+1, 1<<64-1)
}
