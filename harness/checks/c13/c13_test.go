package c13

import (
	"context"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"fmt"
	"math"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"pgregory.net/rapid"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage/inmemory"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

var methods = []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "CONNECT"}

// thumbprint is RFC 7638 computed from the key itself.
func thumbprint(k *fx.Key) string {
	var s string
	switch p := k.Pub.(type) {
	case *ecdsa.PublicKey:
		n := (p.Curve.Params().BitSize + 7) / 8
		x, y := make([]byte, n), make([]byte, n)
		p.X.FillBytes(x)
		p.Y.FillBytes(y)
		s = fmt.Sprintf(`{"crv":"%s","kty":"EC","x":"%s","y":"%s"}`, p.Curve.Params().Name, fx.B64(x), fx.B64(y))
	case ed25519.PublicKey:
		s = fmt.Sprintf(`{"crv":"Ed25519","kty":"OKP","x":"%s"}`, fx.B64(p))
	case *rsa.PublicKey:
		s = fmt.Sprintf(`{"e":"%s","kty":"RSA","n":"%s"}`, fx.B64(big.NewInt(int64(p.E)).Bytes()), fx.B64(p.N.Bytes()))
	}
	h := sha256.Sum256([]byte(s))
	return fx.B64(h[:])
}

func hash(v string) string {
	h := sha256.Sum256([]byte(v))
	return fx.B64(h[:])
}

// link draws an absolute URL without query and fragment.
func link(t *rapid.T, label string) string {
	u := fx.Pick(t, label+"_scheme", "https", "http") + "://" + fx.Pick(t, label+"_host", "as.example.com", "127.0.0.1", "[::1]", "a", "api.example")
	if rapid.Bool().Draw(t, label+"_p") {
		u += fmt.Sprintf(":%d", fx.Int(t, label+"_port", 1, 65535))
	}
	for i := fx.Int(t, label+"_n", 0, 3); i > 0; i-- {
		u += "/" + strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"a", "Z", "0", "-", ".", "_", "~", "token", "%2F", "%20", "%C3%A9", "%3F", "%25", "@", ":", "+", ",", ";", "="}), 0, 5).Draw(t, label+"_seg"), "")
	}
	return u
}

func verifierOf(t *rapid.T, algs []jose.SignatureAlgorithm) token.Verifier {
	if rapid.Bool().Draw(t, "default_verifier") {
		return jwt.DefaultVerifier(fx.SetProvider(), algs)
	}
	return jwt.EmbeddedKeyVerifier(algs)
}

func key(t *rapid.T, label string) *fx.Key {
	return fx.GetKey(fx.Pick(t, label, fx.SigAlgs...), fx.Int(t, label+"_n", 0, 2))
}

func otherKey(t *rapid.T, label string, k *fx.Key) *fx.Key {
	for i := 0; ; i++ {
		o := fx.GetKey(k.Alg, i)
		if !reflect.DeepEqual(o.Pub, k.Pub) {
			return o
		}
	}
}

func refused(c *hx.Case, what, jkt string, err error) {
	if err == nil {
		c.Fatalf("accepted: %s", what)
	}
	if jkt != "" {
		c.Fatalf("refused with a confirmation %q: %s", jkt, what)
	}
}

func TestC13(t *testing.T) {
	s := hx.New(t, "C13", "DPoP proofs of all key types: built by the prover and inspected, altered or checked against the same and other requests; and hand-built JWS with a drawn set of deviations (typ, algorithm, embedded key, signature, method, URL, time offset, token hash, key confirmation, request) on a fake clock, accepted exactly when there is no deviation. The thumbprint is recomputed independently. Non-trivial: every proof that reached a decision, identified by its deviations, key algorithm, method, URL and time offset.",
		"times strictly between 15 and 16 seconds from now are not asserted", "proofs without identifier and key confirmations without token are not exercised", "request URLs are canonical (as the prover writes them)")

	s.Prop("prover", 1500, func(c *hx.Case) {
		k := key(c.T, "key")
		m := fx.Pick(c.T, "method", methods...)
		clean := link(c.T, "url")
		full := clean
		if rapid.Bool().Draw(c.T, "query") {
			full += "?" + fx.Pick(c.T, "queryv", "a=b", "x=%20&y=/", "", "u=https://x/y")
		}
		if rapid.Bool().Draw(c.T, "fragment") {
			full += "#" + fx.Pick(c.T, "fragmentv", "frag", "", "a?b")
		}
		var popts, vopts []dpop.Option
		tok := ""
		if rapid.Bool().Draw(c.T, "token") {
			tok = fx.Str(c.T, "tokenv", fx.Alnum+".-_", 1, 60)
			popts = append(popts, dpop.WithTokenValue(tok))
			vopts = append(vopts, dpop.WithTokenValue(tok))
			if rapid.Bool().Draw(c.T, "cnf") {
				vopts = append(vopts, dpop.WithTokenConfirmation(thumbprint(k)))
			}
		}
		st := inmemory.DPoPProofs()
		c.Bubble(func() {
			time.Sleep(time.Duration(fx.Int(c.T, "start", 0, 5000)) * time.Millisecond)
			now := time.Now()
			p := dpop.DefaultProver(jwt.DPoPSigner(k.Alg, fx.Provider(k.JWK("k"))))
			proof, err := p.Prove(m, full, popts...)
			if err != nil {
				c.Fatalf("prove %s %s: %v", m, full, err)
			}
			h, pl := fx.Header(proof), fx.Payload(proof)
			if h["typ"] != "dpop+jwt" || h["alg"] != string(k.Alg) {
				c.Fatalf("header %v", h)
			}
			emb, _ := h["jwk"].(map[string]any)
			for _, private := range []string{"d", "p", "q", "dp", "dq", "qi", "k"} {
				if _, ok := emb[private]; ok {
					c.Fatalf("the embedded key discloses %q", private)
				}
			}
			if pl["htm"] != m || pl["htu"] != clean || pl["iat"] != float64(now.Unix()) {
				c.Fatalf("claims %v for %s %s at %d", pl, m, full, now.Unix())
			}
			if jti, _ := pl["jti"].(string); len(jti) < 16 {
				c.Fatalf("short identifier %v", pl)
			}
			if a, ok := pl["ath"]; ok != (tok != "") || (ok && a != hash(tok)) {
				c.Fatalf("token hash %v of token %q", a, tok)
			}
			v := dpop.DefaultVerifier(st, verifierOf(c.T, fx.SigAlgs))
			if rapid.Bool().Draw(c.T, "alter") {
				bad, how := fx.Tamper(c.T, proof)
				jkt, err := v.Verify(bg, m, clean, bad, vopts...)
				refused(c, how+" altered", jkt, err)
				c.Hit("altered %s", how)
			}
			time.Sleep(time.Duration(fx.Int(c.T, "wait", 0, 14000)) * time.Millisecond)
			jkt, err := v.Verify(bg, m, clean, proof, vopts...)
			if err != nil {
				c.Fatalf("proof of %s %s refused for %s: %v", m, full, clean, err)
			}
			if jkt != thumbprint(k) {
				c.Fatalf("confirmation %q, thumbprint of the key %q", jkt, thumbprint(k))
			}
			c.NonTrivial("%s %s %s token=%v", k.Alg, m, full, tok != "")
			c.Hit("%s", k.Alg)
		})
	})

	s.Prop("prover_inputs", 500, func(c *hx.Case) {
		k := fx.GetKey(jose.ES256, 0)
		p := dpop.DefaultProver(jwt.DPoPSigner(k.Alg, fx.Provider(k.JWK("k"))))
		m, u := "GET", "https://as.example.com/a"
		switch what := fx.Int(c.T, "what", 0, 5); what {
		case 0:
			m = ""
		case 1:
			m = fx.Pick(c.T, "m", "FOO", "GETT", " GET", "GET ", "-", "POST,GET")
		case 2:
			u = ""
		case 3:
			u = fx.Pick(c.T, "u", "not a url", "as.example.com/a", "://x", "http://[::1", "%", "https://a/%zz", "https://a\x7f/")
		case 4:
			k2 := k.JWK("k")
			k2.KeyID = ""
			p = dpop.DefaultProver(jwt.DPoPSigner(k.Alg, fx.Provider(k2)))
		case 5:
			p = dpop.DefaultProver(jwt.DPoPSigner(k.Alg, fx.Provider(nil)))
		}
		proof, err := p.Prove(m, u)
		if err == nil || proof != "" {
			c.Fatalf("%q %q proved: %q, %v", m, u, proof, err)
		}
		c.NonTrivial("%q %q", m, u)
	})

	deviations := []string{"typ", "alg", "no jwk", "other jwk", "private jwk", "mac", "none", "signature", "tamper", "htm", "htu", "iat", "ath", "cnf", "request method", "request url", "oct jwk"}
	s.Prop("acceptance", 9000, func(c *hx.Case) {
		k := key(c.T, "key")
		other := otherKey(c.T, "other", k)
		want := map[string]bool{}
		for i := fx.Pick(c.T, "deviations", 0, 0, 1, 1, 1, 2); i > 0; i-- {
			want[fx.Pick(c.T, "deviation", deviations...)] = true
		}
		has := func(d string) bool { return want[d] }
		m, u := fx.Pick(c.T, "method", methods...), link(c.T, "url")
		withToken := has("ath") || has("cnf") || rapid.Bool().Draw(c.T, "token")
		tok := fx.Str(c.T, "tokenv", fx.Alnum+".-_", fx.Pick(c.T, "least", 0, 1, 20), fx.Pick(c.T, "most", 20, 60, 400))
		st := inmemory.DPoPProofs()
		c.Bubble(func() {
			time.Sleep(time.Duration(fx.Int(c.T, "start", 0, 3)*1000+fx.Pick(c.T, "frac", 0, 0, 1, 500, 999)) * time.Millisecond)
			now := time.Now()
			frac := now.Nanosecond() != 0
			// time offset
			off := fx.Pick(c.T, "off", 0, 0, 1, -1, 14, -14, -13, 13, 7, -7)
			if !frac {
				off = fx.Pick(c.T, "off0", off, off, 15, -15)
			}
			var iat any = now.Unix() + int64(off)
			if has("iat") {
				iat = fx.Pick(c.T, "badiat", any(now.Unix()-17), any(now.Unix()+17), any(now.Unix()-60), any(now.Unix()+60), any(now.Unix()-3600), any(now.Unix()+3600),
					any(now.Unix()+86400*365), any(0), any(1), any(-1), any(-now.Unix()), any("now"), any(nil), any(fmt.Sprint(now.Unix())), any(uint64(math.MaxUint64)), any(uint64(math.MaxInt64)), any(now.UnixMilli()), any(true),
					any(now.Unix()-16), any(now.Unix()+16))
				if !frac {
					iat = fx.Pick(c.T, "badiat0", iat, any(now.Unix()-16), any(now.Unix()+16))
				} else if iat == any(now.Unix()-16) {
					iat = now.Unix() - 17
				}
			}
			claims := fx.Map{"jti": "jti-" + fx.Str(c.T, "jti", fx.Alnum, 1, 20), "htm": m, "htu": u}
			if iat != nil {
				claims["iat"] = iat
			}
			if withToken {
				claims["ath"] = hash(tok)
			} else if rapid.Bool().Draw(c.T, "needless_ath") {
				claims["ath"] = hash("whatever")
			}
			if rapid.Bool().Draw(c.T, "extra") {
				claims[fx.Pick(c.T, "extran", "nonce", "exp", "nbf", "aud", "x")] = 1
			}
			if has("ath") {
				switch fx.Int(c.T, "badath", 0, 6) {
				case 6: // of a token which differs only slightly
					claims["ath"] = hash(fx.Pick(c.T, "athof", " "+tok, tok+" ", tok+"\n", "\t"+tok, strings.ToUpper(tok)+"~", "Bearer "+tok, "DPoP "+tok, tok+"\x00", tok+"="))
				case 0:
					delete(claims, "ath")
				case 1:
					claims["ath"] = hash(tok + "x")
				case 2:
					claims["ath"] = tok
				case 3:
					claims["ath"] = ""
				case 4:
					claims["ath"] = fx.Mutate(c.T, "athm", hash(tok))
				case 5:
					claims["ath"] = nil
				}
			}
			if has("htm") {
				switch fx.Int(c.T, "badhtm", 0, 3) {
				case 0:
					claims["htm"] = strings.ToLower(m)
				case 1:
					delete(claims, "htm")
				case 2:
					claims["htm"] = fx.Mutate(c.T, "htmm", m)
				case 3:
					for _, o := range methods {
						if o != m {
							claims["htm"] = o
							break
						}
					}
				}
			}
			if has("htu") {
				switch fx.Int(c.T, "badhtu", 0, 4) {
				case 0:
					delete(claims, "htu")
				case 1:
					claims["htu"] = fx.Mutate(c.T, "htum", u)
				case 2:
					claims["htu"] = u + fx.Pick(c.T, "htus", "/", "?", "#", "?a=b", "/x", "%2F")
				case 3:
					claims["htu"] = strings.Replace(u, "://", "://x.", 1)
				case 4:
					if strings.HasPrefix(u, "https:") {
						claims["htu"] = "http:" + u[6:]
					} else {
						claims["htu"] = "https:" + u[5:]
					}
				}
			}
			pub := k.PubJWK("")
			emb := fx.AsMap(&pub)
			for _, opt := range []string{"alg", "use"} {
				if rapid.Bool().Draw(c.T, "no_"+opt) {
					delete(emb, opt)
				}
			}
			if rapid.Bool().Draw(c.T, "kid") {
				emb["kid"] = "some-key"
			}
			header := fx.Map{"typ": "dpop+jwt", "alg": string(k.Alg), "jwk": emb}
			if rapid.Bool().Draw(c.T, "header_kid") {
				header["kid"] = "x"
			}
			if has("typ") {
				if v := fx.Pick(c.T, "badtyp", any("JWT"), any("at+jwt"), any("dpop"), any("DPOP+JWT"), any("dpop+jwt "), any("application/dpop+jwt"), any(""), any(nil), any(1), any("client-assertion+jwt"), any("dpop+cwt"), any("dpop-v2+jwt"), any("dpopx+jwt"), any("dpop+x+jwt"), any("Dpop+jwt"), any(" dpop+jwt"), any("dpop+jwts")); v != nil {
					header["typ"] = v
				} else {
					delete(header, "typ")
				}
			}
			allowed := fx.SigAlgs
			if has("alg") {
				allowed = nil
				for _, a := range fx.SigAlgs {
					if a != k.Alg {
						allowed = append(allowed, a)
					}
				}
			}
			signer := k
			oct := false
			switch {
			case has("no jwk"):
				delete(header, "jwk")
				if rapid.Bool().Draw(c.T, "nulljwk") {
					header["jwk"] = nil
				}
			case has("other jwk"):
				o := other.PubJWK("")
				header["jwk"] = fx.AsMap(&o)
			case has("private jwk"):
				header["jwk"] = fx.AsMap(k.JWK(""))
			case has("oct jwk"):
				header["jwk"] = fx.Map{"kty": "oct", "k": fx.B64([]byte("0123456789abcdef0123456789abcdef"))}
				oct = true
			}
			proof := ""
			switch {
			case has("mac"):
				proof = fx.JWSMac(c.T, k, header, fx.JSON(claims))
			case has("none"):
				proof = fx.JWSNone(header, fx.JSON(claims), fx.Pick(c.T, "none", "none", "None", string(k.Alg), ""))
			case has("signature"):
				proof = fx.JWS(otherKey(c.T, "foreign", k), header, fx.JSON(claims))
				if has("other jwk") { // then the embedded key would be right
					proof = fx.JWS(signer, header, fx.JSON(claims))
				}
			default:
				proof = fx.JWS(signer, header, fx.JSON(claims))
			}
			if has("tamper") && strings.Count(proof, ".") == 2 {
				proof, _ = fx.Tamper(c.T, proof)
			} else {
				delete(want, "tamper")
			}
			_ = oct
			rm, ru := m, u
			if has("request method") {
				rm = fx.Pick(c.T, "reqm", strings.ToLower(m), "", "FOO", m+" ", "G"+m, methods[(indexOf(m)+1)%len(methods)])
				if rm == m {
					rm = ""
				}
				if claims["htm"] == rm {
					delete(want, "request method")
					delete(want, "htm")
					if rm != strings.ToUpper(rm) || rm == "" || indexOf(rm) < 0 {
						return // whether a lower-case method is a method is unspecified
					}
				}
			}
			if has("request url") {
				ru = fx.Pick(c.T, "requ", "", "not a url", u+"/", u+"?a=b", u+"/x", strings.Replace(u, "://", "://x.", 1), fx.Mutate(c.T, "requm", u), "/relative")
			}
			if cu, ok := claims["htu"].(string); ok && (has("htu") || has("request url")) && sameURL(cu, ru) {
				return
			}
			var opts []dpop.Option
			if withToken {
				presented := tok
				if has("ath") && rapid.Bool().Draw(c.T, "spelled") { // the proof is for the token, the request carries one alike
					claims["ath"] = hash(tok)
					presented = fx.Pick(c.T, "spelling", tok+" ", " "+tok, "\t"+tok, tok+"\n", tok+"=", tok+"\x00", tok+".", "Bearer "+tok)
					if !has("tamper") {
						proof = fx.JWS(signer, header, fx.JSON(claims))
					}
				}
				opts = append(opts, dpop.WithTokenValue(presented))
				switch {
				case has("cnf"):
					opts = append(opts, dpop.WithTokenConfirmation(fx.Pick(c.T, "badcnf", thumbprint(other), "", fx.Mutate(c.T, "cnfm", thumbprint(k)), hash(tok))))
				case rapid.Bool().Draw(c.T, "cnf"):
					opts = append(opts, dpop.WithTokenConfirmation(thumbprint(k)))
				}
			}
			v := dpop.DefaultVerifier(st, verifierOf(c.T, allowed))
			c.Step()
			jkt, err := v.Verify(bg, rm, ru, proof, opts...)
			what := fmt.Sprintf("deviations %v, %s %s (header %v, claims %v)", want, rm, ru, header, claims)
			if len(want) > 0 {
				refused(c, what, jkt, err)
				c.Hit("deviations=%d", len(want))
			} else {
				if err != nil {
					c.Fatalf("refused: %s at %s: %v", what, now, err)
				}
				if jkt != thumbprint(k) {
					c.Fatalf("confirmation %q, thumbprint of the key %q", jkt, thumbprint(k))
				}
				c.Hit("accepted")
			}
			for d := range want {
				c.Hit("deviation %s", d)
			}
			c.NonTrivial("%v %s %s %s off=%d token=%v", want, k.Alg, m, u, off, withToken)
		})
	})

	// The URL the server sees is the URL the client called.
	s.Prop("server_url", 1500, func(c *hx.Case) {
		k := fx.GetKey(jose.ES256, 0)
		u := link(c.T, "url")
		if rest := u[strings.Index(u, "://")+3:]; !strings.Contains(rest, "/") {
			u += "/"
		}
		full := u + fx.Pick(c.T, "query", "", "?a=b", "?x=/y")
		m := fx.Pick(c.T, "method", "GET", "POST", "PUT")
		r := httptest.NewRequest(m, full, nil)
		// what a server has: the path in the request line, the host in a header
		seen := &http.Request{Method: m, URL: r.URL, Host: r.Host, Header: http.Header{}}
		seen.URL.Scheme, seen.URL.Host = "", ""
		https := strings.HasPrefix(u, "https:")
		if https {
			if rapid.Bool().Draw(c.T, "proxied") {
				seen.Header.Set("X-Forwarded-Scheme", "https")
			} else {
				seen.TLS = &tls.ConnectionState{}
			}
		} else if rapid.Bool().Draw(c.T, "stripped") {
			seen.TLS = &tls.ConnectionState{}
			seen.Header.Set("X-Forwarded-Scheme", "http")
		}
		proof, err := dpop.DefaultProver(jwt.DPoPSigner(k.Alg, fx.Provider(k.JWK("k")))).Prove(m, full)
		if err != nil {
			c.Fatalf("prove: %v", err)
		}
		v := dpop.DefaultVerifier(inmemory.DPoPProofs(), jwt.EmbeddedKeyVerifier(fx.SigAlgs))
		got := dpop.CleanURL(seen)
		if jkt, err := v.Verify(bg, m, got, proof); err != nil || jkt != thumbprint(k) {
			c.Fatalf("the client calls %s, the server checks %s: %q, %v", full, got, jkt, err)
		}
		c.NonTrivial("%s", full)
	})

	// Arbitrary bytes never crash the verifier.
	s.Prop("garbage", 3000, func(c *hx.Case) {
		k := fx.GetKey(jose.ES256, 0)
		v := dpop.DefaultVerifier(inmemory.DPoPProofs(), verifierOf(c.T, fx.SigAlgs))
		proof := ""
		switch fx.Int(c.T, "kind", 0, 3) {
		case 0:
			proof = rapid.String().Draw(c.T, "s")
		case 1:
			proof = fx.Str(c.T, "dots", fx.Alnum+"..-_=", 0, 80)
		case 2: // well-signed nonsense
			pub := k.PubJWK("")
			h := fx.Map{"typ": fx.Pick(c.T, "typ", any("dpop+jwt"), any(nil), any([]int{1}), any(fx.Map{})), "alg": "ES256", "jwk": fx.AsMap(&pub)}
			p := fx.Pick(c.T, "payload", "null", "[]", "1", `"x"`, "{}", `{"jti":1}`, `{"htm":[]}`, `{"iat":1e400}`, "", "{", `{"ath":{}}`)
			proof = fx.JWS(k, h, []byte(p))
		case 3:
			h := fx.Map{"typ": "dpop+jwt", "alg": "ES256", "jwk": fx.Pick(c.T, "jwk", any(nil), any("x"), any(fx.Map{}), any(fx.Map{"kty": "EC"}), any(fx.Map{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}), any(fx.Map{"kty": "OKP", "crv": "Ed25519", "x": ""}), any([]any{}), any(fx.Map{"kty": "RSA", "n": "", "e": ""}), any(fx.Map{"kty": "oct", "k": ""}))}
			proof = fx.JWS(k, h, fx.JSON(fx.Map{"jti": "x", "htm": "GET", "htu": "https://a/", "iat": time.Now().Unix()}))
		}
		jkt, err := v.Verify(bg, "GET", "https://a/", proof)
		refused(c, proof, jkt, err)
		c.NonTrivial("%s", proof)
	})
}

// sameURL is true for two spellings of one URL (letter case of scheme and host,
// needless percent-encoding), which nothing is asserted about.
func sameURL(a, b string) bool {
	x, err1 := url.Parse(a)
	y, err2 := url.Parse(b)
	if err1 != nil || err2 != nil {
		return a == b
	}
	x.Host, y.Host = strings.ToLower(x.Host), strings.ToLower(y.Host)
	return x.String() == y.String()
}

func indexOf(m string) int {
	for i, x := range methods {
		if x == m {
			return i
		}
	}
	return -1
}
