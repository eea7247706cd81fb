package c22

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"regexp"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/pkce"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var (
	bg            = context.Background()
	unreserved    = regexp.MustCompile(`^[A-Za-z0-9._~-]+$`)
	badChallenge  = regexp.MustCompile(`[^A-Za-z0-9_\r\n-]`)
	goodVerifier  = regexp.MustCompile(`^[A-Za-z0-9._~-]{43,128}$`)
	goodChallenge = regexp.MustCompile(`^[A-Za-z0-9_-]{43}$`)
)

// pair draws a challenge and a verifier which mostly relate.
func pair(t *rapid.T) (challenge, verifier, how string) {
	verifier = fx.Verifier(t, "verifier")
	challenge = fx.Challenge(verifier)
	sum := sha256.Sum256([]byte(verifier))
	switch fx.Int(t, "relation", 0, 16) {
	case 0, 1:
		return challenge, verifier, "genuine"
	case 2:
		return verifier, verifier, "plain"
	case 3:
		return challenge, challenge, "challenge as verifier"
	case 4:
		return challenge, fx.Mutate(t, "v", verifier), "mutated verifier"
	case 5:
		return fx.Mutate(t, "c", challenge), verifier, "mutated challenge"
	case 6:
		b := []byte(verifier)
		b[fx.Int(t, "at", 0, len(b)-1)] = fx.Pick[byte](t, "to", 'a', 'b', '-', '.', '~', '_', '9', 'Z')
		return challenge, string(b), "one character of the verifier"
	case 7:
		sum[fx.Int(t, "at", 0, 31)] ^= 1 << fx.Int(t, "bit", 0, 7)
		return fx.B64(sum[:]), verifier, "one bit of the challenge"
	case 8:
		return base64.URLEncoding.EncodeToString(sum[:]), verifier, "padded challenge"
	case 9:
		return base64.RawStdEncoding.EncodeToString(sum[:]), verifier, "standard base64"
	case 10:
		return fmt.Sprintf("%x", sum), verifier, "hexadecimal challenge"
	case 11: // hash of the decoded verifier
		verifier = fx.Str(t, "b64verifier", fx.Alnum+"-_", 44, 44)
		raw, err := base64.RawURLEncoding.DecodeString(verifier)
		if err != nil {
			raw = []byte(verifier)
			return fx.Challenge("x" + string(raw)), verifier, "hash of something else"
		}
		h := sha256.Sum256(raw)
		return fx.B64(h[:]), verifier, "hash of the decoded verifier"
	case 12: // same challenge but for trailing bits
		const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		i := strings.IndexByte(abc, challenge[42])
		return challenge[:42] + string(abc[i|fx.Int(t, "low", 1, 3)]), verifier, "non-canonical challenge"
	case 13:
		return fx.Pick(t, "emptyc", "", challenge), fx.Pick(t, "emptyv", "", " "), "empty"
	case 14:
		return challenge, verifier[:fx.Int(t, "cut", 0, len(verifier)-1)], "truncated verifier"
	case 15:
		return challenge[:fx.Int(t, "cut", 0, len(challenge)-1)], verifier, "truncated challenge"
	default:
		return rapid.String().Draw(t, "c"), rapid.String().Draw(t, "v"), "arbitrary"
	}
}

func TestC22(t *testing.T) {
	s := hx.New(t, "C22", "generated PKCE pairs (form, independence, and acceptance) and drawn challenge/verifier pairs (genuine, plain, swapped, mutated in one character or bit, other encodings and hashes, truncated, arbitrary), decided by a SHA-256 oracle; pairs generated by eight goroutines at once, under the race detector; for well-sized values the token endpoint, on a code issued for the challenge, must answer like the library. Non-trivial: every decision, identified by challenge and verifier.",
		"a matching verifier outside 43..128 characters may be accepted or refused")

	s.Prop("validate", 25000, func(c *hx.Case) {
		challenge, verifier, how := pair(c.T)
		ok, err := pkce.Validate(challenge, verifier)
		match := challenge == fx.Challenge(verifier) && unreserved.MatchString(verifier)
		what := fmt.Sprintf("Validate(%q, %q) [%s] = %v, %v", challenge, verifier, how, ok, err)
		switch {
		case !match && ok:
			c.Fatalf("%s", what)
		case err != nil && ok:
			c.Fatalf("%s", what)
		case match && goodVerifier.MatchString(verifier) && (!ok || err != nil):
			c.Fatalf("%s", what)
		case err == nil && (challenge == "" || verifier == "" || badChallenge.MatchString(challenge) || !unreserved.MatchString(verifier)):
			c.Fatalf("%s: malformed value without an error", what)
		}
		c.Hit("%s %v", how, ok)
		c.NonTrivial("%v %s %q %q", ok, how, challenge, verifier)
	})

	s.Prop("generated", 3000, func(c *hx.Case) {
		_ = fx.Int(c.T, "nothing", 0, 1)
		v, ch, err := pkce.CodeVerifier()
		if err != nil || !goodVerifier.MatchString(v) || !goodChallenge.MatchString(ch) || ch != fx.Challenge(v) {
			c.Fatalf("pair %q, %q (%v)", v, ch, err)
		}
		if ok, err := pkce.Validate(ch, v); !ok || err != nil {
			c.Fatalf("Validate(%q, %q) = %v, %v", ch, v, ok, err)
		}
		v2, ch2, err := pkce.CodeVerifier()
		if err != nil || v2 == v || ch2 == ch {
			c.Fatalf("pairs repeat: %q, %q (%v)", v, v2, err)
		}
		if ok, _ := pkce.Validate(ch2, v); ok {
			c.Fatalf("Validate(%q, %q) accepts a foreign verifier", ch2, v)
		}
		// no part of a verifier repeats in it (each has 48 bits)
		for i := 0; i+8 <= len(v); i += 8 {
			for _, o := range []string{v[i+8:], v2} {
				if strings.Contains(o, v[i:i+8]) {
					c.Fatalf("part %q of the verifier %q occurs again in %q", v[i:i+8], v, o)
				}
			}
		}
		if raw, err := base64.RawURLEncoding.DecodeString(v); err == nil {
			for i := 0; i+12 <= len(raw); i += 6 {
				if bytes.Contains(raw[i+6:], raw[i:i+6]) {
					c.Fatalf("part %x of the verifier %q occurs again in it", raw[i:i+6], v)
				}
			}
		}
		c.NonTrivial("%s", v)
	})

	s.Prop("endpoint", 3000, func(c *hx.Case) {
		challenge, verifier, how := pair(c.T)
		if !goodChallenge.MatchString(challenge) || !goodVerifier.MatchString(verifier) {
			return
		}
		cl := fx.FullClient("client", "https://client.example/cb")
		w := fx.NewWorld(cl)
		iss := "https://op.example"
		req := fx.ValidRequest(c.T, "req", "client", "https://client.example/cb", verifier)
		req.CodeChallenge = challenge
		res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "user", Client: &clientv1.Client{ClientId: "client"}, Request: req})
		if err != nil {
			c.Fatalf("authorize: %v", err)
		}
		tr, terr := w.Redeem(iss, "client", res.Code, "https://client.example/cb", verifier, nil)
		ok, _ := pkce.Validate(challenge, verifier)
		if ok != (terr == nil && tr.AccessToken != nil) {
			c.Fatalf("%s: Validate(%q, %q) = %v, token endpoint: %v", how, challenge, verifier, ok, terr)
		}
		c.Hit("%s %v", how, ok)
		c.NonTrivial("%v %s %q %q", ok, how, challenge, verifier)
	})

	// Pairs generated at the same time are as good as any.
	s.Direct("concurrent", func(t *testing.T) int {
		const workers, each = 8, 5000
		type pairs [each][2]string
		var out [workers]pairs
		var errs [workers]error
		var wg sync.WaitGroup
		for w := range workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range each {
					v, ch, err := pkce.CodeVerifier()
					if err != nil {
						errs[w] = err
						return
					}
					out[w][i] = [2]string{v, ch}
				}
			}()
		}
		wg.Wait()
		seen := map[string]bool{}
		for w := range workers {
			if errs[w] != nil {
				t.Fatalf("CodeVerifier: %v", errs[w])
			}
			for _, p := range out[w] {
				if !goodVerifier.MatchString(p[0]) || p[1] != fx.Challenge(p[0]) || seen[p[0]] {
					t.Fatalf("pair generated concurrently: %q", p)
				}
				seen[p[0]] = true
			}
		}
		return workers * each
	})

	s.Direct("distinct", func(t *testing.T) int {
		n := 20000
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			v, ch, err := pkce.CodeVerifier()
			if err != nil || seen[v] || seen[ch] || seen[v[:16]] || seen[v[len(v)-16:]] {
				t.Fatalf("pair %d repeats: %q (%v)", i, v, err)
			}
			seen[v], seen[ch], seen[v[:16]], seen[v[len(v)-16:]] = true, true, true, true
		}
		return n
	})
}
