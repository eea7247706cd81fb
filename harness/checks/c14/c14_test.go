package c14

import (
	"context"
	"fmt"
	"math"
	"slices"
	"strings"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"pgregory.net/rapid"

	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage/inmemory"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

type proof struct {
	value, jti, method, url string
	iat                     time.Time
	accepted                bool
	burnt                   bool // presented with a wrong token: what follows is unspecified
	token                   string
	far                     bool // issued in a remote past or future
}

func TestC14(t *testing.T) {
	s := hx.New(t, "C14", "rapid state machine on a fake clock: proofs issued now, in the past or in the future (some sharing an identifier), legitimate presentations, replays (at another verifier on the same cache, byte-identical), presentations for a wrong method or URL, altered copies and clock advances of parts of seconds to minutes, against a model of accepted proofs and times. Non-trivial: a history with an acceptance, a refused replay and an advance; identified by its operations.",
		"times strictly between 15 and 16 seconds from now are not asserted", "reuse of an identifier more than 30 seconds after its acceptance is not asserted", "a proof presented with a wrong access token may or may not be usable afterwards")

	s.Prop("history", 5000, func(c *hx.Case) {
		st := inmemory.DPoPProofs()
		verifiers := []dpop.Verifier{dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(fx.SigAlgs)), dpop.DefaultVerifier(st, jwt.DefaultVerifier(fx.SetProvider(), fx.SigAlgs))}
		var all []*proof
		last := map[string]time.Time{} // last acceptance of an identifier
		var log []string
		accepted, replays, advances, harmless := 0, 0, 0, 0
		methods, urls := []string{"GET", "POST"}, []string{"https://as.example.com/token", "https://as.example.com/par", "https://as.example.com/token/"}
		c.Bubble(func() {
			present := func(t *rapid.T, p *proof, m, u, value string, opts ...dpop.Option) (string, error) {
				c.Step()
				jkt, err := fx.Pick(t, "verifier", verifiers...).Verify(bg, m, u, value, opts...)
				if (err == nil) != (jkt != "") {
					c.Fatalf("confirmation %q with error %v", jkt, err)
				}
				return jkt, err
			}
			good := func(t *rapid.T, p *proof) {
				var opts []dpop.Option
				if p.token != "" {
					opts = append(opts, dpop.WithTokenValue(p.token))
				}
				_, err := present(t, p, p.method, p.url, p.value, opts...)
				age := time.Since(p.iat)
				at, used := last[p.jti]
				switch {
				case p.far:
					if err == nil {
						c.Fatalf("proof accepted which was issued in another age: %v", fx.Payload(p.value))
					}
				case p.accepted:
					replays++
					if err == nil {
						c.Fatalf("proof accepted twice: %+v, %s after its issue (%s)", p, age, strings.Join(log, " "))
					}
				case age >= 16*time.Second || age <= -16*time.Second:
					if err == nil {
						c.Fatalf("proof accepted %s after its issue (%s)", age, strings.Join(log, " "))
					}
				case used && time.Since(at) <= 30*time.Second:
					replays++
					if err == nil {
						c.Fatalf("identifier %s accepted again after %s (%s)", p.jti, time.Since(at), strings.Join(log, " "))
					}
				case used || p.burnt:
				case age > 15*time.Second || age < -15*time.Second:
				default:
					if err != nil {
						c.Fatalf("fresh proof refused %s after its issue: %v (%s)", age, err, strings.Join(log, " "))
					}
				}
				if err == nil {
					accepted++
					p.accepted = true
					last[p.jti] = time.Now()
				}
			}
			some := func(t *rapid.T) *proof { return all[len(all)-1-fx.Int(t, "which", 0, len(all)-1)] }
			issue := func(t *rapid.T) {
				k := fx.GetKey(fx.Pick(t, "alg", jose.EdDSA, jose.ES256), fx.Int(t, "key", 0, 1))
				p := &proof{method: fx.Pick(t, "method", methods...), url: fx.Pick(t, "url", urls...)}
				if rapid.Bool().Draw(t, "prover") {
					var opts []dpop.Option
					if rapid.Bool().Draw(t, "token") {
						p.token = fx.Str(t, "tokenv", fx.Alnum, 5, 9)
						opts = append(opts, dpop.WithTokenValue(p.token))
					}
					v, err := dpop.DefaultProver(jwt.DPoPSigner(k.Alg, fx.Provider(k.JWK("k")))).Prove(p.method, p.url, opts...)
					if err != nil {
						c.Fatalf("prove: %v", err)
					}
					p.value, p.iat = v, time.Unix(time.Now().Unix(), 0)
					p.jti, _ = fx.Payload(v)["jti"].(string)
				} else {
					p.iat = time.Unix(time.Now().Unix()+int64(fx.Pick(t, "off", 0, 0, 14, 14, -14, 10, -10, 20, -20, 40)), 0)
					p.jti = fmt.Sprintf("id-%d", len(all))
					if n := fx.Pick(t, "long", 0, 0, 32, 64, 128, 256, 1024); n > 0 { // identifiers which share a long beginning or end
						if fill := strings.Repeat("j", n); rapid.Bool().Draw(t, "begin") {
							p.jti = fill + p.jti
						} else {
							p.jti += fill
						}
					}
					if len(all) > 0 && fx.Chance(t, "sharejti", 3) {
						o := some(t)
						p.jti, p.burnt = o.jti, o.burnt
					} else if len(all) > 0 && fx.Chance(t, "alikejti", 3) { // an identifier of its own, hardly
						o := some(t)
						for p.jti = o.jti; slices.ContainsFunc(all, func(q *proof) bool { return q.jti == p.jti }); {
							p.jti = fx.Pick(t, "alike", p.jti+" ", " "+p.jti, p.jti+"\n", strings.ToUpper(p.jti), strings.ToLower(p.jti)+"-", p.jti+"=", p.jti+"\u200b", p.jti+"\x00", p.jti+"é", p.jti+"e\u0301")
						}
					}
					pub := k.PubJWK("")
					claims := fx.Map{"jti": p.jti, "htm": p.method, "htu": p.url, "iat": p.iat.Unix()}
					if fx.Chance(t, "far", 8) { // issued in a remote past or future
						p.far = true
						claims["iat"] = fx.Pick(t, "farv", any(0), any(1), any(uint64(math.MaxInt64)), any(uint64(1)<<63), any(uint64(1)<<63+uint64(p.iat.Unix())), any(uint64(math.MaxUint64)), any(uint64(math.MaxUint64)-uint64(p.iat.Unix())), any(uint64(1)<<62), any(1<<32+p.iat.Unix()), any(p.iat.UnixMilli()), any(p.iat.UnixNano()))
					}
					p.value = fx.JWS(k, fx.Map{"typ": "dpop+jwt", "alg": string(k.Alg), "jwk": fx.AsMap(&pub)}, fx.JSON(claims))
				}
				all = append(all, p)
				log = append(log, "issue")
			}
			issue(c.T)
			c.Repeat(map[string]func(*rapid.T){
				"issue": issue,
				"use": func(t *rapid.T) {
					good(t, some(t))
					log = append(log, "use")
				},
				"use_newest": func(t *rapid.T) {
					good(t, all[len(all)-1])
					log = append(log, "use")
				},
				"wrong_request": func(t *rapid.T) {
					p := some(t)
					m, u := fx.Pick(t, "m", "GET", "POST", "PUT"), fx.Pick(t, "u", append(urls, "", "x")...)
					if m == p.method && u == p.url {
						m = "DELETE"
					}
					if _, err := present(t, p, m, u, p.value); err == nil {
						c.Fatalf("proof for %s %s accepted for %s %s", p.method, p.url, m, u)
					}
					if !p.accepted {
						harmless++
					}
					log = append(log, "wrong")
				},
				"altered": func(t *rapid.T) {
					p := some(t)
					v, how := fx.Tamper(t, p.value)
					if _, err := present(t, p, p.method, p.url, v); err == nil {
						c.Fatalf("altered proof accepted (%s)", how)
					}
					log = append(log, "altered")
				},
				"wrong_token": func(t *rapid.T) {
					p := some(t)
					if _, err := present(t, p, p.method, p.url, p.value, dpop.WithTokenValue("another token")); err == nil {
						c.Fatalf("proof accepted for another token")
					}
					p.burnt = true
					for _, o := range all {
						if o.jti == p.jti {
							o.burnt = true
						}
					}
					log = append(log, "wrong-token")
				},
				"advance": func(t *rapid.T) {
					d := time.Duration(fx.Pick(t, "ms", 1, 300, 1000, 3000, 7000, 12000, 14000, 20000, 29000, 45000, 61000, 620000)) * time.Millisecond
					time.Sleep(d)
					advances++
					log = append(log, d.String())
				},
				"": func(*rapid.T) {},
			})
		})
		c.Hit("accepted=%d", min(accepted, 5))
		if harmless > 0 {
			c.Hit("wrong request before use")
		}
		if accepted > 0 && replays > 0 && advances > 0 {
			c.NonTrivial("%s", strings.Join(log, " "))
		}
	})

	// Replaying at every whole second of the window never succeeds twice.
	s.Prop("window", 600, func(c *hx.Case) {
		st := inmemory.DPoPProofs()
		v := dpop.DefaultVerifier(st, jwt.EmbeddedKeyVerifier(fx.SigAlgs))
		k := fx.GetKey(jose.EdDSA, 0)
		c.Bubble(func() {
			start := fx.Int(c.T, "ahead", -20, 20)
			iat := time.Now().Unix() + int64(start)
			pub := k.PubJWK("")
			p := fx.JWS(k, fx.Map{"typ": "dpop+jwt", "alg": "EdDSA", "jwk": fx.AsMap(&pub)}, fx.JSON(fx.Map{"jti": "one", "htm": "GET", "htu": "https://a/", "iat": iat}))
			accepted, at := 0, int64(0)
			step := fx.Pick(c.T, "step_ms", 250, 500, 1000, 3000, 7000)
			for e := 0; e < 80000; e += step {
				_, err := v.Verify(bg, "GET", "https://a/", p)
				c.Step()
				if err == nil {
					accepted++
					at = time.Now().Unix() - iat
				}
				time.Sleep(time.Duration(step) * time.Millisecond)
			}
			want := 1
			if start < -16 {
				want = 0
			}
			if start < -15 {
				want = accepted // the sixteenth second
			}
			if accepted > 1 || accepted != want || at < -15 || at > 15 {
				c.Fatalf("issued %+ds from now, presented every %dms: accepted %d times, last %ds after its issue", start, step, accepted, at)
			}
			c.NonTrivial("%+d/%d", start, step)
		})
	})
}
