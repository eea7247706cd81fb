package c12

import (
	"context"
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

const issuer = "https://as.example.com"

type counter struct {
	mu  sync.Mutex
	won []int
}

func (k *counter) win(w int) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.won = append(k.won, w)
}

// together starts n goroutines at one moment and waits for them.
func together(n int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(i)
		}()
	}
	close(start)
	wg.Wait()
}

func TestC12(t *testing.T) {
	s := hx.New(t, "C12", "(a) 2-4 requests presenting one authorization code, request_uri, DPoP proof or user code, interleaved one storage call at a time in an order drawn by rapid (gates in front of the built-in storage); (b) unconstrained parallel presentation and parallel mixed use of the stores and services under the race detector. Non-trivial: (a) a schedule in which two requests were in progress at once, identified by the schedule; (b) every contended round, identified by its parameters.",
		"schedules are explored at the granularity of storage calls in (a), of the Go scheduler in (b)", "an operation which stays silent for 150 ms after it was resumed counts as blocked and others continue")

	const redirect = "https://client.example/cb"
	verifier := "0123456789012345678901234567890123456789abcde"
	newCode := func(w *fx.World, r *flowv1.AuthorizationRequest) string {
		res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: issuer, Subject: "alice", Request: proto.Clone(r).(*flowv1.AuthorizationRequest)})
		if err != nil {
			t.Fatalf("authorize: %v", err)
		}
		return res.Code
	}

	s.Prop("code_schedules", 700, func(c *hx.Case) {
		w := fx.NewWorld(fx.FullClient("client", redirect), fx.FullClient("other", redirect))
		r := fx.ValidRequest(c.T, "r", "client", redirect, verifier)
		code := newCode(w, r)
		sc := &sched{open: make(chan struct{})}
		w.Codes, w.Tokens = codes{w.Codes, sc}, tokens{w.Tokens, sc}
		w.Wire()
		n := fx.Int(c.T, "n", 2, 4)
		wrong := fx.Int(c.T, "wrong", -2, n-1) // this one presents a wrong verifier
		var k counter
		log, overlap := sc.run(c, n, func(ctx context.Context, i int) {
			v := verifier
			if i == wrong {
				v = "x" + verifier
			}
			res, err := w.Tok.Token(ctx, &flowv1.TokenRequest{
				Issuer: issuer, Client: &clientv1.Client{ClientId: "client"}, GrantType: oidc.GrantTypeAuthorizationCode,
				Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: code, RedirectUri: redirect, CodeVerifier: v}},
			})
			if err == nil || res.GetAccessToken() != nil || res.GetRefreshToken() != nil || res.GetIdToken() != nil {
				k.win(i)
			}
		})
		if len(k.won) > 1 {
			c.Fatalf("%d of %d concurrent redemptions of one code succeed (workers %v), schedule %s", len(k.won), n, k.won, log)
		}
		c.Hit("winners=%d", len(k.won))
		if overlap {
			c.NonTrivial("n=%d wrong=%d %s", n, wrong, log)
		}
	})

	s.Prop("request_uri_schedules", 700, func(c *hx.Case) {
		w := fx.NewWorld(fx.FullClient("client", redirect))
		r := fx.ValidRequest(c.T, "r", "client", redirect, verifier)
		reg, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: issuer, Client: &clientv1.Client{ClientId: "client"}, Request: r})
		if err != nil {
			c.Fatalf("register: %v", err)
		}
		sc := &sched{open: make(chan struct{})}
		w.Reqs, w.Codes = reqs{w.Reqs, sc}, codes{w.Codes, sc}
		w.Wire()
		n := fx.Int(c.T, "n", 2, 4)
		var k counter
		log, overlap := sc.run(c, n, func(ctx context.Context, i int) {
			res, err := w.Authz.Authorize(ctx, &flowv1.AuthorizeRequest{Issuer: issuer, Subject: fmt.Sprintf("user-%d", i), Request: &flowv1.AuthorizationRequest{RequestUri: fx.Ref(reg.RequestUri)}})
			if err == nil || res.GetCode() != "" {
				k.win(i)
			}
		})
		if len(k.won) > 1 {
			c.Fatalf("%d of %d concurrent uses of one request_uri succeed, schedule %s", len(k.won), n, log)
		}
		c.Hit("winners=%d", len(k.won))
		if overlap {
			c.NonTrivial("n=%d %s", n, log)
		}
	})

	s.Prop("user_code_schedules", 700, func(c *hx.Case) {
		w := fx.NewWorld(fx.FullClient("client", redirect))
		reg, err := w.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: "client", Scope: fx.Ref("openid"), Audience: fx.Ref("a")})
		if err != nil {
			c.Fatalf("device authorization: %v", err)
		}
		sc := &sched{open: make(chan struct{})}
		w.Devices = devices{w.Devices, sc}
		w.Wire()
		n := fx.Int(c.T, "n", 2, 4)
		var k counter
		log, overlap := sc.run(c, n, func(ctx context.Context, i int) {
			if _, err := w.Dev.Validate(ctx, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: reg.UserCode, Subject: fmt.Sprintf("user-%d", i)}); err == nil {
				k.win(i)
			}
		})
		if len(k.won) > 1 {
			c.Fatalf("%d of %d concurrent approvals of one user code succeed, schedule %s", len(k.won), n, log)
		}
		c.Hit("winners=%d", len(k.won))
		if overlap {
			c.NonTrivial("n=%d %s", n, log)
		}
		if len(k.won) == 1 {
			res, err := w.Poll(issuer, "client", reg.DeviceCode)
			if err == nil && res.GetAccessToken().GetMetadata().GetSubject() != fmt.Sprintf("user-%d", k.won[0]) {
				c.Fatalf("approved by user-%d, tokens of %q, schedule %s", k.won[0], res.AccessToken.Metadata.Subject, log)
			}
		}
	})

	key := fx.GetKey(jose.ES256, 0)
	prover := dpop.DefaultProver(jwt.DPoPSigner("ES256", fx.Provider(key.JWK("dpop"))))
	const htu = "https://as.example.com/token"
	s.Prop("proof_schedules", 700, func(c *hx.Case) {
		sc := &sched{open: make(chan struct{})}
		v := dpop.DefaultVerifier(proofs{inmemory.DPoPProofs(), sc}, jwt.EmbeddedKeyVerifier(fx.SigAlgs))
		proof, err := prover.Prove("POST", htu)
		if err != nil {
			c.Fatalf("prove: %v", err)
		}
		n := fx.Int(c.T, "n", 2, 4)
		wrong := fx.Int(c.T, "wrong", -2, n-1)
		var k counter
		log, overlap := sc.run(c, n, func(ctx context.Context, i int) {
			m := "POST"
			if i == wrong {
				m = "GET"
			}
			if jkt, err := v.Verify(ctx, m, htu, proof); err == nil || jkt != "" {
				k.win(i)
			}
		})
		if len(k.won) > 1 {
			c.Fatalf("%d of %d concurrent verifications of one proof succeed, schedule %s", len(k.won), n, log)
		}
		if len(k.won) == 1 && k.won[0] == wrong {
			c.Fatalf("proof accepted for the wrong method")
		}
		c.Hit("winners=%d", len(k.won))
		if overlap {
			c.NonTrivial("n=%d wrong=%d %s", n, wrong, log)
		}
	})

	// Unconstrained parallel presentation: many credentials, each contended.
	s.Prop("parallel_presentation", 120, func(c *hx.Case) {
		w := fx.NewWorld(fx.FullClient("client", redirect))
		v := dpop.DefaultVerifier(w.Proofs, jwt.EmbeddedKeyVerifier(fx.SigAlgs))
		n, creds := fx.Int(c.T, "n", 2, 12), fx.Int(c.T, "creds", 4, 24)
		r := fx.ValidRequest(c.T, "r", "client", redirect, verifier)
		kinds := []string{"code", "request_uri", "user code", "proof", "stored code", "stored request", "stored proof"}
		type cred struct {
			kind, value string
			counter
		}
		var all []*cred
		for i := 0; i < creds; i++ {
			k := &cred{kind: fx.Pick(c.T, "kind", kinds...)}
			switch k.kind {
			case "code", "stored code":
				k.value = newCode(w, r)
			case "request_uri", "stored request":
				reg, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: issuer, Client: &clientv1.Client{ClientId: "client"}, Request: proto.Clone(r).(*flowv1.AuthorizationRequest)})
				if err != nil {
					c.Fatalf("register: %v", err)
				}
				k.value = reg.RequestUri
			case "user code":
				d, err := w.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: "client"})
				if err != nil {
					c.Fatalf("device authorization: %v", err)
				}
				k.value = d.UserCode
			case "proof":
				p, err := prover.Prove("POST", htu)
				if err != nil {
					c.Fatalf("prove: %v", err)
				}
				k.value = p
			default:
				k.value = fmt.Sprintf("proof-%d", i)
			}
			all = append(all, k)
		}
		together(n, func(g int) {
			for i := range all {
				// half of the workers walk each way
				k := all[i]
				if g%3 == 2 {
					k = all[len(all)-1-i]
				}
				ok := false
				switch k.kind {
				case "code":
					res, err := w.Redeem(issuer, "client", k.value, redirect, verifier, nil)
					ok = err == nil || res.GetAccessToken() != nil
				case "request_uri":
					res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: issuer, Subject: "alice", Request: &flowv1.AuthorizationRequest{RequestUri: fx.Ref(k.value)}})
					ok = err == nil || res.GetCode() != ""
				case "user code":
					_, err := w.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: k.value, Subject: fmt.Sprintf("user-%d", g)})
					ok = err == nil
				case "proof":
					_, err := v.Verify(bg, "POST", htu, k.value)
					ok = err == nil
				case "stored code":
					ok = w.Codes.Delete(bg, issuer, k.value) == nil
				case "stored request":
					ok = w.Reqs.Delete(bg, issuer, k.value) == nil
				default:
					ok = w.Proofs.Register(bg, k.value) == nil
				}
				if ok {
					k.win(g)
				}
			}
		})
		for _, k := range all {
			if len(k.won) > 1 {
				c.Fatalf("%d of %d parallel presentations of one %s succeed", len(k.won), n, k.kind)
			}
			c.Hit("%s winners=%d", k.kind, len(k.won))
		}
		c.NonTrivial("%d workers, %d credentials", n, creds)
	})

	// The same, tightly: every round races the consumers of one entry.
	s.Prop("contended_stores", 60, func(c *hx.Case) {
		n, rounds := fx.Int(c.T, "n", 2, 8), 400
		kind := fx.Pick(c.T, "kind", "code", "request", "proof", "device")
		cs, rs, ds, ps := inmemory.AuthorizationCodeSessions(), inmemory.AuthorizationRequests(), inmemory.DeviceCodeSessions(), inmemory.DPoPProofs()
		wins := make([]atomic.Int32, rounds)
		var turn atomic.Int32 // workers spin until a round is open
		var ready atomic.Int32
		turn.Store(-1)
		session := func(user string) *sessionv1.DeviceCodeSession {
			return &sessionv1.DeviceCodeSession{DeviceCode: "d", Request: &flowv1.DeviceAuthorizationRequest{}, Client: &clientv1.Client{}, Subject: fx.Ref(user), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING}
		}
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r := 0; r < rounds; r++ {
					id := strconv.Itoa(r)
					next := session("user-" + strconv.Itoa(g))
					next.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
					next.ExpiresAt = uint64(time.Now().Unix() + 100)
					ready.Add(1)
					for turn.Load() < int32(r) {
						runtime.Gosched()
					}
					var err error
					switch kind {
					case "code":
						err = cs.Delete(bg, issuer, id)
					case "request":
						err = rs.Delete(bg, issuer, id)
					case "proof":
						err = ps.Register(bg, id)
					default:
						err = ds.Validate(bg, issuer, id, next)
					}
					if err == nil {
						wins[r].Add(1)
					}
				}
			}()
		}
		for r := 0; r < rounds; r++ {
			id := strconv.Itoa(r)
			switch kind {
			case "code":
				_, _ = cs.Register(bg, issuer, id, &sessionv1.AuthorizationCodeSession{})
			case "request":
				_, _ = rs.Register(bg, issuer, id, &flowv1.AuthorizationRequest{})
			case "device":
				_, _ = ds.Register(bg, issuer, id, session(""))
			}
			for ready.Load() < int32(n*(r+1)) {
				runtime.Gosched()
			}
			turn.Store(int32(r))
		}
		wg.Wait()
		for r := range wins {
			if k := wins[r].Load(); k > 1 {
				c.Fatalf("%d of %d simultaneous consumptions of one %s entry succeed (round %d)", k, n, kind, r)
			}
		}
		c.Hit("%s", kind)
		c.NonTrivial("%s by %d workers, %d rounds", kind, n, rounds)
	})

	s.Prop("parallel_stores", 40, func(c *hx.Case) {
		g, per := fx.Int(c.T, "workers", 4, 10), fx.Int(c.T, "entries", 3, 20)
		cl, tk := inmemory.Clients(), inmemory.Tokens()
		cs, rs, ds, ps := inmemory.AuthorizationCodeSessions(), inmemory.AuthorizationRequests(), inmemory.DeviceCodeSessions(), inmemory.DPoPProofs()
		res := inmemory.Resources()
		var mu sync.Mutex
		var failed []string
		fail := func(format string, a ...any) {
			mu.Lock()
			defer mu.Unlock()
			failed = append(failed, fmt.Sprintf(format, a...))
		}
		ids := make([][]string, g)
		together(g, func(w int) {
			for i := 0; i < per; i++ {
				name := fmt.Sprintf("w%d-%d", w, i)
				id, err := cl.Register(bg, fx.FullClient("any-"+name))
				if err != nil {
					fail("client: %v", err)
				}
				ids[w] = append(ids[w], id)
				if got, err := cl.Get(bg, id); err != nil || got.ClientName != "name of any-"+name {
					fail("client %s: %v, %v", name, got, err)
				}
				_, _ = cl.GetByName(bg, fmt.Sprintf("name of any-w%d-%d", (w+1)%g, i))
				tok := &tokenv1.Token{Issuer: issuer, TokenId: name, Value: "value-" + name, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Subject: name}}
				if err := tk.Create(bg, issuer, tok); err != nil {
					fail("token: %v", err)
				}
				if i%3 == 0 {
					if err := tk.Revoke(bg, issuer, name); err != nil {
						fail("revoke: %v", err)
					}
				}
				if got, err := tk.GetByValue(bg, issuer, fmt.Sprintf("value-w%d-%d", (w+1)%g, i)); err == nil {
					got.Metadata.Subject += "!" // the caller's copy
					got.Status = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED
				}
				if _, err := cs.Register(bg, issuer, name, &sessionv1.AuthorizationCodeSession{Subject: name}); err != nil {
					fail("code: %v", err)
				}
				if _, err := rs.Register(bg, issuer, name, &flowv1.AuthorizationRequest{State: name}); err != nil {
					fail("request: %v", err)
				}
				if _, err := ds.Register(bg, issuer, name, &sessionv1.DeviceCodeSession{DeviceCode: "d-" + name, Request: &flowv1.DeviceAuthorizationRequest{}, Client: &clientv1.Client{}, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING}); err != nil {
					fail("device: %v", err)
				}
				if got, err := ds.GetByDeviceCode(bg, issuer, fmt.Sprintf("d-w%d-%d", (w+1)%g, i)); err == nil {
					got.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
				}
				if err := ps.Register(bg, name); err != nil {
					fail("proof: %v", err)
				}
				_, _ = ps.Exists(bg, fmt.Sprintf("w%d-%d", (w+1)%g, i))
				_, _ = cs.Get(bg, issuer, fmt.Sprintf("w%d-%d", (w+1)%g, i))
				_, _ = rs.Get(bg, issuer, fmt.Sprintf("w%d-%d", (w+1)%g, i))
				_, _ = res.GetByURI(bg, "urn:example:backend-api")
				if i%4 == 3 { // consume an earlier one
					old := fmt.Sprintf("w%d-%d", w, i-1)
					if cs.Delete(bg, issuer, old) != nil || rs.Delete(bg, issuer, old) != nil || ds.Delete(bg, issuer, old) != nil || ps.Delete(bg, old) != nil {
						fail("deletion of %s", old)
					}
				}
			}
		})
		seen := map[string]bool{}
		for w := 0; w < g; w++ {
			for i := 0; i < per; i++ {
				name := fmt.Sprintf("w%d-%d", w, i)
				if i < len(ids[w]) {
					if got, err := cl.Get(bg, ids[w][i]); err != nil || got.ClientName != "name of any-"+name || seen[ids[w][i]] {
						fail("client %s lost: %v, %v", name, got, err)
					}
					seen[ids[w][i]] = true
				}
				want := tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
				if i%3 == 0 {
					want = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
				}
				a, e1 := tk.Get(bg, issuer, name)
				b, e2 := tk.GetByValue(bg, issuer, "value-"+name)
				if e1 != nil || e2 != nil || a.Status != want || b.Status != want || a.Metadata.Subject != name || b.Metadata.Subject != name {
					fail("token %s: %v (%v), %v (%v)", name, a, e1, b, e2)
				}
				gone := i%4 == 2 && i+1 < per
				cg, e1 := cs.Get(bg, issuer, name)
				rg, e2 := rs.Get(bg, issuer, name)
				_, e3 := ds.GetByUserCode(bg, issuer, name)
				pe, _ := ps.Exists(bg, name)
				if (e1 == nil) == gone || (e2 == nil) == gone || (e3 == nil) == gone || pe == gone {
					fail("entry %s (deleted: %v): %v, %v, %v, %v", name, gone, e1, e2, e3, pe)
				}
				if !gone && (cg.Subject != name || rg.State != name) {
					fail("entry %s mixed up: %v, %v", name, cg, rg)
				}
				dg, err := ds.GetByDeviceCode(bg, issuer, "d-"+name)
				if err != nil || dg.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
					fail("device session %s: %v, %v", name, dg, err)
				}
			}
		}
		if len(failed) > 0 {
			c.Fatalf("%d failures, first: %s", len(failed), failed[0])
		}
		if _, err := tk.Get(bg, issuer, "w99-0"); err != storage.ErrNotFound {
			c.Fatalf("unknown token: %v", err)
		}
		c.NonTrivial("%d workers, %d entries each", g, per)
	})

	// Independent flows on shared services do not disturb each other.
	s.Prop("parallel_flows", 25, func(c *hx.Case) {
		w := fx.NewWorld()
		shared := inmemory.Clients()
		g, rounds := fx.Int(c.T, "workers", 2, 10), fx.Int(c.T, "rounds", 1, 4)
		world := fx.NewSharedWorld(w, shared)
		v := dpop.DefaultVerifier(w.Proofs, jwt.EmbeddedKeyVerifier(fx.SigAlgs))
		var mu sync.Mutex
		var failed []string
		fail := func(format string, a ...any) {
			mu.Lock()
			defer mu.Unlock()
			failed = append(failed, fmt.Sprintf(format, a...))
		}
		together(g, func(i int) {
			for k := 0; k < rounds; k++ {
				if err := flow(world, shared, v, prover, fmt.Sprintf("user-%d-%d", i, k), verifier); err != nil {
					fail("worker %d round %d: %v", i, k, err)
				}
			}
		})
		if len(failed) > 0 {
			c.Fatalf("%d independent concurrent flows failed, first: %s", len(failed), failed[0])
		}
		c.NonTrivial("%d workers, %d rounds", g, rounds)
	})
}

func flow(w *fx.World, clients storage.Client, v dpop.Verifier, prover dpop.Prover, user, verifier string) error {
	cl := fx.FullClient("given")
	cl.ClientName = "client of " + user
	cl.RedirectUris = []string{"https://" + user + ".example/cb"}
	id, err := clients.Register(bg, cl)
	if err != nil {
		return fmt.Errorf("register client: %w", err)
	}
	me := &clientv1.Client{ClientId: id}
	proof, err := prover.Prove("POST", "https://as.example.com/par")
	if err != nil {
		return fmt.Errorf("prove: %w", err)
	}
	jkt, err := v.Verify(bg, "POST", "https://as.example.com/par", proof)
	if err != nil {
		return fmt.Errorf("proof: %w", err)
	}
	req := &flowv1.AuthorizationRequest{
		Scope: "openid offline_access " + user, ResponseType: "code", ClientId: id, RedirectUri: cl.RedirectUris[0], State: "state-state-state-state-state-state-" + user, Nonce: "nonce-" + user,
		Audience: "urn:example:backend-api", CodeChallenge: fx.Challenge(verifier), CodeChallengeMethod: "S256", Prompt: fx.Ref("consent"),
	}
	par, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: issuer, Client: me, Request: req})
	if err != nil {
		return fmt.Errorf("push: %w", err)
	}
	az, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: issuer, Subject: user, Request: &flowv1.AuthorizationRequest{RequestUri: fx.Ref(par.RequestUri)}})
	if err != nil || az.State != req.State || az.RedirectUri != req.RedirectUri {
		return fmt.Errorf("authorize: %v, %w", az, err)
	}
	tok, err := w.Redeem(issuer, id, az.Code, req.RedirectUri, verifier, &tokenv1.TokenConfirmation{Jkt: jkt})
	if err != nil || tok.AccessToken == nil || tok.RefreshToken == nil {
		return fmt.Errorf("redeem: %v, %w", tok, err)
	}
	is := func(what string, t *tokenv1.Token) error {
		if t.GetMetadata().GetSubject() != user || t.GetMetadata().GetClientId() != id || t.GetConfirmation().GetJkt() != jkt {
			return fmt.Errorf("%s is not of %s: %v", what, user, t)
		}
		return nil
	}
	if err := is("access token", tok.AccessToken); err != nil {
		return err
	}
	in, err := w.Introspect(issuer, id, tok.AccessToken.Value)
	if err != nil || in.Token.GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
		return fmt.Errorf("introspect: %v, %w", in, err)
	}
	if err := is("introspected token", in.Token); err != nil {
		return err
	}
	re, err := w.Refresh(issuer, id, tok.RefreshToken.Value)
	if err != nil {
		return fmt.Errorf("refresh: %w", err)
	}
	if err := is("refreshed token", re.AccessToken); err != nil {
		return err
	}
	if _, err := w.Revoke(issuer, id, tok.AccessToken.Value); err != nil {
		return fmt.Errorf("revoke: %w", err)
	}
	in, err = w.Introspect(issuer, id, tok.AccessToken.Value)
	if err != nil || in.Token.GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {
		return fmt.Errorf("introspect after revocation: %v, %w", in, err)
	}
	dv, err := w.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: issuer, ClientId: id, Scope: fx.Ref("openid"), Audience: fx.Ref("aud")})
	if err != nil {
		return fmt.Errorf("device: %w", err)
	}
	if _, err := w.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: issuer, UserCode: dv.UserCode, Subject: user}); err != nil {
		return fmt.Errorf("approve: %w", err)
	}
	po, err := w.Poll(issuer, id, dv.DeviceCode)
	if err != nil || po.AccessToken.GetMetadata().GetSubject() != user {
		return fmt.Errorf("poll: %v, %w", po, err)
	}
	return nil
}
