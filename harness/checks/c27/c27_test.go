package c27

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/clientauthentication"
	"zntr.io/solid/server/storage"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

const (
	iss   = "https://op.example"
	redir = "https://client.example/cb"
	api   = "urn:example:backend-api" // a resource of the built-in storage
)

var verifier = strings.Repeat("v", 43)

var (
	cliKey = func() *fx.Key { return fx.GetKey(jose.ES256, 0) }
	attKey = func() *fx.Key { return fx.GetKey(jose.ES256, 1) }
)

// params are the drawn parts of an operation.
type params struct {
	scope, prompt, subject string
	request                *flowv1.AuthorizationRequest
	consumed, wrong        bool
	cnf                    *tokenv1.TokenConfirmation
	exScope, exAudience    *string
	method, url            string
	which                  string
}

// server holds the credentials an operation uses.
type server struct {
	*fx.World
	p                                      params
	code, uri, device, user, access, ref   string
	proof, assertion, attestation, subject string
}

type outcome struct {
	err   error
	e     *corev1.Error
	creds []string
	plain bool // the operation has no protocol error
}

func (o outcome) String() string { return fmt.Sprintf("err=%v error=%v creds=%q", o.err, o.e, o.creds) }

func newWorld() *fx.World {
	full := fx.FullClient("client", redir)
	full.ClientType = clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL
	pub := cliKey().PubJWK("k1")
	full.Jwks = fx.JWKS(pub)
	att := fx.FullClient("attester", redir)
	apub := attKey().PubJWK("a1")
	att.Jwks = fx.JWKS(apub)
	return fx.NewWorld(full, att)
}

func cl() *clientv1.Client { return &clientv1.Client{ClientId: "client"} }

// prepare obtains what the operation presents.
func prepare(t fx.TB, w *fx.World, op string, p params) *server {
	s := &server{World: w, p: p}
	must := func(what string, err error) {
		if err != nil {
			t.Fatalf("preparing %s: %s: %v", op, what, err)
		}
	}
	newCode := func() string {
		res, err := s.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: iss, Subject: p.subject, Request: s.request()})
		must("authorize", err)
		return res.Code
	}
	switch op {
	case "code":
		s.code = newCode()
	case "authorize uri":
		res, err := s.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: iss, Client: cl(), Request: s.request()})
		must("register", err)
		s.uri = res.RequestUri
	case "device code", "validate", "pending":
		res, err := s.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: "client", Scope: &p.scope, Audience: fx.Ref(api)})
		must("device authorization", err)
		s.device, s.user = res.DeviceCode, res.UserCode
		if op == "device code" {
			_, err := s.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: s.user, Subject: p.subject})
			must("validate", err)
		}
	case "refresh", "late refresh", "exchange", "introspect", "revoke":
		res, err := s.Redeem(iss, "client", newCode(), redir, verifier, p.cnf)
		must("redeem", err)
		s.access, s.ref = res.AccessToken.Value, res.RefreshToken.GetValue()
		if op == "late refresh" {
			time.Sleep(7*24*time.Hour - 20*time.Minute)
		}
	case "private_key_jwt":
		s.assertion = fx.JWS(cliKey(), fx.Map{"alg": "ES256", "kid": "k1", "typ": "client-assertion+jwt"}, claims("client", "client", nil))
	case "attestation":
		pub := cliKey().PubJWK("")
		s.assertion = fx.JWS(attKey(), fx.Map{"alg": "ES256", "kid": "a1"}, claims("attester", "client", fx.Map{"jwk": fx.AsMap(&pub)})) + "~" + fx.JWS(cliKey(), fx.Map{"alg": "ES256"}, claims("client", "client", nil))
	case "dpop":
		k := cliKey()
		v, err := dpop.DefaultProver(jwt.DPoPSigner(k.Alg, fx.Provider(k.JWK("k")))).Prove(p.method, p.url)
		must("prove", err)
		s.proof = v
	}
	if p.consumed {
		o := s.do(op, w, w.Clients)
		if o.err != nil {
			t.Fatalf("preparing a consumed %s: %v", op, o)
		}
	}
	return s
}

func claims(issuer, sub string, cnf any) []byte {
	m := fx.Map{"iss": issuer, "sub": sub, "aud": iss, "jti": "id", "exp": time.Now().Unix() + 60, "iat": time.Now().Unix()}
	if cnf != nil {
		m["cnf"] = cnf
	}
	return fx.JSON(m)
}

func (s *server) request() *flowv1.AuthorizationRequest {
	return &flowv1.AuthorizationRequest{
		Scope: s.p.scope, ResponseType: "code", ClientId: "client", RedirectUri: redir,
		State: strings.Repeat("s", 32), Nonce: strings.Repeat("n", 8), Audience: api, Prompt: fx.Ref("consent"),
		CodeChallenge: fx.Challenge(verifier), CodeChallengeMethod: "S256",
	}
}

func tokens(r *flowv1.TokenResponse, err error) outcome {
	o := outcome{err: err, e: r.GetError()}
	for _, t := range []any{r.GetAccessToken(), r.GetRefreshToken(), r.GetIdToken()} {
		if tk, ok := t.(*tokenv1.Token); ok && tk != nil {
			o.creds = append(o.creds, "token "+tk.Value)
		} else if v, ok := t.(string); ok && v != "" {
			o.creds = append(o.creds, v)
		}
	}
	return o
}

// do runs the operation against services.
func (s *server) do(op string, w *fx.World, clients storage.ClientReader) (o outcome) {
	add := func(vs ...string) {
		for _, v := range vs {
			if v != "" {
				o.creds = append(o.creds, v)
			}
		}
	}
	switch op {
	case "authorize", "authorize uri":
		r := s.request()
		if op == "authorize uri" {
			r = &flowv1.AuthorizationRequest{RequestUri: &s.uri, ClientId: "client"}
		}
		res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: iss, Subject: s.p.subject, Request: r})
		o = outcome{err: err, e: res.GetError()}
		add(res.GetCode())
	case "register":
		res, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: iss, Client: cl(), Request: s.request()})
		o = outcome{err: err, e: res.GetError()}
		add(res.GetRequestUri())
	case "code":
		v := verifier
		if s.p.wrong {
			v = "x" + v
		}
		o = tokens(w.Redeem(iss, "client", s.code, redir, v, s.p.cnf))
	case "credentials":
		o = tokens(w.Tok.Token(bg, &flowv1.TokenRequest{Issuer: iss, Client: cl(), GrantType: oidc.GrantTypeClientCredentials, Scope: &s.p.scope, Audience: fx.Ref(api), TokenConfirmation: s.p.cnf,
			Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}}))
	case "device code", "pending":
		o = tokens(w.Poll(iss, "client", s.device))
	case "refresh", "late refresh":
		o = tokens(w.Refresh(iss, "client", s.ref))
	case "exchange":
		o = tokens(w.Exchange(iss, "client", s.access, s.p.exScope, s.p.exAudience))
	case "device":
		res, err := w.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: "client", Scope: &s.p.scope, Audience: fx.Ref(api)})
		o = outcome{err: err, e: res.GetError()}
		add(res.GetDeviceCode(), res.GetUserCode())
	case "validate":
		res, err := w.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: s.user, Subject: s.p.subject})
		o = outcome{err: err, e: res.GetError()}
	case "introspect":
		res, err := w.Introspect(iss, "client", s.pick())
		o = outcome{err: err, e: res.GetError()}
		if res.GetToken() != nil {
			add(res.Token.Status.String())
		}
	case "revoke":
		res, err := w.Revoke(iss, "client", s.pick())
		o = outcome{err: err, e: res.GetError()}
	case "private_key_jwt", "attestation":
		typ, p := oidc.AssertionTypeJWTBearer, clientauthentication.PrivateKeyJWT(clients, []jose.SignatureAlgorithm{jose.ES256})
		if op == "attestation" {
			typ, p = oidc.AssertionTypeJWTClientAttestation, clientauthentication.ClientAttestation(clients, []jose.SignatureAlgorithm{jose.ES256})
		}
		res, err := p.Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: &typ, ClientAssertion: &s.assertion})
		o = outcome{err: err, e: res.GetError()}
		add(res.GetClient().GetClientId())
	case "dpop":
		jkt, err := dpop.DefaultVerifier(w.Proofs, jwt.EmbeddedKeyVerifier([]jose.SignatureAlgorithm{jose.ES256})).Verify(bg, s.p.method, s.p.url, s.proof)
		o = outcome{err: err, plain: true}
		add(jkt)
	default:
		panic("HARNESS-ERROR: " + op)
	}
	return o
}

func (s *server) pick() string {
	if s.p.which == "refresh" {
		return s.ref
	}
	return s.access
}

var ops = []string{"code", "authorize", "authorize uri", "register", "credentials", "device code", "pending", "refresh", "late refresh", "exchange", "device", "validate", "introspect", "revoke", "private_key_jwt", "attestation", "dpop"}

// consumers are the operations whose credential is used up by success, with the
// storage call which records it.
var consumers = map[string]string{"code": "Codes.Delete", "authorize uri": "Reqs.Delete", "validate": "Devices.Validate", "late refresh": "Tokens.Revoke", "dpop": "Proofs.Register"}

func drawParams(t *rapid.T, op string) params {
	p := params{
		scope:   "openid offline_access " + fx.Pick(t, "scope", "", "profile", "email address"),
		subject: fx.Str(t, "subject", fx.Alnum, 1, 10),
		cnf:     fx.Confirmation(t, "cnf"),
		method:  fx.Pick(t, "method", "GET", "POST"),
		url:     fx.Pick(t, "url", "https://op.example/token", "https://op.example/par"),
		which:   fx.Pick(t, "which", "access", "refresh"),
	}
	if rapid.Bool().Draw(t, "ex scope") {
		p.exScope = fx.Ref("openid")
	}
	if rapid.Bool().Draw(t, "ex audience") {
		p.exAudience = fx.Ref(api)
	}
	if consumers[op] != "" {
		p.consumed = fx.Chance(t, "consumed", 3)
	}
	if op == "code" && !p.consumed {
		p.wrong = fx.Chance(t, "wrong", 4)
	}
	return p
}

var failures = []error{
	errors.New("storage is down"), context.DeadlineExceeded, context.Canceled, storage.ErrNotFound,
	fmt.Errorf("backend: %w", storage.ErrNotFound), errors.New(""),
}

// isAnswer reports whether the failed call amounts to the answer "no such token",
// which introspection reports as a result.
func isAnswer(op string, f *fx.Faults) bool {
	return op == "introspect" && errors.Is(f.Err, storage.ErrNotFound) && f.Failed["Tokens.GetByValue"] > 0 && f.Failed["Clients.Get"] == 0
}

func TestC27(t *testing.T) {
	s := hx.New(t, "C27", "(faults) every operation of the services, both client authentications and the DPoP verifier on the built-in stores, with drawn parameters and fresh or already consumed credentials; the calls of a fault-free run are counted, then the operation is run again on a fresh server for every call position crossed with every failure mode (not applied, applied but reported failed, value together with an error, empty value) and a drawn error; the credential is presented again after the storage recovered. (history) random histories of redemptions, authorizations, approvals, refreshes and proofs with a failure at a drawn position of some operations. Non-trivial: every injected failure that was reached, identified by operation, call, mode and error.",
		"a not-found answer of the token storage to an introspection is an answer, not a failure", "not-found is not injected into the proof storage, whose calls do not report absence that way", "a storage call which returns neither value nor error is not considered")

	// judge checks a run in which a call failed.
	judge := func(c *hx.Case, op string, f *fx.Faults, o outcome, what string) {
		if isAnswer(op, f) {
			if o.err == nil && (len(o.creds) != 1 || o.creds[0] == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE.String()) {
				c.Fatalf("%s: token reported %v although the storage does not know it", what, o)
			}
			return
		}
		if o.err == nil {
			c.Fatalf("%s: success although a call failed: %v", what, o)
		}
		if len(o.creds) > 0 {
			c.Fatalf("%s: failure yields %v", what, o)
		}
		if o.e == nil && !o.plain {
			if op == "revoke" && f.Failed["Tokens.GetByValue"]+f.Failed["Tokens.Revoke"] > 0 && s.Known("revoke-storage-failure") {
				return
			}
			c.Fatalf("%s: failure without a protocol error: %v", what, o)
		}
		if o.e != nil && !fx.ErrorCodes[o.e.Err] {
			c.Fatalf("%s: unregistered error code: %v", what, o)
		}
		// the server failed, not the client
		if o.e != nil && !errors.Is(f.Err, storage.ErrNotFound) && f.Failed["Clients.Get"] == 0 && o.e.Err != "server_error" {
			c.Fatalf("%s: the failure is reported as %v", what, o)
		}
	}

	run := func(c *hx.Case, op string, p params, at int, mode string, err error, sticky bool) (calls int) {
		w := newWorld()
		c.Bubble(func() {
			sv := prepare(c.T, w, op, p)
			f := fx.NewFaults(at, mode, err, sticky)
			fw, clients := w.Faulty(f)
			c.Step()
			o := sv.do(op, fw, clients)
			what := fmt.Sprintf("%s %+v at=%d mode=%s err=%v sticky=%v calls %v", op, p, at, mode, err, sticky, f.Log)
			calls = len(f.Log)
			if at < 0 {
				refusal := p.consumed || p.wrong || op == "pending"
				if refusal != (o.err != nil) {
					c.Fatalf("%s without any failure: %v", what, o)
				}
				if refusal && len(o.creds) > 0 {
					c.Fatalf("%s: a refusal yields %v", what, o)
				}
			} else if f.Any() {
				judge(c, op, f, o, what)
				c.Hit("%s %s %s", op, f.Log[at], o.e.GetErr())
				c.NonTrivial("%s %v %v %+v", op, f.Log, err, p)
			}
			// The storage recovered.
			if rec := consumers[op]; rec != "" {
				used := p.consumed || f.Applied[rec] > 0
				sv.p.wrong = false
				for i := 0; i < 2; i++ {
					o := sv.do(op, w, w.Clients)
					if (o.err == nil || len(o.creds) > 0) && used {
						c.Fatalf("%s: then attempt %d with a used credential succeeds: %v", what, i, o)
					}
					if o.err == nil {
						used = true
					}
				}
			}
		})
		return calls
	}

	s.Prop("faults", 2500, func(c *hx.Case) {
		op := fx.Pick(c.T, "op", ops...)
		p := drawParams(c.T, op)
		fs := failures
		if op == "dpop" {
			fs = failures[:3]
		}
		err := fx.Pick(c.T, "err", fs...)
		sticky := fx.Chance(c.T, "sticky", 4)
		n := run(c, op, p, -1, "", nil, false)
		c.Hit("%s %d calls", op, n)
		for at := 0; at < n; at++ {
			for _, m := range []string{fx.FaultBefore, fx.FaultAfter, fx.FaultValue, fx.FaultEmpty} {
				run(c, op, p, at, m, err, sticky)
			}
		}
	})

	// An approval which could not be recorded approves nothing.
	s.Prop("approval", 600, func(c *hx.Case) {
		w := newWorld()
		p := drawParams(c.T, "validate")
		p.consumed = false
		at, mode, err := fx.Int(c.T, "at", 0, 3), fx.Pick(c.T, "mode", fx.FaultBefore, fx.FaultAfter, fx.FaultValue), fx.Pick(c.T, "err", failures...)
		c.Bubble(func() {
			sv := prepare(c.T, w, "validate", p)
			f := fx.NewFaults(at, mode, err, false)
			fw, clients := w.Faulty(f)
			o := sv.do("validate", fw, clients)
			if f.Any() {
				judge(c, "validate", f, o, fmt.Sprintf("validate calls %v", f.Log))
			}
			res, perr := w.Poll(iss, "client", sv.device)
			if f.Applied["Devices.Validate"] == 0 && (perr == nil || len(tokens(res, perr).creds) > 0) {
				c.Fatalf("device obtains %v although its approval failed (%v, calls %v)", res, o, f.Log)
			}
			c.Hit("approved=%v", perr == nil)
			c.NonTrivial("%v %v", f.Log, err)
		})
	})

	s.Prop("history", 6000, func(c *hx.Case) {
		w := newWorld()
		n := fx.Int(c.T, "n", 4, 24)
		c.Bubble(func() {
			type cred struct {
				op   string
				s    *server
				used bool
			}
			var all []*cred
			var log []string
			faults := 0
			kinds := []string{"code", "authorize uri", "validate", "dpop"}
			for i := 0; i < n; i++ {
				if len(all) == 0 || fx.Chance(c.T, "new", 3) {
					op := fx.Pick(c.T, "kind", kinds...)
					p := drawParams(c.T, op)
					p.consumed, p.wrong = false, false
					all = append(all, &cred{op: op, s: prepare(c.T, w, op, p)})
					continue
				}
				x := all[fx.Int(c.T, "which", 0, len(all)-1)]
				at := -1
				mode, err, sticky := fx.FaultBefore, failures[0], false
				if rapid.Bool().Draw(c.T, "fail") {
					at = fx.Int(c.T, "at", 0, 5)
					mode = fx.Pick(c.T, "mode", fx.FaultBefore, fx.FaultAfter, fx.FaultValue, fx.FaultEmpty)
					if x.op != "dpop" {
						err = fx.Pick(c.T, "err", failures...)
					}
					sticky = rapid.Bool().Draw(c.T, "sticky")
				}
				if x.op == "code" {
					x.s.p.wrong = fx.Chance(c.T, "wrong", 6)
				}
				f := fx.NewFaults(at, mode, err, sticky)
				fw, clients := w.Faulty(f)
				c.Step()
				o := x.s.do(x.op, fw, clients)
				log = append(log, fmt.Sprintf("%s#%d %v -> %v", x.op, i, f.Log, o.err == nil))
				what := strings.Join(log, "; ")
				if f.Any() {
					faults++
					judge(c, x.op, f, o, what)
				}
				if x.used && (o.err == nil || len(o.creds) > 0) {
					c.Fatalf("used credential accepted again: %s: %v", what, o)
				}
				if o.err == nil || f.Applied[consumers[x.op]] > 0 {
					x.used = true
				}
			}
			if faults > 0 {
				c.NonTrivial("%v", log)
			}
		})
	})

	// The listed finding, on every run.
	s.Direct("listed", func(t *testing.T) int {
		for _, at := range []int{1, 2} {
			w := newWorld()
			sv := prepare(t, w, "revoke", params{scope: "openid", subject: "u", which: "access"})
			f := fx.NewFaults(at, fx.FaultBefore, failures[0], false)
			fw, clients := w.Faulty(f)
			o := sv.do("revoke", fw, clients)
			if !f.Any() {
				continue
			}
			if o.err == nil {
				t.Fatalf("revoke succeeds although the storage failed: %v", o)
			}
			if o.e == nil && !s.Known("revoke-storage-failure") {
				t.Fatalf("revoke fails without a protocol error: %v", o)
			}
		}
		return 2
	})
}
