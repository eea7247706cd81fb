package c40

import (
	"context"
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"

	"go.mozilla.org/cose"
	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/examples/authorizationserver/handlers"
	"zntr.io/solid/examples/authorizationserver/middleware"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

const iss = "http://127.0.0.1:8080"

// worker is one client and what it is about to do.
type worker struct {
	cl       *clientv1.Client
	key, pop *fx.Key
	popN     int
	sub      string
	ar       *flowv1.AuthorizationRequest
	verifier string
	bound    bool
	pushed   bool
	rivals   int // concurrent redemptions of its code
	pause    []time.Duration
	revoke   bool
	seq      atomic.Int64

	toks []string // credentials it was given
	err  string
}

func (w *worker) fail(f string, a ...any) {
	panic(failure(fmt.Sprintf("client %s: ", w.cl.ClientId) + fmt.Sprintf(f, a...)))
}

type failure string

// why describes a recovered panic.
func why(r any) string {
	switch v := r.(type) {
	case nil:
		return ""
	case failure:
		return string(v)
	}
	return fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
}

type server struct {
	mux     http.Handler
	jarmKey *fx.Key
	kind    string
	provers map[int]dpop.Prover // shared by the clients
	readJWT token.Verifier
	readVT  verifiable.VerifiableUUIDExtractor
	decoder jarm.ResponseDecoder
}

var tokenKinds = []string{"opaque", "uuid4", "uuid7", "jwt", "cwt"}

func newServer(cls []*clientv1.Client, enc pairwise.Encoder, kind string, num bool) *server {
	s := &server{jarmKey: fx.GetKey(jose.ES384, 7), kind: kind, provers: map[int]dpop.Prover{}}
	w := fx.NewWorld(cls...)
	tk := fx.GetKey(jose.ES256, 8)
	secret := []byte("0123456789abcdef0123456789abcdef")
	ks := fx.SetProvider(tk.PubJWK("tok"))
	s.readJWT, s.readVT = jwt.DefaultVerifier(ks, []jose.SignatureAlgorithm{jose.ES256}), verifiable.UUIDVerifier(secret)
	s.decoder = jarm.Decoder(iss, jwt.DefaultVerifier(fx.SetProvider(s.jarmKey.PubJWK("srv")), []jose.SignatureAlgorithm{jose.ES384}))
	kp := fx.Provider(tk.JWK("tok"))
	switch kind {
	case "uuid4":
		w.ATGen, w.RTGen = verifiable.Token(verifiable.UUIDv4Source(), secret), verifiable.Token(verifiable.UUIDv4Source(), secret)
	case "uuid7":
		w.ATGen, w.RTGen = verifiable.Token(verifiable.UUIDv7Source(), secret), verifiable.Token(verifiable.UUIDv7Source(), secret)
	case "jwt":
		w.ATGen, w.RTGen = token.AccessToken(jwt.AccessTokenSigner(jose.ES256, kp)), token.RefreshToken(jwt.RefreshTokenSigner(jose.ES256, kp))
	case "cwt":
		w.ATGen, w.RTGen = token.AccessToken(cwt.AccessTokenSigner(cose.ES256, kp)), token.RefreshToken(cwt.RefreshTokenSigner(cose.ES256, kp))
	}
	if num {
		w.UserGen = generator.DefaultNumDeviceUserCode()
	}
	w.Wire()
	algs := []jose.SignatureAlgorithm{jose.ES256, jose.ES384}
	keys, keySet := fx.Provider(s.jarmKey.JWK("srv")), fx.SetProvider(s.jarmKey.PubJWK("srv"))
	basic, auth := middleware.BasicAuthentication(), middleware.ClientAuthentication(w.Clients, algs)
	dv := dpop.DefaultVerifier(w.Proofs, jwt.DefaultVerifier(keySet, algs))
	m := http.NewServeMux()
	for i := range 4 {
		k := fx.GetKey(jose.ES256, 10+i)
		s.provers[i] = dpop.DefaultProver(jwt.DPoPSigner(jose.ES256, fx.Provider(k.JWK("pop"))))
	}
	// one at a time: what overlapping requests do to each other is a finding
	// (see "metadata")
	var one sync.Mutex
	metadata := handlers.Metadata(iss, jwt.ServerMetadata(jose.ES384, keys))
	m.HandleFunc("/.well-known/oauth-authorization-server", func(w http.ResponseWriter, r *http.Request) {
		one.Lock()
		defer one.Unlock()
		metadata.ServeHTTP(w, r)
	})
	m.Handle("/keys", handlers.JWKS(keySet))
	m.Handle("/par", middleware.Adapt(handlers.PushedAuthorizationRequest(iss, w.Authz, dv), auth))
	m.Handle("/authorize", middleware.Adapt(handlers.Authorization(iss, w.Authz, w.Clients, jarm.Encoder(jwt.JARMSigner(jose.ES384, keys)), enc), basic))
	m.Handle("/token", middleware.Adapt(handlers.Token(iss, w.Tok, dv), auth))
	m.Handle("/token/introspect", middleware.Adapt(handlers.TokenIntrospection(iss, w.Tok), auth))
	m.Handle("/token/revoke", middleware.Adapt(handlers.TokenRevocation(iss, w.Tok), auth))
	m.Handle("/device/authorize", middleware.Adapt(handlers.DeviceAuthorization(iss, w.Dev), auth))
	m.Handle("/device", middleware.Adapt(handlers.Device(iss, w.Dev), basic))
	s.mux = m
	return s
}

func (s *server) call(method, path string, q, form url.Values, hdr http.Header) *httptest.ResponseRecorder {
	target := iss + path
	if len(q) > 0 {
		target += "?" + q.Encode()
	}
	var body io.Reader
	if form != nil {
		body = strings.NewReader(form.Encode())
	}
	r := httptest.NewRequest(method, target, body)
	if form != nil {
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	for k, v := range hdr {
		r.Header[http.CanonicalHeaderKey(k)] = v
	}
	rec := httptest.NewRecorder()
	s.mux.ServeHTTP(rec, r)
	return rec
}

func (w *worker) id() string { return fmt.Sprintf("%s-%d", w.cl.ClientId, w.seq.Add(1)) }

func (w *worker) auth(form url.Values) url.Values {
	now := time.Now().Unix()
	form.Set("client_assertion_type", oidc.AssertionTypeJWTBearer)
	form.Set("client_assertion", fx.JWS(w.key, fx.Map{"alg": string(w.key.Alg), "typ": "JWT", "kid": "k"},
		fx.JSON(fx.Map{"iss": w.cl.ClientId, "sub": w.cl.ClientId, "aud": iss, "jti": w.id(), "exp": now + 30, "iat": now})))
	return form
}

func (w *worker) proof(s *server, path string) http.Header {
	v, err := s.provers[w.popN].Prove("POST", iss+path)
	if err != nil {
		w.fail("proof: %v", err)
	}
	return http.Header{"DPoP": {v}}
}

func (w *worker) doc(what string, rec *httptest.ResponseRecorder, want int) map[string]any {
	var m map[string]any
	if err := json.Unmarshal(rec.Body.Bytes(), &m); rec.Code != want || err != nil {
		w.fail("%s: answered %d %q (%v)", what, rec.Code, rec.Body.String(), err)
	}
	return m
}

func str(m map[string]any, k string) string { v, _ := m[k].(string); return v }

// race makes a request several times at once; exactly one must be granted.
func (w *worker) race(s *server, what string, recs []*httptest.ResponseRecorder, want int, call func() *httptest.ResponseRecorder) *httptest.ResponseRecorder {
	var wg sync.WaitGroup
	errs := make([]string, len(recs))
	for i := range recs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				errs[i] = why(recover())
			}()
			recs[i] = call()
		}()
	}
	wg.Wait()
	var won []*httptest.ResponseRecorder
	for i, r := range recs {
		switch {
		case errs[i] != "":
			panic(failure(errs[i]))
		case r == nil:
			w.fail("%s: no answer", what)
		case r.Code == want:
			won = append(won, r)
		case r.Code < 400 || r.Code > 499 || strings.Contains(r.Body.String(), "access_token") || r.Header().Get("Location") != "":
			w.fail("%s: answered %d %s", what, r.Code, r.Body.String())
		}
	}
	if len(won) != 1 {
		w.fail("%s: %d of %d concurrent uses succeeded: %s", what, len(won), len(recs), recs[0].Body.String())
	}
	return won[0]
}

// flow runs the worker's operations.
func (w *worker) flow(s *server) {
	w.pauseAt(0)
	var err error
	if w.verifier, w.ar.CodeChallenge, err = pkce.CodeVerifier(); err != nil {
		w.fail("pkce: %v", err)
	}
	w.toks = append(w.toks, w.verifier)
	obj := w.ar
	sign := func(r *flowv1.AuthorizationRequest) string {
		v, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(w.key.Alg, fx.Provider(w.key.JWK("k")))).Encode(bg, r)
		if err != nil {
			w.fail("HARNESS-ERROR %v", err)
		}
		return v
	}
	if w.pushed {
		rec := s.call("POST", "/par", url.Values{"request": {sign(obj)}}, w.auth(url.Values{}), w.proof(s, "/par"))
		uri := str(w.doc("push", rec, 201), "request_uri")
		w.toks = append(w.toks, uri)
		obj = &flowv1.AuthorizationRequest{RequestUri: &uri, ClientId: w.cl.ClientId}
	}
	w.pauseAt(1)
	hdr := http.Header{"Authorization": {"Basic " + base64.StdEncoding.EncodeToString([]byte("hello:world"))}}
	recs := make([]*httptest.ResponseRecorder, 1)
	if w.pushed {
		recs = make([]*httptest.ResponseRecorder, w.rivals)
	}
	rec := w.race(s, "authorize", recs, http.StatusFound, func() *httptest.ResponseRecorder {
		return s.call("GET", "/authorize", url.Values{"client_id": {w.cl.ClientId}, "request": {sign(obj)}}, nil, hdr)
	})
	u, err := url.Parse(rec.Header().Get("Location"))
	if rec.Code != http.StatusFound || err != nil || !strings.HasPrefix(u.String(), w.ar.RedirectUri+"?") {
		w.fail("authorize: answered %d %q to %q", rec.Code, rec.Body.String(), u)
	}
	ans, err := s.decoder.Decode(bg, w.cl.ClientId, u.Query().Get("response"))
	if err != nil || ans.Code == "" || ans.State != w.ar.State {
		w.fail("authorize: response %v, %v, for state %q", ans, err, w.ar.State)
	}
	w.toks = append(w.toks, ans.Code)
	w.pauseAt(2)
	jkt := ""
	if w.bound {
		b, _ := (&jose.JSONWebKey{Key: w.pop.Pub}).Thumbprint(crypto.SHA256)
		jkt = base64.RawURLEncoding.EncodeToString(b)
	}
	rec = w.race(s, "redeem", make([]*httptest.ResponseRecorder, w.rivals), http.StatusOK, func() *httptest.ResponseRecorder {
		form := w.auth(url.Values{"grant_type": {"authorization_code"}, "code": {ans.Code}, "code_verifier": {w.verifier}, "redirect_uri": {w.ar.RedirectUri}})
		hdr := http.Header{}
		if w.bound {
			hdr = w.proof(s, "/token")
		}
		return s.call("POST", "/token", nil, form, hdr)
	})
	m := w.doc("redeem", rec, 200)
	scope := fx.RecordedScope(w.ar)
	at, rt := str(m, "access_token"), str(m, "refresh_token")
	offline := slices.Contains(scope, "openid") && slices.Contains(scope, "offline_access")
	if at == "" || offline != (rt != "") || (str(m, "token_type") == "DPoP") != w.bound {
		w.fail("redeem: %v", m)
	}
	w.toks = append(w.toks, at)
	if rt != "" {
		w.toks = append(w.toks, rt)
	}
	w.pauseAt(3)
	time.Sleep(2 * time.Second)
	look := func(v string, active bool) {
		m := w.doc("introspect", s.call("POST", "/token/introspect", nil, w.auth(url.Values{"token": {v}}), nil), 200)
		if m["active"] != active {
			w.fail("introspect: %v, expected active=%v", m, active)
		}
		if !active {
			return
		}
		cnf, _ := m["cnf"].(map[string]any)
		got := strings.Fields(str(m, "scope"))
		slices.Sort(got)
		slices.Sort(scope)
		if str(m, "client_id") != w.cl.ClientId || str(m, "sub") != w.sub || str(m, "aud") != w.ar.Audience || str(cnf, "jkt") != jkt || !slices.Equal(got, scope) {
			w.fail("introspect: %v, expected sub %q aud %q scope %v jkt %q", m, w.sub, w.ar.Audience, scope, jkt)
		}
	}
	switch s.kind {
	case "jwt":
		var c map[string]any
		if err := s.readJWT.Claims(bg, at, &c); err != nil || str(c, "client_id") != w.cl.ClientId || str(c, "sub") != w.sub || str(c, "aud") != w.ar.Audience {
			w.fail("redeem: access token %v, %v", c, err)
		}
	case "uuid4", "uuid7":
		id, err := s.readVT.Extract(at)
		if err != nil || !strings.HasPrefix(at, "sldat_") {
			w.fail("redeem: access token %q, %v", at, err)
		}
		w.toks = append(w.toks, string(id))
	}
	look(at, true)
	if rt != "" {
		hdr := http.Header{}
		if w.bound {
			hdr = w.proof(s, "/token")
		}
		m := w.doc("refresh", s.call("POST", "/token", nil, w.auth(url.Values{"grant_type": {"refresh_token"}, "refresh_token": {rt}}), hdr), 200)
		w.toks = append(w.toks, str(m, "access_token"))
		w.pauseAt(4)
		time.Sleep(2 * time.Second)
		look(str(m, "access_token"), true)
		look(rt, true)
	}
	if w.revoke {
		rec := s.call("POST", "/token/revoke", nil, w.auth(url.Values{"token": {at}}), nil)
		if rec.Code != http.StatusOK {
			w.fail("revoke: %d %s", rec.Code, rec.Body.String())
		}
	}
	w.pauseAt(5)
	look(at, !w.revoke)
}

func (w *worker) pauseAt(i int) {
	if d := w.pause[i]; d > 0 {
		time.Sleep(d)
	}
}

// device runs a device flow.
func (w *worker) device(s *server) {
	w.pauseAt(0)
	m := w.doc("device", s.call("POST", "/device/authorize", nil, w.auth(url.Values{"client_id": {w.cl.ClientId}, "scope": {w.ar.Scope}, "audience": {w.ar.Audience}}), nil), 200)
	dc, uc := str(m, "device_code"), str(m, "user_code")
	w.toks = append(w.toks, dc, uc)
	poll := func(want int) map[string]any {
		form := w.auth(url.Values{"grant_type": {oidc.GrantTypeDeviceCode}, "device_code": {dc}})
		return w.doc("poll", s.call("POST", "/token", nil, form, nil), want)
	}
	w.pauseAt(1)
	if m := poll(400); m["error"] != "authorization_pending" && m["err"] != "authorization_pending" {
		w.fail("poll before approval: %v", m)
	}
	w.pauseAt(2)
	hdr := http.Header{"Authorization": {"Basic " + base64.StdEncoding.EncodeToString([]byte("hello:world"))}}
	if rec := s.call("POST", "/device", nil, url.Values{"user_code": {uc}}, hdr); rec.Code != http.StatusOK {
		w.fail("approval: %d %s", rec.Code, rec.Body.String())
	}
	w.pauseAt(3)
	w.toks = append(w.toks, str(poll(200), "access_token"))
}

// reader reads the discovery documents.
func reader(s *server, n int) (bad string) {
	for range n {
		var m, claims map[string]any
		rec := s.call("GET", "/.well-known/oauth-authorization-server", nil, nil, nil)
		if err := json.Unmarshal(rec.Body.Bytes(), &m); err != nil || rec.Code != http.StatusOK {
			return fmt.Sprintf("metadata: %d %s", rec.Code, rec.Body.String())
		}
		ks := fx.ParseJWKS(s.call("GET", "/keys", nil, nil, nil).Body.Bytes())
		if err := jwt.DefaultVerifier(fx.SetProvider(ks.Keys...), []jose.SignatureAlgorithm{jose.ES384}).Claims(bg, str(m, "signed_metadata"), &claims); err != nil {
			return "signed metadata: " + err.Error()
		}
		m["signed_metadata"] = "" // as it was while signing
		if _, has := claims["signed_metadata"]; !has {
			delete(m, "signed_metadata")
		}
		if a, b := fmt.Sprint(m), fmt.Sprint(claims); a != b {
			return "metadata " + a + " signed as " + b
		}
	}
	return ""
}

func TestC40(t *testing.T) {
	s := hx.New(t, "C40", "2 to 8 clients (own instances of the shared SDK parts: PKCE, proofs, decoders) at once run a drawn flow each (pushed or direct authorization, one to four simultaneous uses of the pushed request and of the code, refresh, introspection, revocation; or a device flow) over HTTP against one server, next to readers of the discovery documents, under the race detector; every answer is compared with what the client would get alone, each pushed request and code must be used exactly once, and no two credentials may be equal; and a request for the metadata is overlapped by another one at the moment of its signature. Non-trivial: at least two clients with a code of their own; identified by the plans.",
		"the schedules are those the Go scheduler gives: pauses at drawn points and parallel processors vary them")
	log.SetOutput(io.Discard)
	devNull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		t.Fatal(err)
	}
	s.Prop("concurrent", 150, func(c *hx.Case) {
		enc := pairwise.Hash([]byte("salt of the example server, long enough"))
		n := fx.Int(c.T, "clients", 2, 8)
		var ws []*worker
		var cls []*clientv1.Client
		var plans []string
		same := fx.Chance(c.T, "same identity", 4)
		for i := range n {
			w := &worker{key: fx.GetKey(jose.ES384, i%5), popN: i % 4, pop: fx.GetKey(jose.ES256, 10+i%4), sub: "hello"}
			id := fmt.Sprintf("client-%d", i)
			w.cl = fx.FullClient(id, "https://"+id+".example/cb")
			if same && i > 0 { // several instances of one client
				w.cl, w.key = ws[0].cl, ws[0].key
				w.seq.Store(int64(i) * 1000)
			} else {
				if w.cl.SubjectType = oidc.SubjectTypePublic; fx.Chance(c.T, "pairwise", 2) {
					w.cl.SubjectType, w.cl.SectorIdentifier = oidc.SubjectTypePairwise, id+".example"
				}
				w.cl.Jwks = fx.JWKS(w.key.PubJWK("k"))
				cls = append(cls, w.cl)
			}
			if w.cl.SubjectType == oidc.SubjectTypePairwise {
				v, err := enc.Encode(w.cl.SectorIdentifier, "hello")
				if err != nil {
					c.Fatalf("pairwise: %v", err)
				}
				w.sub = v
			}
			w.verifier = fx.Verifier(c.T, "ver")
			w.ar = fx.ValidRequest(c.T, "ar", w.cl.ClientId, w.cl.RedirectUris[0], w.verifier)
			w.ar.ResponseMode = fx.Ref(oidc.ResponseModeQueryJWT)
			if fx.Chance(c.T, "offline", 2) {
				w.ar.Scope, w.ar.Prompt = "openid offline_access", fx.Ref("consent")
			}
			w.bound, w.pushed, w.revoke = fx.Chance(c.T, "bound", 2), fx.Chance(c.T, "pushed", 2), fx.Chance(c.T, "revoke", 3)
			w.rivals = fx.Pick(c.T, "rivals", 1, 1, 2, 4)
			for range 6 {
				w.pause = append(w.pause, time.Duration(fx.Pick(c.T, "pause", 0, 0, 1, 2))*time.Millisecond)
			}
			ws = append(ws, w)
			plans = append(plans, fmt.Sprintf("%s bound=%v pushed=%v rivals=%d %v", w.cl.ClientId, w.bound, w.pushed, w.rivals, w.pause))
		}
		devices := map[int]bool{}
		for i := range ws {
			devices[i] = fx.Chance(c.T, "device", 5)
		}
		readers := fx.Int(c.T, "readers", 0, 3)
		kind := fx.Pick(c.T, "tokens", tokenKinds...)
		srv := newServer(cls, enc, kind, fx.Chance(c.T, "numeric", 3))
		bad := make([]string, readers)
		out := os.Stdout
		os.Stdout = devNull
		func() {
			defer func() { os.Stdout = out }()
			c.Bubble(func() {
				var wg sync.WaitGroup
				start := make(chan struct{})
				for i, w := range ws {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							w.err = why(recover())
						}()
						<-start
						if devices[i] {
							w.device(srv)
						} else {
							w.flow(srv)
						}
					}()
				}
				for i := range bad {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						bad[i] = reader(srv, 4)
					}()
				}
				close(start)
				wg.Wait()
			})
		}()
		seen := map[string]string{}
		for _, w := range ws {
			if w.err != "" {
				c.Fatalf("%s (%v)", w.err, plans)
			}
			for _, v := range w.toks {
				if by, has := seen[v]; has || v == "" {
					c.Fatalf("credential %q given to %s and %s", v, by, w.cl.ClientId)
				}
				seen[v] = w.cl.ClientId
			}
			c.Step()
		}
		for _, b := range bad {
			if b != "" {
				c.Fatalf("%s", b)
			}
		}
		c.Hit("clients %d readers %d same %v", n, readers, same)
		c.Hit("tokens %s", kind)
		codes := 0
		for i := range ws {
			if !devices[i] {
				codes++
			}
		}
		if codes > 1 {
			c.NonTrivial("%s", strings.Join(plans, "; "))
		}
	})

	// A request for the metadata which another one overlaps.
	s.Prop("metadata", 60, func(c *hx.Case) {
		var h http.Handler
		get := func() map[string]any {
			rec := httptest.NewRecorder()
			h.ServeHTTP(rec, httptest.NewRequest("GET", iss+"/.well-known/openid-configuration", nil))
			var m map[string]any
			if err := json.Unmarshal(rec.Body.Bytes(), &m); err != nil || rec.Code != http.StatusOK {
				c.Fatalf("metadata: %d %s", rec.Code, rec.Body.String())
			}
			return m
		}
		before, after := fx.Int(c.T, "before", 0, 2), fx.Int(c.T, "after", 0, 2)
		sg := &overlapped{}
		h = handlers.Metadata(iss, sg)
		for range before {
			get()
		}
		sg.signed = nil
		sg.during = func() { get() }
		outer := get()
		for range after {
			get()
		}
		// the last document signed before the outer answer was complete is its own
		for i, doc := range sg.signed {
			if strings.Contains(doc, "signed-") && !(i == 1 && s.Known("metadata-shared")) {
				c.Fatalf("document %d contains the signature of another answer: %s", i, doc)
			}
		}
		if m := str(outer, "signed_metadata"); m != "signed-1" && m != "signed-2" {
			c.Fatalf("answered with %q", m)
		}
		c.Step()
		c.NonTrivial("overlap after %d, before %d", before, after)
	})
}

// overlapped is a serializer during whose first use something else happens.
type overlapped struct {
	during func()
	signed []string
}

func (o *overlapped) ContentType() string { return "x" }

func (o *overlapped) Serialize(_ context.Context, claims any) (string, error) {
	if f := o.during; f != nil {
		o.during = nil
		f()
	}
	b, err := json.Marshal(claims)
	o.signed = append(o.signed, string(b))
	return fmt.Sprintf("signed-%d", len(o.signed)), err
}
