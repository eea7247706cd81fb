package c39

import (
	"context"
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/examples/authorizationserver/handlers"
	"zntr.io/solid/examples/authorizationserver/middleware"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/server/storage"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

const iss = "http://127.0.0.1:8080"

var devNull *os.File

// counters of everything which reaches storage.
type counts struct{ tokens, codes, reqs, devices int }

type cTokens struct {
	storage.Token
	n *counts
}

func (s cTokens) Create(ctx context.Context, iss string, t *tokenv1.Token) error {
	s.n.tokens++
	return s.Token.Create(ctx, iss, t)
}

type cCodes struct {
	storage.AuthorizationCodeSession
	n *counts
}

func (s cCodes) Register(ctx context.Context, iss, code string, v *sessionv1.AuthorizationCodeSession) (uint64, error) {
	s.n.codes++
	return s.AuthorizationCodeSession.Register(ctx, iss, code, v)
}

type cReqs struct {
	storage.AuthorizationRequest
	n *counts
}

func (s cReqs) Register(ctx context.Context, iss, uri string, r *flowv1.AuthorizationRequest) (uint64, error) {
	s.n.reqs++
	return s.AuthorizationRequest.Register(ctx, iss, uri, r)
}

type cDevices struct {
	storage.DeviceCodeSession
	n *counts
}

func (s cDevices) Register(ctx context.Context, iss, code string, v *sessionv1.DeviceCodeSession) (uint64, error) {
	s.n.devices++
	return s.DeviceCodeSession.Register(ctx, iss, code, v)
}

// party is a client of the server.
type party struct {
	name string
	cl   *clientv1.Client
	key  *fx.Key // signs request objects
	akey *fx.Key // signs assertions
	pop  *fx.Key
	sub  string // of the user at this client
}

func (p *party) GoString() string { return p.name }

type request struct {
	p        *party
	ar       *flowv1.AuthorizationRequest
	verifier string
	uri      string
	expiry   time.Time
	used     bool
}

type code struct {
	*request
	value  string
	expiry time.Time
	used   bool
}

type device struct {
	p          *party
	code, user string
	scope, aud string
	expiry     time.Time
	approved   bool
}

type tok struct {
	p       *party
	value   string
	refresh bool
	jkt     string
	sub     string
	alt     string
	scope   []string
	aud     string
	iat     uint64
	exp     uint64
	revoked bool
}

func (r *request) GoString() string { return "request of " + r.p.name }
func (k *code) GoString() string    { return "code of " + k.p.name }
func (d *device) GoString() string  { return "device code of " + d.p.name }
func (k *tok) GoString() string     { return "token of " + k.p.name }

type sim struct {
	suite   *hx.Suite
	c       *hx.Case
	w       *fx.World
	n       *counts
	mux     *http.ServeMux
	jarmKey *fx.Key
	att     *fx.Key
	parties []*party
	reqs    []*request
	codes   []*code
	devices []*device
	toks    []*tok
	proofs  map[string][]string // used proofs by endpoint
	secrets []string            // every credential ever handed out
	seq     int
	log     []string
	ok, no  int
}

func pub(k *fx.Key, kid string) jose.JSONWebKey { return k.PubJWK(kid) }

func newSim(suite *hx.Suite, c *hx.Case) *sim {
	s := &sim{suite: suite, c: c, n: &counts{}, jarmKey: fx.GetKey(jose.ES384, 7), att: fx.GetKey(jose.ES256, 7), proofs: map[string][]string{}}
	mk := func(name string, n int, redirects ...string) *party {
		p := &party{name: name, cl: fx.FullClient(name, redirects...), key: fx.GetKey(jose.ES384, n), pop: fx.GetKey(fx.Pick(c.T, "pop_"+name, jose.ES256, jose.ES384), 10+n), sub: "hello"}
		p.akey = p.key
		if fx.Chance(c.T, "es256_"+name, 2) {
			p.akey = fx.GetKey(jose.ES256, n)
		}
		p.cl.Jwks = fx.JWKS(pub(p.key, "k1"), pub(fx.GetKey(jose.ES256, n), "k2"))
		s.parties = append(s.parties, p)
		return p
	}
	a := mk("alpha", 1, "https://alpha.example/cb?app=1&x=%2F", "https://alpha.example/cb", "https://shared.example/cb")
	b := mk("beta", 2, "https://beta.example/cb", "https://beta.example/cb?next=a%26b", "https://shared.example/cb")
	d := mk("delta", 3, "https://delta.example/cb", "com.example.app:/cb")
	p := mk("public", 4, "http://127.0.0.1:9000/cb")
	t := mk("attested", 5, "https://att.example/cb?a=b")
	a.cl.SubjectType, a.cl.SectorIdentifier = oidc.SubjectTypePairwise, "alpha.example"
	b.cl.SubjectType = oidc.SubjectTypePublic
	if fx.Chance(c.T, "beta_pairwise", 2) {
		b.cl.SubjectType, b.cl.SectorIdentifier = oidc.SubjectTypePairwise, "beta.example"
	}
	d.cl.DpopBoundAccessTokens = true
	p.cl.ClientType = clientv1.ClientType_CLIENT_TYPE_PUBLIC
	_ = t
	enc := pairwise.Hash([]byte("salt of the example server, long enough"))
	for _, q := range s.parties {
		if q.cl.SubjectType == oidc.SubjectTypePairwise {
			v, err := enc.Encode(q.cl.SectorIdentifier, "hello")
			if err != nil {
				c.Fatalf("pairwise: %v", err)
			}
			q.sub = v
		}
	}
	attester := fx.FullClient("attester")
	attester.Jwks = fx.JWKS(pub(s.att, "att"))
	cls := []*clientv1.Client{attester}
	for _, q := range s.parties {
		cls = append(cls, q.cl)
	}
	s.w = fx.NewWorld(cls...)
	s.w.Tokens = cTokens{s.w.Tokens, s.n}
	s.w.Codes = cCodes{s.w.Codes, s.n}
	s.w.Reqs = cReqs{s.w.Reqs, s.n}
	s.w.Devices = cDevices{s.w.Devices, s.n}
	s.w.Wire()

	algs := []jose.SignatureAlgorithm{jose.ES256, jose.ES384}
	keys := fx.Provider(s.jarmKey.JWK("srv"))
	keySet := fx.SetProvider(pub(s.jarmKey, "srv"))
	sec, basic, auth := middleware.SecurityHaders(), middleware.BasicAuthentication(), middleware.ClientAuthentication(s.w.Clients, algs)
	dv := dpop.DefaultVerifier(s.w.Proofs, jwt.DefaultVerifier(keySet, algs))
	je := jarm.Encoder(jwt.JARMSigner(jose.ES384, keys))
	m := http.NewServeMux()
	m.Handle("/.well-known/oauth-authorization-server", handlers.Metadata(iss, jwt.ServerMetadata(jose.ES384, keys)))
	m.Handle("/.well-known/openid-configuration", handlers.Metadata(iss, jwt.ServerMetadata(jose.ES384, keys)))
	m.Handle("/keys", handlers.JWKS(keySet))
	m.Handle("/par", middleware.Adapt(handlers.PushedAuthorizationRequest(iss, s.w.Authz, dv), auth))
	m.Handle("/authorize", middleware.Adapt(handlers.Authorization(iss, s.w.Authz, s.w.Clients, je, enc), sec, basic))
	m.Handle("/token", middleware.Adapt(handlers.Token(iss, s.w.Tok, dv), auth))
	m.Handle("/token/introspect", middleware.Adapt(handlers.TokenIntrospection(iss, s.w.Tok), auth))
	m.Handle("/token/revoke", middleware.Adapt(handlers.TokenRevocation(iss, s.w.Tok), auth))
	m.Handle("/device/authorize", middleware.Adapt(handlers.DeviceAuthorization(iss, s.w.Dev), auth))
	m.Handle("/device", middleware.Adapt(handlers.Device(iss, s.w.Dev), sec, basic))
	s.mux = m
	return s
}

func (s *sim) id() string {
	s.seq++
	return fmt.Sprintf("id-%s-%d", "n", s.seq)
}

// assertion authenticates a confidential client.
func (s *sim) assertion(p *party, k *fx.Key, change func(fx.Map)) string {
	now := time.Now().Unix()
	m := fx.Map{"iss": p.cl.ClientId, "sub": p.cl.ClientId, "aud": iss, "jti": s.id(), "exp": now + 30, "iat": now}
	if change != nil {
		change(m)
	}
	kid := "k1"
	if k.Alg == jose.ES256 {
		kid = "k2"
	}
	return fx.JWS(k, fx.Map{"alg": string(k.Alg), "typ": "JWT", "kid": kid}, fx.JSON(m))
}

// attestation authenticates a client through its attester.
func (s *sim) attestation(p *party, signer, inst *fx.Key) string {
	now := time.Now().Unix()
	jwk := pub(inst, "")
	att := fx.Map{"iss": "attester", "sub": p.cl.ClientId, "exp": now + 300, "iat": now, "cnf": fx.Map{"jwk": fx.AsMap(&jwk)}}
	pop := fx.Map{"iss": p.cl.ClientId, "aud": iss, "jti": s.id(), "exp": now + 30, "iat": now}
	return fx.JWS(signer, fx.Map{"alg": string(signer.Alg), "kid": "att", "typ": "client-attestation+jwt"}, fx.JSON(att)) + "~" +
		fx.JWS(inst, fx.Map{"alg": string(inst.Alg), "typ": "client-attestation-pop+jwt"}, fx.JSON(pop))
}

// auth adds what authenticates a party to a request.
func (s *sim) auth(p *party, q, form url.Values) {
	switch p.name {
	case "public":
		q.Set("client_id", p.cl.ClientId)
	case "attested":
		form.Set("client_assertion_type", oidc.AssertionTypeJWTClientAttestation)
		form.Set("client_assertion", s.attestation(p, s.att, p.pop))
	default:
		form.Set("client_assertion_type", oidc.AssertionTypeJWTBearer)
		form.Set("client_assertion", s.assertion(p, p.akey, nil))
	}
}

// badAuth adds what must not authenticate anyone.
func (s *sim) badAuth(t *rapid.T, p *party, q, form url.Values) string {
	conf := s.parties[fx.Int(t, "conf", 0, 2)]
	other := s.parties[fx.Int(t, "other", 0, 1)]
	if other == conf {
		other = s.parties[2]
	}
	how := fx.Pick(t, "badauth", "none", "id only", "unknown id", "unknown type", "crossed type", "expired", "other key", "tampered", "two names", "attester", "no assertion", "id and assertion")
	form.Set("client_assertion_type", oidc.AssertionTypeJWTBearer)
	switch how {
	case "none":
		form.Del("client_assertion_type")
	case "id only":
		form.Del("client_assertion_type")
		q.Set("client_id", conf.cl.ClientId)
	case "id and assertion": // of an unregistered client
		form.Set("client_assertion", s.assertion(conf, fx.GetKey(jose.ES384, 9), nil))
		q.Set("client_id", conf.cl.ClientId)
	case "unknown id":
		q.Set("client_id", fx.Mutate(t, "cid", "public"))
		if q.Get("client_id") == "" || q.Get("client_id") == "public" {
			q.Set("client_id", "nobody")
		}
	case "unknown type":
		form.Set("client_assertion_type", fx.Mutate(t, "atype", oidc.AssertionTypeJWTBearer))
		form.Set("client_assertion", s.assertion(conf, conf.akey, nil))
		if v := form.Get("client_assertion_type"); v == oidc.AssertionTypeJWTBearer || v == oidc.AssertionTypeJWTClientAttestation {
			form.Set("client_assertion_type", "x")
		}
	case "crossed type":
		form.Set("client_assertion_type", oidc.AssertionTypeJWTClientAttestation)
		form.Set("client_assertion", s.assertion(conf, conf.akey, nil))
	case "expired":
		form.Set("client_assertion", s.assertion(conf, conf.akey, func(m fx.Map) {
			m["exp"] = time.Now().Unix() - int64(fx.Pick(t, "ago", 1, 30, 3000))
		}))
	case "other key":
		form.Set("client_assertion", s.assertion(conf, other.akey, nil))
	case "tampered":
		v, _ := fx.Tamper(t, s.assertion(conf, conf.akey, nil))
		form.Set("client_assertion", v)
	case "two names":
		form.Set("client_assertion", s.assertion(conf, conf.akey, func(m fx.Map) {
			m[fx.Pick(t, "claim", "iss", "sub")] = other.cl.ClientId
		}))
	case "attester":
		form.Set("client_assertion_type", oidc.AssertionTypeJWTClientAttestation)
		form.Set("client_assertion", s.attestation(s.parties[4], fx.GetKey(jose.ES256, 9), p.pop))
	}
	return how
}

// proof is a DPoP proof.
func (s *sim) proof(k *fx.Key, method, target string, off int64) string {
	jwk := pub(k, "")
	return fx.JWS(k, fx.Map{"alg": string(k.Alg), "typ": "dpop+jwt", "jwk": fx.AsMap(&jwk)},
		fx.JSON(fx.Map{"jti": s.id(), "htm": method, "htu": target, "iat": time.Now().Unix() + off}))
}

func (s *sim) badProof(t *rapid.T, k *fx.Key, path string) (string, string) {
	how := fx.Pick(t, "badproof", "url", "method", "old", "future", "tampered", "replayed", "garbage", "host", "query")
	switch how {
	case "url":
		return s.proof(k, "POST", iss+fx.Pick(t, "elsewhere", "/device/authorize", "/token/introspect", "/", path+"/", ""), 0), how
	case "host":
		return s.proof(k, "POST", "http://127.0.0.1:8081"+path, 0), how
	case "query":
		return s.proof(k, "POST", "https://127.0.0.1:8080"+path, 0), how
	case "method":
		return s.proof(k, "GET", iss+path, 0), how
	case "old":
		return s.proof(k, "POST", iss+path, -17), how
	case "future":
		return s.proof(k, "POST", iss+path, 17), how
	case "tampered":
		v, _ := fx.Tamper(t, s.proof(k, "POST", iss+path, 0))
		return v, how
	case "replayed":
		if u := s.proofs[path]; len(u) > 0 {
			return u[len(u)-1], how
		}
	}
	return "not.a.proof", "garbage"
}

func thumb(k *fx.Key) string {
	b, err := (&jose.JSONWebKey{Key: k.Pub}).Thumbprint(crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(b)
}

func (s *sim) sign(k *fx.Key, r *flowv1.AuthorizationRequest) string {
	v, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(k.Alg, fx.Provider(k.JWK("k1")))).Encode(bg, r)
	if err != nil {
		s.c.Fatalf("request object: %v", err)
	}
	return v
}

// call makes one HTTP request.
func (s *sim) call(method, path string, q, form url.Values, hdr http.Header) *httptest.ResponseRecorder {
	s.c.Step()
	target := iss + path
	if len(q) > 0 {
		target += "?" + q.Encode()
	}
	var body io.Reader
	if form != nil && method != http.MethodGet {
		body = strings.NewReader(form.Encode())
	} else if form != nil && len(form) > 0 {
		sep := "?"
		if len(q) > 0 {
			sep = "&"
		}
		target += sep + form.Encode()
	}
	r := httptest.NewRequest(method, target, body)
	if body != nil {
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	for k, v := range hdr {
		r.Header[http.CanonicalHeaderKey(k)] = v
	}
	rec := httptest.NewRecorder()
	out := os.Stdout
	os.Stdout = devNull
	defer func() { os.Stdout = out }()
	s.mux.ServeHTTP(rec, r)
	return rec
}

func (s *sim) doc(what string, rec *httptest.ResponseRecorder) map[string]any {
	var m map[string]any
	if err := json.Unmarshal(rec.Body.Bytes(), &m); err != nil {
		s.c.Fatalf("%s: answer %d is no JSON object: %v: %q", what, rec.Code, err, rec.Body.String())
	}
	if !strings.HasPrefix(rec.Header().Get("Content-Type"), "application/json") {
		s.c.Fatalf("%s: JSON sent as %q", what, rec.Header().Get("Content-Type"))
	}
	return m
}

// code is the error code of an answer.
func (s *sim) code(m map[string]any) string {
	if e, _ := m["error"].(string); e != "" {
		return e
	}
	if e, _ := m["err"].(string); e != "" && m["error"] == nil && s.suite.Known("error-member") {
		return e
	}
	return ""
}

// refused checks an answer which must not give anything.
func (s *sim) refused(what string, rec *httptest.ResponseRecorder, want int, plain bool) {
	s.no++
	s.log = append(s.log, what)
	if want != 0 && rec.Code != want || rec.Code < 400 || rec.Code > 499 {
		s.c.Fatalf("%s: answered %d: %s", what, rec.Code, rec.Body.String())
	}
	if l := rec.Header().Get("Location"); l != "" {
		s.c.Fatalf("%s: refused with a redirection to %q", what, l)
	}
	for _, v := range s.secrets {
		if strings.Contains(rec.Body.String(), v) {
			s.c.Fatalf("%s: refusal contains the credential %q: %s", what, v, rec.Body.String())
		}
	}
	if plain {
		return
	}
	m := s.doc(what, rec)
	if s.code(m) == "" {
		s.c.Fatalf("%s: refused without error code: %s", what, rec.Body.String())
	}
	for _, n := range []string{"access_token", "refresh_token", "code", "request_uri", "device_code", "user_code", "active", "response"} {
		if _, has := m[n]; has {
			s.c.Fatalf("%s: refused with %s: %s", what, n, rec.Body.String())
		}
	}
}

func clear(t time.Time) bool { return fx.Clear(t) }

// frozen runs f, which must not record anything.
func (s *sim) frozen(f func()) {
	before := *s.n
	f()
	if *s.n != before {
		s.c.Fatalf("a refused request was recorded: %+v, before %+v (%v)", *s.n, before, s.log[len(s.log)-1])
	}
}

// audit compares every token and code with the model.
func (s *sim) audit() {
	for _, t := range s.toks {
		got, err := s.w.Tokens.GetByValue(bg, iss, t.value)
		if err != nil {
			s.c.Fatalf("issued token is not stored: %v", err)
		}
		if revoked := got.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED; revoked != t.revoked {
			s.c.Fatalf("token of %s (refresh %v) has status %v, revoked in the model: %v (%v)", t.p.name, t.refresh, got.Status, t.revoked, s.log)
		}
	}
	for _, k := range s.codes {
		if !clear(k.expiry) {
			continue
		}
		_, err := s.w.Codes.Get(bg, iss, k.value)
		if live := !k.used && time.Now().Before(k.expiry); (err == nil) != live {
			s.c.Fatalf("code of %s is stored: %v, expected %v (%v)", k.p.name, err == nil, live, s.log)
		}
	}
	for _, r := range s.reqs {
		if r.uri == "" || !clear(r.expiry) {
			continue
		}
		_, err := s.w.Reqs.Get(bg, iss, r.uri)
		if live := !r.used && time.Now().Before(r.expiry); (err == nil) != live {
			s.c.Fatalf("pushed request of %s is stored: %v, expected %v (%v)", r.p.name, err == nil, live, s.log)
		}
	}
}

func words(v any) []string {
	w := strings.Fields(fmt.Sprint(v))
	sort.Strings(w)
	return w
}

func num(v any) uint64 {
	f, _ := v.(float64)
	return uint64(f)
}

// granted checks the answer of the token endpoint and records the tokens.
func (s *sim) granted(what string, rec *httptest.ResponseRecorder, p *party, hdr http.Header, jkt, sub, aud string, scope []string, wantRefresh bool) (at, rt *tok) {
	s.ok++
	s.log = append(s.log, what)
	if rec.Code != http.StatusOK {
		s.c.Fatalf("%s: answered %d: %s (%v)", what, rec.Code, rec.Body.String(), s.log)
	}
	m := s.doc(what, rec)
	if m["error"] != nil || m["err"] != nil {
		s.c.Fatalf("%s: %s", what, rec.Body.String())
	}
	now := uint64(time.Now().Unix())
	av, _ := m["access_token"].(string)
	rv, _ := m["refresh_token"].(string)
	if av == "" || wantRefresh != (rv != "") || av == rv {
		s.c.Fatalf("%s: tokens %q %q, refresh token expected: %v", what, av, rv, wantRefresh)
	}
	want := "Bearer"
	if jkt != "" {
		want = "DPoP"
	}
	byRequest := "Bearer"
	if hdr.Get("DPoP") != "" {
		byRequest = "DPoP"
	}
	if tt, _ := m["token_type"].(string); tt != want && !(tt == byRequest && s.suite.Known("token-type")) {
		s.c.Fatalf("%s: token_type %q for a token bound to %q", what, tt, jkt)
	}
	sort.Strings(scope)
	if got := words(m["scope"]); !slices.Equal(got, scope) {
		s.c.Fatalf("%s: scope %v, granted %v", what, got, scope)
	}
	at = &tok{p: p, value: av, jkt: jkt, sub: sub, aud: aud, scope: scope, iat: now, exp: now + 3600}
	if e := num(m["expires_in"]); e != 3600 {
		s.c.Fatalf("%s: expires_in %d", what, e)
	}
	s.toks = append(s.toks, at)
	s.secrets = append(s.secrets, av)
	if rv != "" {
		rt = &tok{p: p, value: rv, refresh: true, jkt: jkt, sub: sub, aud: aud, scope: scope, iat: now, exp: now + 7*86400}
		s.toks = append(s.toks, rt)
		s.secrets = append(s.secrets, rv)
	}
	return at, rt
}

var formRe = regexp.MustCompile(`<form method="post" action="([^"]*)"><input type="hidden" name="response" value="([^"]*)"/></form>`)

// answer reads the authorization response as the client's redirect URI gets it.
func (s *sim) answer(what string, rec *httptest.ResponseRecorder, r *request) *code {
	c := s.c
	mode := r.ar.GetResponseMode()
	for h, v := range map[string]string{"X-Frame-Options": "DENY", "X-Content-Type-Options": "nosniff", "Referrer-Policy": "no-referrer"} {
		if rec.Header().Get(h) != v {
			c.Fatalf("%s: header %s is %q", what, h, rec.Header().Get(h))
		}
	}
	var to string
	var got url.Values
	if mode == oidc.ResponseModeFormPOSTJWT {
		m := formRe.FindStringSubmatch(rec.Body.String())
		if rec.Code != http.StatusOK || m == nil || rec.Header().Get("Location") != "" {
			c.Fatalf("%s: answered %d %q to a form_post request", what, rec.Code, rec.Body.String())
		}
		to, got = html.UnescapeString(m[1]), url.Values{"response": {html.UnescapeString(m[2])}}
		if cc := rec.Header().Get("Cache-Control"); !strings.Contains(cc, "no-store") {
			c.Fatalf("%s: form with a code is cached: %q", what, cc)
		}
	} else {
		if rec.Code != http.StatusFound {
			c.Fatalf("%s: answered %d: %s (%v)", what, rec.Code, rec.Body.String(), s.log)
		}
		u, err := url.Parse(rec.Header().Get("Location"))
		if err != nil {
			c.Fatalf("%s: Location: %v", what, err)
		}
		own, err := url.Parse(r.ar.RedirectUri)
		if err != nil {
			c.Fatalf("HARNESS-ERROR %v", err)
		}
		all := u.Query()
		if mode == oidc.ResponseModeFragmentJWT {
			if got, err = url.ParseQuery(u.EscapedFragment()); err != nil {
				c.Fatalf("%s: fragment: %v", what, err)
			}
		} else {
			if u.Fragment != "" {
				c.Fatalf("%s: fragment in %q", what, u)
			}
			got = url.Values{}
			if len(all) == 1 && len(all["response"]) == 1 && len(own.Query()) > 0 && s.suite.Known("redirect-query") {
				all = own.Query()
				all["response"] = u.Query()["response"]
			}
			for k, v := range all {
				if _, mine := own.Query()[k]; !mine {
					got[k] = v
				}
			}
		}
		for k, v := range own.Query() {
			if !slices.Equal(all[k], v) {
				c.Fatalf("%s: the redirect URI %q became %q", what, r.ar.RedirectUri, u)
			}
			delete(all, k)
		}
		if mode == oidc.ResponseModeFragmentJWT && len(all) != 0 {
			c.Fatalf("%s: query of %q", what, u)
		}
		u.RawQuery, own.RawQuery, u.Fragment, u.RawFragment = "", "", "", ""
		to = u.String()
		if to != own.String() {
			c.Fatalf("%s: answered to %q, registered %q", what, to, r.ar.RedirectUri)
		}
		to = r.ar.RedirectUri
	}
	if to != r.ar.RedirectUri {
		c.Fatalf("%s: answered to %q, requested %q", what, to, r.ar.RedirectUri)
	}
	var value, state, from string
	if mode == oidc.ResponseModeQuery && !(len(got) == 1 && len(got["response"]) == 1 && s.suite.Known("query-mode")) {
		value, state, from = got.Get("code"), got.Get("state"), got.Get("iss")
		if len(got) != 3 {
			c.Fatalf("%s: answered %v", what, got)
		}
	} else {
		if len(got) != 1 || len(got["response"]) != 1 {
			c.Fatalf("%s: answered %v", what, got)
		}
		v := jwt.DefaultVerifier(fx.SetProvider(pub(s.jarmKey, "srv")), []jose.SignatureAlgorithm{jose.ES384})
		dec := jarm.Decoder(iss, v)
		for _, p := range s.parties {
			res, err := dec.Decode(bg, p.cl.ClientId, got.Get("response"))
			if (err == nil) != (p == r.p) {
				c.Fatalf("%s: response for %s decodes for %s: %v", what, r.p.name, p.name, err)
			}
			if err == nil {
				value, state, from = res.Code, res.State, res.Issuer
			}
		}
	}
	if value == "" || state != r.ar.State || from != iss {
		c.Fatalf("%s: code %q state %q iss %q for %v", what, value, state, from, r.ar)
	}
	c.Hit("mode %q answered", mode)
	k := &code{request: r, value: value, expiry: time.Now().Add(60 * time.Second)}
	s.codes = append(s.codes, k)
	s.secrets = append(s.secrets, value)
	s.ok++
	s.log = append(s.log, what+" "+r.p.name+" "+mode)
	return k
}

func (s *sim) newRequest(t *rapid.T, p *party) *request {
	v := fx.Verifier(t, "ver")
	r := &request{p: p, verifier: v, ar: fx.ValidRequest(t, "ar", p.cl.ClientId, fx.Pick(t, "redir", p.cl.RedirectUris...), v)}
	if fx.Chance(t, "offline", 2) {
		r.ar.Scope, r.ar.Prompt = "openid offline_access", fx.Ref("consent")
	}
	if m := fx.Pick(t, "mode", "", "jwt", "query.jwt", "fragment.jwt", "form_post.jwt", "query"); m != "" && (m != oidc.ResponseModeFormPOSTJWT || strings.HasPrefix(r.ar.RedirectUri, "http")) {
		r.ar.ResponseMode = &m
	}
	return r
}

func basic(u, p string) http.Header {
	r := http.Request{Header: http.Header{}}
	r.SetBasicAuth(u, p)
	return r.Header
}

func pickLast[V any](t *rapid.T, label string, vs []V) V {
	return vs[len(vs)-1-fx.Int(t, label, 0, len(vs)-1)]
}

func TestC39(t *testing.T) {
	s := hx.New(t, "C39", "rapid state machine over HTTP requests to the mux of the reference server: pushed and direct authorizations by five clients (pairwise, public-subject, DPoP-only, public, attested) in five response modes, redemptions, refreshes, client credentials, device flows, introspections, revocations, clock advances, and each request also with one deviation (authentication, user, method, proof, request object, code, verifier, owner); answers, redirections and storage compared with a model. Non-trivial: a history with granted tokens and a refused request; identified by its requests.",
		"GET on introspection and revocation, the plain fragment and form_post modes and requests authenticating two clients at once are not exercised", "a form_post answer to a redirect URI of an application scheme is not exercised (no form can be posted to one)", "the 50 ms around an expiration are not tested")
	log.SetOutput(io.Discard)
	var err error
	if devNull, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
		t.Fatal(err)
	}

	s.Prop("history", 900, func(c *hx.Case) {
		m := newSim(s, c)
		c.Bubble(func() {
			time.Sleep(time.Duration(fx.Int(c.T, "start", 0, 999)) * time.Millisecond)
			c.Repeat(map[string]func(*rapid.T){
				"":           func(*rapid.T) { m.audit() },
				"push":       m.push,
				"authorize":  m.authorize,
				"full":       m.full,
				"redeem":     m.redeem,
				"refresh":    m.refresh,
				"creds":      m.credentials,
				"device":     m.deviceStart,
				"approve":    m.deviceApprove,
				"poll":       m.devicePoll,
				"introspect": m.introspect,
				"revoke":     m.revoke,
				"odd":        m.odd,
				"discover":   m.discover,
				"advance": func(t *rapid.T) {
					d := time.Duration(fx.Pick(t, "ms", 500, 1500, 16000, 59900, 60100, 119500, 3599500, 3600500, 86400000, 600000000, 601300000)) * time.Millisecond
					if len(m.codes) > 0 && fx.Chance(t, "end", 3) {
						d = fx.NearEnd(t, "near", m.codes[len(m.codes)-1].expiry)
					}
					time.Sleep(d)
					m.log = append(m.log, "advance "+d.String())
				},
			})
			time.Sleep(2 * time.Second)
			for _, tk := range m.toks {
				m.look(tk, m.parties[0])
			}
		})
		if len(m.toks) > 0 && m.no > 0 {
			c.NonTrivial("%s", strings.Join(m.log, ", "))
		}
	})
}
