package c33

import (
	"context"
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"slices"
	"strings"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"go.mozilla.org/cose"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/dpop"
	"zntr.io/solid/sdk/jarm"
	"zntr.io/solid/sdk/jwsreq"
	"zntr.io/solid/sdk/pairwise"
	"zntr.io/solid/sdk/pkce"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"
	"zntr.io/solid/sdk/token/verifiable"
	"zntr.io/solid/server/clientauthentication"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

// server is an authorization server made of the built-in components.
type server struct {
	w        *fx.World
	iss      string
	algs     []jose.SignatureAlgorithm
	jarmKey  *fx.Key
	jarm     jarm.ResponseEncoder
	proofs   dpop.Verifier
	pairwise pairwise.Encoder
	auth     clientauthentication.AuthenticationProcessor
	atKind   string
	atKey    *fx.Key
}

func newServer(t *rapid.T, cs ...*clientv1.Client) *server {
	s := &server{w: fx.NewWorld(cs...), algs: fx.SigAlgs, iss: fx.Pick(t, "issuer", "https://as.example.com", "http://127.0.0.1:8080", "https://as.example.com/tenant/a")}
	s.jarmKey = fx.AnyKey(t, "jarmkey")
	s.jarm = jarm.Encoder(jwt.JARMSigner(s.jarmKey.Alg, fx.Provider(s.jarmKey.JWK("jarm"))))
	s.proofs = dpop.DefaultVerifier(s.w.Proofs, jwt.EmbeddedKeyVerifier(s.algs))
	s.pairwise = pairwise.Hash([]byte("salt of the server, long enough"))
	s.auth = clientauthentication.PrivateKeyJWT(s.w.Clients, s.algs)
	s.atKey = fx.AnyKey(t, "atkey")
	s.atKind = fx.Pick(t, "at", "opaque", "verifiable", "jwt", "cwt")
	gen := func(kind string, refresh bool) token.Generator {
		switch kind {
		case "verifiable":
			return verifiable.Token(fx.Pick(t, "uuid", verifiable.UUIDv4Source(), verifiable.UUIDv7Source()), []byte("secret key of the token verification"))
		case "jwt":
			if refresh {
				return token.RefreshToken(jwt.RefreshTokenSigner(s.atKey.Alg, fx.Provider(s.atKey.JWK("at"))))
			}
			return token.AccessToken(jwt.AccessTokenSigner(s.atKey.Alg, fx.Provider(s.atKey.JWK("at"))))
		case "cwt":
			k := fx.GetKey(jose.ES256, 4)
			if refresh {
				return token.RefreshToken(cwt.RefreshTokenSigner(cose.ES256, fx.Provider(k.JWK("at"))))
			}
			return token.AccessToken(cwt.AccessTokenSigner(cose.ES256, fx.Provider(k.JWK("at"))))
		default:
			return token.OpaqueToken()
		}
	}
	s.w.ATGen = gen(s.atKind, false)
	s.w.RTGen = gen(fx.Pick(t, "rt", "opaque", "verifiable", "jwt", "cwt"), true)
	s.w.Wire()
	return s
}

func keysOf(cl *clientv1.Client) func(context.Context) (*jose.JSONWebKeySet, error) {
	return func(context.Context) (*jose.JSONWebKeySet, error) {
		var ks jose.JSONWebKeySet
		return &ks, json.Unmarshal(cl.Jwks, &ks)
	}
}

// authenticate recognizes a client by its assertion.
func (s *server) authenticate(assertion string) (*clientv1.Client, error) {
	res, err := s.auth.Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTBearer), ClientAssertion: &assertion})
	if err != nil {
		return nil, err
	}
	return res.Client, nil
}

// par is the pushed authorization request endpoint.
func (s *server) par(assertion, proof, request string) (string, error) {
	cl, err := s.authenticate(assertion)
	if err != nil {
		return "", fmt.Errorf("client: %w", err)
	}
	jkt, err := s.proofs.Verify(bg, http.MethodPost, s.iss+"/par", proof)
	if err != nil {
		return "", fmt.Errorf("proof: %w", err)
	}
	ar, err := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(keysOf(cl), s.algs)).Decode(bg, request)
	if err != nil {
		return "", fmt.Errorf("request: %w", err)
	}
	res, err := s.w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: s.iss, Client: cl, Request: ar, Confirmation: &tokenv1.TokenConfirmation{Jkt: jkt}})
	if err != nil {
		return "", err
	}
	if res.Error != nil || res.Issuer != s.iss || res.ExpiresIn == 0 {
		return "", fmt.Errorf("incomplete answer %v", res)
	}
	return res.RequestUri, nil
}

// authorize is the authorization endpoint, with an authenticated user.
func (s *server) authorize(clientID, user, request string) (string, error) {
	cl, err := s.w.Clients.Get(bg, clientID)
	if err != nil {
		return "", err
	}
	sub := user
	if cl.SubjectType == oidc.SubjectTypePairwise {
		if sub, err = s.pairwise.Encode(cl.SectorIdentifier, user); err != nil {
			return "", err
		}
	}
	ar, err := jwsreq.AuthorizationRequestDecoder(jwt.DefaultVerifier(keysOf(cl), s.algs)).Decode(bg, request)
	if err != nil {
		return "", fmt.Errorf("request: %w", err)
	}
	res, err := s.w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Client: cl, Issuer: s.iss, Subject: sub, Request: ar})
	if err != nil {
		return "", err
	}
	return s.jarm.Encode(bg, s.iss, res)
}

// token is the token endpoint for any grant.
func (s *server) token(assertion, proof string, req *flowv1.TokenRequest) (*flowv1.TokenResponse, error) {
	cl, err := s.authenticate(assertion)
	if err != nil {
		return nil, fmt.Errorf("client: %w", err)
	}
	req.Issuer, req.Client = s.iss, cl
	if proof != "" {
		jkt, err := s.proofs.Verify(bg, http.MethodPost, s.iss+"/token", proof)
		if err != nil {
			return nil, fmt.Errorf("proof: %w", err)
		}
		req.TokenConfirmation = &tokenv1.TokenConfirmation{Jkt: jkt}
	}
	res, err := s.w.Tok.Token(bg, req)
	if err != nil {
		return nil, err
	}
	if res.Error != nil || res.AccessToken == nil {
		return nil, fmt.Errorf("incomplete answer %v", res)
	}
	return res, nil
}

const resource = "https://rs.example/api/v1"

// resource is a protected resource: it asks the server about the token.
func (s *server) resource(rs, value, proof string) (*tokenv1.Token, error) {
	res, err := s.w.Introspect(s.iss, rs, value)
	if err != nil || res.Error != nil {
		return nil, fmt.Errorf("introspection: %v %v", res, err)
	}
	tk := res.Token
	if tk.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE || !token.IsUsable(tk) || tk.TokenType != tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN {
		return nil, fmt.Errorf("token is not usable")
	}
	if j := tk.GetConfirmation().GetJkt(); j != "" {
		if _, err := s.proofs.Verify(bg, http.MethodGet, resource, proof, dpop.WithTokenValue(value), dpop.WithTokenConfirmation(j)); err != nil {
			return nil, fmt.Errorf("proof: %w", err)
		}
	}
	return tk, nil
}

// session is one run of a client.
type session struct {
	s        *server
	cl       *clientv1.Client
	key      *fx.Key // of the client
	pop      *fx.Key // of the session
	user     string
	verifier string
	redirect string
	req      *flowv1.AuthorizationRequest
	n        int
	used     []string // proofs shown to the server

	uri, response, code string
	at, rt              *tokenv1.Token
}

func (a *session) assertion(k *fx.Key) string {
	a.n++
	now := uint64(time.Now().Unix())
	v, err := token.ClientAssertion(jwt.ClientAssertionSigner(k.Alg, fx.Provider(k.JWK("sig")))).Generate(bg, &tokenv1.Token{
		TokenId:  fmt.Sprintf("%s-%d", a.verifier, a.n),
		Metadata: &tokenv1.TokenMeta{Issuer: a.cl.ClientId, Subject: a.cl.ClientId, Audience: a.s.iss, IssuedAt: now, NotBefore: now, ExpiresAt: now + 30},
	})
	if err != nil {
		panic(fmt.Sprintf("client assertion: %v", err))
	}
	return v
}

func (a *session) prove(k *fx.Key, method, url string, opts ...dpop.Option) string {
	v, err := dpop.DefaultProver(jwt.DPoPSigner(k.Alg, fx.Provider(k.JWK("pop")))).Prove(method, url, opts...)
	if err != nil {
		panic(fmt.Sprintf("proof: %v", err))
	}
	return v
}

func (a *session) sign(k *fx.Key, r *flowv1.AuthorizationRequest) string {
	v, err := jwsreq.AuthorizationRequestEncoder(jwt.RequestSigner(k.Alg, fx.Provider(k.JWK("sig")))).Encode(bg, r)
	if err != nil {
		panic(fmt.Sprintf("request object: %v", err))
	}
	return v
}

func thumb(k *fx.Key) string {
	b, err := (&jose.JSONWebKey{Key: k.Pub}).Thumbprint(crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(b)
}

// elements are what a session shows at one step; a test may replace one.
type elements struct {
	assertion, proof, request, uri, response, code, verifier, redirect, token string
}

func (a *session) doPar(e elements) error {
	uri, err := a.s.par(e.assertion, e.proof, e.request)
	a.used = append(a.used, e.proof)
	a.uri = uri
	return err
}

func (a *session) parElements() elements {
	return elements{assertion: a.assertion(a.key), proof: a.prove(a.pop, http.MethodPost, a.s.iss+"/par"), request: a.sign(a.key, a.req)}
}

func (a *session) front(k *fx.Key, uri string) string {
	return a.sign(k, &flowv1.AuthorizationRequest{ClientId: a.cl.ClientId, RequestUri: &uri})
}

func (a *session) doAuthorize(request string) error {
	r, err := a.s.authorize(a.cl.ClientId, a.user, request)
	a.response = r
	return err
}

// receive is the client's callback.
func (a *session) receive(response string) error {
	k := a.s.jarmKey
	dec := jarm.Decoder(a.s.iss, jwt.DefaultVerifier(fx.SetProvider(k.PubJWK("jarm")), a.s.algs))
	res, err := dec.Decode(bg, a.cl.ClientId, response)
	if err != nil {
		return err
	}
	if res.Error != nil {
		return fmt.Errorf("error answer %v", res.Error)
	}
	if res.State != a.req.State || res.Issuer != a.s.iss || res.Code == "" {
		return fmt.Errorf("answer %v is not for this session", res)
	}
	a.code = res.Code
	return nil
}

func (a *session) tokenElements() elements {
	return elements{assertion: a.assertion(a.key), proof: a.prove(a.pop, http.MethodPost, a.s.iss+"/token"), code: a.code, verifier: a.verifier, redirect: a.redirect}
}

func (a *session) doRedeem(e elements) (*flowv1.TokenResponse, error) {
	if e.proof != "" {
		a.used = append(a.used, e.proof)
	}
	return a.s.token(e.assertion, e.proof, &flowv1.TokenRequest{GrantType: oidc.GrantTypeAuthorizationCode,
		Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: e.code, RedirectUri: e.redirect, CodeVerifier: e.verifier}}})
}

func (a *session) doRefresh(assertion, value, proof string) (*flowv1.TokenResponse, error) {
	return a.s.token(assertion, proof, &flowv1.TokenRequest{GrantType: oidc.GrantTypeRefreshToken,
		Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: value}}})
}

func (a *session) doExchange(assertion, value string, scope, aud *string) (*flowv1.TokenResponse, error) {
	return a.s.token(assertion, "", &flowv1.TokenRequest{GrantType: oidc.GrantTypeTokenExchange, Scope: scope, Audience: aud,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: value, SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
}

func (a *session) revoke(value string) error {
	cl, err := a.s.authenticate(a.assertion(a.key))
	if err != nil {
		return err
	}
	res, err := a.s.w.Tok.Revoke(bg, &tokenv1.RevokeRequest{Issuer: a.s.iss, Client: cl, Token: value})
	if err != nil {
		return err
	}
	if res.Error != nil {
		return fmt.Errorf("%v", res.Error)
	}
	return nil
}

// population draws two sessions on one server.
func population(t *rapid.T) (*server, *session, *session) {
	type reg struct {
		cl  *clientv1.Client
		key *fx.Key
	}
	var regs []reg
	for i, id := range []string{"client-a", "client-b"} {
		cl := fx.FullClient(id, "https://"+id+".example/cb", "https://"+id+".example/other", "com.example."+id+":/cb")
		// A compliant client needs only what it uses.
		if fx.Chance(t, "lean", 2) {
			cl.ResponseTypes, cl.ResponseModes = []string{oidc.ResponseTypeCode}, []string{oidc.ResponseModeQueryJWT}
		}
		k := fx.GetKey(fx.Pick(t, "clientalg", fx.SigAlgs...), i)
		set := []jose.JSONWebKey{k.PubJWK("sig")}
		if fx.Chance(t, "morekeys", 3) {
			set = append(set, fx.GetKey(jose.ES256, 7).PubJWK("old"))
		}
		cl.Jwks = fx.JWKS(set...)
		cl.ClientType = fx.Pick(t, "type", clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED)
		if rapid.Bool().Draw(t, "pairwise") {
			cl.SubjectType, cl.SectorIdentifier = oidc.SubjectTypePairwise, "https://"+id+".example"
		}
		regs = append(regs, reg{cl, k})
	}
	rs := fx.FullClient("rs")
	s := newServer(t, regs[0].cl, regs[1].cl, rs)
	mk := func(i int, who string) *session {
		r := regs[0]
		if i == 1 && !fx.Chance(t, "sameclient", 4) {
			r = regs[1]
		}
		v, ch, err := pkce.CodeVerifier()
		if err != nil {
			t.Fatalf("pkce: %v", err)
		}
		a := &session{s: s, cl: r.cl, key: r.key, user: who, verifier: v, pop: fx.GetKey(fx.Pick(t, who+"_popalg", fx.SigAlgs...), 2+i)}
		a.redirect = fx.Pick(t, who+"_redirect", r.cl.RedirectUris...)
		a.req = fx.ValidRequest(t, who, r.cl.ClientId, a.redirect, v)
		a.req.CodeChallenge = ch
		a.req.State = fx.Str(t, who+"_state", fx.Unreserved, 32, 40) + who
		a.req.Audience = "urn:example:backend-api"
		if !slices.Contains(strings.Fields(a.req.Scope), "openid") {
			a.req.Scope = strings.TrimSpace("openid " + a.req.Scope)
		}
		if fx.Chance(t, who+"_offline", 2) && !slices.Contains(strings.Fields(a.req.Scope), "offline_access") {
			a.req.Scope += " offline_access"
		}
		if fx.Chance(t, who+"_consent", 2) {
			a.req.Prompt = fx.Ref(oidc.PromptConsent)
		}
		if rapid.Bool().Draw(t, who+"_mode") {
			a.req.ResponseMode = fx.Ref(oidc.ResponseModeQueryJWT)
		}
		return a
	}
	return s, mk(0, "alice"), mk(1, "bob")
}

// grant is what the session's tokens must say.
func (a *session) grant(typ tokenv1.TokenType) fx.Grant {
	sub := a.user
	if a.cl.SubjectType == oidc.SubjectTypePairwise {
		var err error
		if sub, err = a.s.pairwise.Encode(a.cl.SectorIdentifier, a.user); err != nil || sub == "" || sub == a.user {
			panic(fmt.Sprintf("pairwise subject %q %v", sub, err))
		}
	}
	g := fx.Grant{Issuer: a.s.iss, Subject: sub, Client: a.cl.ClientId, Audience: a.req.Audience, Scope: strings.Join(fx.RecordedScope(a.req), " "), Jkt: thumb(a.pop), Type: typ, Issued: uint64(time.Now().Unix()), Lifetime: 3600}
	if typ == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {
		g.Lifetime = 7 * 24 * 3600
	}
	return g
}

func (a *session) offline() bool {
	return slices.Contains(fx.RecordedScope(a.req), "offline_access")
}

// upTo takes the session to just before a step of the main flow.
func (a *session) upTo(c *hx.Case, step string) {
	must := func(what string, err error) {
		if err != nil {
			c.Fatalf("%s of %s at %s (%v, tokens %s, proof key %s, client key %s): %v", what, a.user, a.s.iss, a.req, a.s.atKind, a.pop.Alg, a.key.Alg, err)
		}
	}
	c.Step()
	if step == "par" {
		return
	}
	must("par", a.doPar(a.parElements()))
	if step == "authorize" {
		return
	}
	must("authorize", a.doAuthorize(a.front(a.key, a.uri)))
	if step == "receive" {
		return
	}
	must("response", a.receive(a.response))
	if step == "redeem" {
		return
	}
	res, err := a.doRedeem(a.tokenElements())
	must("redeem", err)
	fx.WantTokens(c, "redeem", res, err, a.offline())
	fx.WantToken(c, "access token", res.AccessToken, a.grant(tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN))
	if a.offline() {
		fx.WantToken(c, "refresh token", res.RefreshToken, a.grant(tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN))
	}
	a.at, a.rt = res.AccessToken, res.RefreshToken
}

// access uses an access token of the session at the resource.
func (a *session) access(c *hx.Case, tk *tokenv1.Token) {
	got, err := a.s.resource("rs", tk.Value, a.prove(a.pop, http.MethodGet, resource, dpop.WithTokenValue(tk.Value)))
	if err != nil {
		c.Fatalf("%s cannot use token %v: %v", a.user, tk, err)
	}
	if !proto.Equal(got.Metadata, tk.Metadata) || got.TokenId != tk.TokenId || !proto.Equal(got.Confirmation, tk.Confirmation) {
		c.Fatalf("token %v is %v for the resource", tk, got)
	}
	if a.s.atKind == "jwt" {
		var m map[string]any
		v := jwt.DefaultVerifier(fx.SetProvider(a.s.atKey.PubJWK("at")), a.s.algs)
		if err := v.Claims(bg, tk.Value, &m); err != nil && tk == a.at {
			c.Fatalf("JWT access token %s does not verify: %v", tk.Value, err)
		}
		if tk == a.at {
			cnf, _ := m["cnf"].(map[string]any)
			if m["sub"] != tk.Metadata.Subject || m["client_id"] != a.cl.ClientId || m["iss"] != a.s.iss || m["aud"] != tk.Metadata.Audience || m["scope"] != tk.Metadata.Scope || m["jti"] != tk.TokenId || cnf["jkt"] != thumb(a.pop) {
				c.Fatalf("JWT access token of %v says %v", tk, m)
			}
		}
	}
	// A resource may get its answer as a signed assertion.
	k := a.s.jarmKey
	signed, err := token.Introspection(jwt.TokenIntrospection(k.Alg, fx.Provider(k.JWK("in")))).Generate(bg, got)
	if err != nil {
		c.Fatalf("signed introspection of %v: %v", got, err)
	}
	var m struct {
		Iss string         `json:"iss"`
		In  map[string]any `json:"token_introspection"`
	}
	if err := jwt.DefaultVerifier(fx.SetProvider(k.PubJWK("in")), a.s.algs).Claims(bg, signed, &m); err != nil || m.In["active"] != true || m.In["sub"] != tk.Metadata.Subject || m.In["client_id"] != tk.Metadata.ClientId || m.In["scope"] != tk.Metadata.Scope || m.In["jti"] != tk.TokenId {
		c.Fatalf("signed introspection of %v says %v: %v", tk, m, err)
	}
}

func TestC33(t *testing.T) {
	s := hx.New(t, "C33", "complete flows (assertion, pushed signed request with proof, authorization, JARM response, redemption with PKCE, resource access with proof, refresh, exchange, revocation) of two drawn sessions on a server made of the library's own components, on a fake clock: interleaved they must both succeed with consistent tokens; with one element replaced by that of the other session, the step must fail or give only what belongs to the session it came from. Non-trivial: a completed pair of flows, or a substitution at a step that would succeed without it; identified by configuration and substitution.",
		"the HTTP layer is that of the harness, following the example server", "the server compares proof keys where it binds tokens: at the resource, not between pushed request and redemption")

	s.Prop("flow", 300, func(c *hx.Case) {
		_, a, b := population(c.T)
		c.Bubble(func() {
			time.Sleep(time.Duration(fx.Int(c.T, "skew", 0, 999)) * time.Millisecond)
			pause := func() { time.Sleep(time.Duration(fx.Int(c.T, "ms", 0, 3000)) * time.Millisecond) }
			both := []*session{a, b}
			each := func(f func(x *session)) {
				if rapid.Bool().Draw(c.T, "order") {
					both[0], both[1] = both[1], both[0]
				}
				for _, x := range both {
					f(x)
					pause()
				}
			}
			check := func(x *session, what string, err error) {
				c.Step()
				if err != nil {
					c.Fatalf("%s of %s at %s (%v, tokens %s, proof key %s, client key %s, client %v): %v", what, x.user, x.s.iss, x.req, x.s.atKind, x.pop.Alg, x.key.Alg, x.cl, err)
				}
			}
			each(func(x *session) { check(x, "par", x.doPar(x.parElements())) })
			each(func(x *session) { check(x, "authorize", x.doAuthorize(x.front(x.key, x.uri))) })
			each(func(x *session) { check(x, "response", x.receive(x.response)) })
			if a.uri == b.uri || a.code == b.code {
				c.Fatalf("sessions share %s or %s", a.uri, a.code)
			}
			each(func(x *session) {
				res, err := x.doRedeem(x.tokenElements())
				check(x, "redeem", err)
				fx.WantTokens(c, "redeem", res, err, x.offline())
				fx.WantToken(c, "access token", res.AccessToken, x.grant(tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN))
				if x.offline() {
					fx.WantToken(c, "refresh token", res.RefreshToken, x.grant(tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN))
				}
				x.at, x.rt = res.AccessToken, res.RefreshToken
			})
			if a.at.Value == b.at.Value || a.at.TokenId == b.at.TokenId {
				c.Fatalf("sessions share token %v", a.at)
			}
			time.Sleep(2 * time.Second)
			each(func(x *session) { x.access(c, x.at) })
			first := map[*session]*tokenv1.Token{a: a.at, b: b.at}
			for round := fx.Int(c.T, "rounds", 0, 2); round > 0; round-- {
				time.Sleep(fx.Pick(c.T, "idle", 0, time.Minute, 2*time.Hour, 24*time.Hour))
				each(func(x *session) {
					if !x.offline() {
						return
					}
					res, err := x.doRefresh(x.assertion(x.key), x.rt.Value, x.prove(x.pop, http.MethodPost, x.s.iss+"/token"))
					check(x, "refresh", err)
					fx.WantTokens(c, "refresh", res, err, false)
					fx.WantToken(c, "refreshed token", res.AccessToken, x.grant(tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN))
					if res.AccessToken.Value == x.at.Value || res.AccessToken.TokenId == x.at.TokenId {
						c.Fatalf("refresh gives the token again: %v", res.AccessToken)
					}
					x.at = res.AccessToken
					time.Sleep(2 * time.Second)
					x.access(c, x.at)
				})
			}
			each(func(x *session) {
				if !token.IsUsable(x.at) {
					return
				}
				words := strings.Fields(x.at.Metadata.Scope)
				scope := fx.Pick(c.T, "subset", words...)
				aud := fx.Pick(c.T, "target", "urn:example:cooperation-context", "urn:example:backend-api")
				res, err := x.doExchange(x.assertion(x.key), x.at.Value, &scope, &aud)
				check(x, "exchange", err)
				fx.WantTokens(c, "exchange", res, err, false)
				g := x.grant(tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN)
				g.Scope, g.Lifetime, g.Audience = scope, 60, aud
				fx.WantToken(c, "exchanged token", res.AccessToken, g)
				time.Sleep(2 * time.Second)
				x.access(c, res.AccessToken)
			})
			each(func(x *session) {
				check(x, "revocation", x.revoke(x.at.Value))
				if _, err := x.s.resource("rs", x.at.Value, x.prove(x.pop, http.MethodGet, resource, dpop.WithTokenValue(x.at.Value))); err == nil {
					c.Fatalf("revoked token %v is usable", x.at)
				}
				if _, err := x.doExchange(x.assertion(x.key), x.at.Value, nil, fx.Ref("urn:example:backend-api")); err == nil {
					c.Fatalf("revoked token %v is exchanged", x.at)
				}
				if x.offline() {
					_, err := x.doRefresh(x.assertion(x.key), x.rt.Value, "")
					check(x, "refresh after the access token's revocation", err)
					check(x, "revocation of the refresh token", x.revoke(x.rt.Value))
					if _, err := x.doRefresh(x.assertion(x.key), x.rt.Value, ""); err == nil {
						c.Fatalf("revoked token %v is refreshed", x.rt)
					}
				}
				if f := first[x]; f != x.at && token.IsUsable(f) {
					x.access(c, f)
				}
			})
			c.Hit("tokens %s offline=%v", a.s.atKind, a.offline() || b.offline())
			c.NonTrivial("%s %s/%s jarm %s: %v / %v", a.s.atKind, a.key.Alg, a.pop.Alg, a.s.jarmKey.Alg, a.req, b.req)
		})
	})

	s.Prop("substitution", 1000, func(c *hx.Case) {
		_, a, b := population(c.T)
		same := a.cl == b.cl
		step := fx.Pick(c.T, "step", "par", "authorize", "receive", "redeem", "resource", "refresh", "exchange", "revoke")
		if step == "refresh" {
			for _, x := range []*session{a, b} {
				x.req.Prompt = fx.Ref(oidc.PromptConsent)
				if !x.offline() {
					x.req.Scope += " offline_access"
				}
			}
		}
		c.Bubble(func() {
			time.Sleep(time.Duration(fx.Int(c.T, "skew", 0, 999)) * time.Millisecond)
			how := ""
			bad := func(err error) {
				if err == nil {
					c.Fatalf("%s with %s succeeds (same client: %v; tokens %s; a %v; b %v)", step, how, same, a.s.atKind, a.req, b.req)
				}
				c.Hit("%s: %s", step, how)
				c.NonTrivial("%s: %s same=%v %v", step, how, same, a.req)
			}
			pick := func(of ...string) string {
				how = fx.Pick(c.T, "how", of...)
				return how
			}
			foreign := func(of []string, more ...string) []string { // only with two clients
				if same {
					return of
				}
				return append(of, more...)
			}
			switch step {
			case "par":
				b.upTo(c, "authorize")
				e := a.parElements()
				switch pick(foreign([]string{"used proof", "proof of another endpoint", "proof by another method", "stale proof"}, "assertion by the other key", "request signed by the other key", "request of the other client", "request of the other client, signed")...) {
				case "used proof":
					e.proof = b.used[0]
				case "proof of another endpoint":
					e.proof = b.prove(b.pop, http.MethodPost, a.s.iss+"/token")
				case "proof by another method":
					e.proof = b.prove(b.pop, http.MethodGet, a.s.iss+"/par")
				case "stale proof":
					e.proof = b.prove(b.pop, http.MethodPost, a.s.iss+"/par")
					time.Sleep(25 * time.Hour)
					e.assertion = a.assertion(a.key)
				case "assertion by the other key":
					e.assertion = a.assertion(b.key)
				case "request signed by the other key":
					e.request = a.sign(b.key, a.req)
				case "request of the other client":
					e.request = b.sign(b.key, b.req)
				case "request of the other client, signed":
					e.request = a.sign(a.key, b.req)
				}
				bad(a.doPar(e))
			case "authorize":
				a.upTo(c, "authorize")
				b.upTo(c, "authorize")
				switch pick(foreign([]string{"request_uri of the other session", "used request_uri", "expired request_uri"}, "request signed by the other key")...) {
				case "request_uri of the other session":
					if err := a.doAuthorize(a.front(a.key, b.uri)); err != nil {
						bad(err)
						return
					}
					bad(a.receive(a.response))
				case "used request_uri":
					if err := a.doAuthorize(a.front(a.key, a.uri)); err != nil {
						c.Fatalf("authorize: %v", err)
					}
					bad(a.doAuthorize(a.front(a.key, a.uri)))
				case "expired request_uri":
					time.Sleep(time.Hour)
					bad(a.doAuthorize(a.front(a.key, a.uri)))
				case "request signed by the other key":
					bad(a.doAuthorize(a.front(b.key, a.uri)))
				}
			case "receive":
				a.upTo(c, "receive")
				b.upTo(c, "receive")
				switch pick("response of the other session", "response by another key", "response of another server") {
				case "response of the other session":
					bad(a.receive(b.response))
				case "response by another key":
					p := fx.Payload(a.response)
					v, err := jwt.JARMSigner(b.pop.Alg, fx.Provider(b.pop.JWK("jarm"))).Serialize(bg, p)
					if err != nil {
						c.Fatalf("sign: %v", err)
					}
					bad(a.receive(v))
				case "response of another server":
					p := fx.Payload(a.response)
					p["iss"] = "https://other.example"
					k := a.s.jarmKey
					v, err := jwt.JARMSigner(k.Alg, fx.Provider(k.JWK("jarm"))).Serialize(bg, p)
					if err != nil {
						c.Fatalf("sign: %v", err)
					}
					bad(a.receive(v))
				}
			case "redeem":
				a.upTo(c, "redeem")
				b.upTo(c, "redeem")
				e := a.tokenElements()
				opts := foreign([]string{"code of the other session", "verifier of the other session", "used proof", "proof of another endpoint", "used code", "late code"}, "assertion by the other key", "other client")
				if a.redirect != b.redirect {
					opts = append(opts, "redirect of the other session")
				}
				switch pick(opts...) {
				case "code of the other session":
					e.code = b.code
				case "verifier of the other session":
					e.verifier = b.verifier
				case "used proof":
					e.proof = fx.Pick(c.T, "which", a.used[0], b.used[0])
				case "proof of another endpoint":
					e.proof = a.prove(a.pop, http.MethodPost, a.s.iss+"/par")
				case "used code":
					if _, err := a.doRedeem(a.tokenElements()); err != nil {
						c.Fatalf("redeem: %v", err)
					}
				case "late code":
					time.Sleep(time.Hour)
					e = a.tokenElements()
				case "assertion by the other key":
					e.assertion = a.assertion(b.key)
				case "other client":
					e.assertion = b.assertion(b.key)
				case "redirect of the other session":
					e.redirect = b.redirect
				}
				res, err := a.doRedeem(e)
				bad(err)
				_ = res
				if how != "code of the other session" { // which may have burnt it
					res, err := b.doRedeem(b.tokenElements())
					if how == "late code" {
						bad(err)
					} else if err != nil {
						c.Fatalf("%s at redemption breaks the other session: %v", how, err)
					} else {
						fx.WantToken(c, "access token", res.AccessToken, b.grant(tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN))
					}
				}
			case "resource":
				a.upTo(c, "")
				b.upTo(c, "")
				time.Sleep(2 * time.Second)
				v, p := a.at.Value, ""
				switch pick("proof of the other session", "proof for the other token", "token of the other session", "unbound proof", "used proof", "proof of the other key", "refresh token") {
				case "proof of the other session":
					p = b.prove(b.pop, http.MethodGet, resource, dpop.WithTokenValue(b.at.Value))
				case "proof for the other token":
					p = a.prove(a.pop, http.MethodGet, resource, dpop.WithTokenValue(b.at.Value))
				case "token of the other session":
					v, p = b.at.Value, a.prove(a.pop, http.MethodGet, resource, dpop.WithTokenValue(b.at.Value))
				case "unbound proof":
					p = a.prove(a.pop, http.MethodGet, resource)
				case "used proof":
					p = a.prove(a.pop, http.MethodGet, resource, dpop.WithTokenValue(v))
					if _, err := a.s.resource("rs", v, p); err != nil {
						c.Fatalf("access: %v", err)
					}
				case "proof of the other key":
					p = b.prove(b.pop, http.MethodGet, resource, dpop.WithTokenValue(v))
				case "refresh token":
					if a.rt == nil {
						return
					}
					v, p = a.rt.Value, a.prove(a.pop, http.MethodGet, resource, dpop.WithTokenValue(a.rt.Value))
				}
				_, err := a.s.resource("rs", v, p)
				bad(err)
				a.access(c, a.at)
				b.access(c, b.at)
			case "refresh":
				a.upTo(c, "")
				b.upTo(c, "")
				time.Sleep(2 * time.Second)
				x, v := a.assertion(a.key), a.rt.Value
				switch pick(foreign([]string{"access token", "code"}, "refresh token of the other session", "assertion by the other key", "other client")...) {
				case "access token":
					v = a.at.Value
				case "code":
					v = a.code
				case "refresh token of the other session":
					v = b.rt.Value
				case "assertion by the other key":
					x = a.assertion(b.key)
				case "other client":
					x = b.assertion(b.key)
				}
				_, err := a.doRefresh(x, v, "")
				bad(err)
				// A thief of the client's means gets tokens of the session's key only.
				res, err := a.doRefresh(a.assertion(a.key), a.rt.Value, b.prove(b.pop, http.MethodPost, a.s.iss+"/token"))
				if err == nil && res.AccessToken.GetConfirmation().GetJkt() != thumb(a.pop) {
					c.Fatalf("refresh with a proof of another key gives %v", res.AccessToken)
				}
			case "exchange":
				a.upTo(c, "")
				b.upTo(c, "")
				time.Sleep(2 * time.Second)
				x, v, scope, aud := a.assertion(a.key), a.at.Value, (*string)(nil), fx.Ref("urn:example:backend-api")
				opts := foreign([]string{"code", "unknown target", "more scope", "unknown token"}, "assertion by the other key")
				if a.rt != nil {
					opts = append(opts, "refresh token")
				}
				switch pick(opts...) {
				case "refresh token":
					v = a.rt.Value
				case "code":
					v = a.code
				case "unknown target":
					aud = fx.Ref("urn:example:backend-apis")
				case "more scope":
					scope = fx.Ref(a.at.Metadata.Scope + " " + a.at.Metadata.Scope + "x")
				case "unknown token":
					v = b.at.Value + "x"
				case "assertion by the other key":
					x = a.assertion(b.key)
				}
				_, err := a.doExchange(x, v, scope, aud)
				bad(err)
				a.access(c, a.at)
				if !same {
					// Another client's exchange keeps the session's subject and key.
					res, err := b.doExchange(b.assertion(b.key), a.at.Value, nil, aud)
					if err == nil {
						g := a.grant(tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN)
						g.Client, g.Lifetime = b.cl.ClientId, 60
						fx.WantToken(c, "token exchanged by the other client", res.AccessToken, g)
					}
				}
			case "revoke":
				a.upTo(c, "")
				b.upTo(c, "")
				time.Sleep(2 * time.Second)
				if same {
					if err := a.revoke(a.at.Value); err != nil {
						c.Fatalf("revoke: %v", err)
					}
					b.access(c, b.at)
					return
				}
				how = "token of the other session"
				bad(b.revoke(a.at.Value))
				a.access(c, a.at)
			}
		})
	})
}
