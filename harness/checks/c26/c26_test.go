package c26

import (
	"context"
	"fmt"
	"net/url"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	corev1 "zntr.io/solid/api/oidc/core/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/clientauthentication"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

const (
	iss   = "https://op.example"
	redir = "https://client.example/cb"
)

var everyAlg = append([]jose.SignatureAlgorithm{}, fx.SigAlgs...)

// server is a world with live credentials and both client authentications.
type server struct {
	*fx.World
	verifier                             string
	code, uri, device, user, access, ref string
	pkjwt, attest                        clientauthentication.AuthenticationProcessor
	key, attKey                          *fx.Key
	broken                               []string
}

var (
	fixedKey = func() *fx.Key { return fx.GetKey(jose.ES256, 0) }
	attKey   = func() *fx.Key { return fx.GetKey(jose.ES256, 1) }
)

func newServer(c *hx.Case) *server {
	full := fx.FullClient("client", redir)
	full.ClientType = clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL
	pub := fixedKey().PubJWK("k1")
	full.Jwks = fx.JWKS(pub)
	att := fx.FullClient("attester", redir)
	apub := attKey().PubJWK("a1")
	att.Jwks = fx.JWKS(apub)
	clients := []*clientv1.Client{full, att, {ClientId: "bare"}}
	// clients registered with any content
	for i := fx.Int(c.T, "odd clients", 0, 2); i > 0; i-- {
		odd := &clientv1.Client{}
		fx.FillProto(c.T, odd.ProtoReflect(), 1, 2)
		odd.ClientId = fmt.Sprintf("odd%d", i)
		if fx.Chance(c.T, "oddgrants", 2) {
			odd.GrantTypes = fx.AllGrants
			odd.ResponseTypes = []string{"code"}
			odd.RedirectUris = []string{redir}
		}
		clients = append(clients, odd)
	}
	w := fx.NewWorld(clients...)
	s := &server{World: w, verifier: strings.Repeat("v", 43), key: fixedKey(), attKey: attKey()}
	s.pkjwt = clientauthentication.PrivateKeyJWT(w.Clients, everyAlg)
	s.attest = clientauthentication.ClientAttestation(w.Clients, everyAlg)
	return s
}

// stock creates live credentials.
func (s *server) stock(c *hx.Case) {
	ar, err := s.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "user", Client: &clientv1.Client{ClientId: "client"}, Request: s.request()})
	if err != nil {
		c.Fatalf("authorize: %v", err)
	}
	s.code = ar.Code
	tr, err := s.Redeem(iss, "client", ar.Code, redir, s.verifier, nil)
	if err != nil {
		c.Fatalf("redeem: %v", err)
	}
	s.access, s.ref = tr.AccessToken.Value, tr.RefreshToken.GetValue()
	ar, _ = s.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "user", Client: &clientv1.Client{ClientId: "client"}, Request: s.request()})
	s.code = ar.Code
	rr, err := s.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: iss, Client: &clientv1.Client{ClientId: "client"}, Request: s.request()})
	if err != nil {
		c.Fatalf("register: %v", err)
	}
	s.uri = rr.RequestUri
	dr, err := s.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: "client", Scope: fx.Ref("openid offline_access"), Audience: fx.Ref("api")})
	if err != nil {
		c.Fatalf("device: %v", err)
	}
	s.device, s.user = dr.DeviceCode, dr.UserCode
}

func (s *server) request() *flowv1.AuthorizationRequest {
	return &flowv1.AuthorizationRequest{
		Scope: "openid offline_access profile", ResponseType: "code", ClientId: "client", RedirectUri: redir,
		State: strings.Repeat("s", 32), Nonce: strings.Repeat("n", 8), Audience: "api", Prompt: fx.Ref("consent"),
		CodeChallenge: fx.Challenge(s.verifier), CodeChallengeMethod: "S256",
	}
}

// base builds a valid request of an operation.
func (s *server) base(t *rapid.T, op string) proto.Message {
	cl := &clientv1.Client{ClientId: "client", ClientType: clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL}
	tok := func(grant string) *flowv1.TokenRequest {
		return &flowv1.TokenRequest{Issuer: iss, Client: cl, GrantType: grant}
	}
	switch op {
	case "authorize":
		return &flowv1.AuthorizeRequest{Issuer: iss, Client: cl, Subject: "user", Request: s.request()}
	case "authorize uri":
		return &flowv1.AuthorizeRequest{Issuer: iss, Client: cl, Subject: "user", Request: &flowv1.AuthorizationRequest{RequestUri: &s.uri, ClientId: "client"}}
	case "register":
		return &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: s.request()}
	case "code":
		r := tok(oidc.GrantTypeAuthorizationCode)
		r.Grant = &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: s.code, RedirectUri: redir, CodeVerifier: s.verifier}}
		return r
	case "credentials":
		r := tok(oidc.GrantTypeClientCredentials)
		r.Scope, r.Audience = fx.Ref("read"), fx.Ref("api")
		r.Grant = &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}
		return r
	case "device code":
		r := tok(oidc.GrantTypeDeviceCode)
		r.Grant = &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: s.device, ClientId: "client"}}
		return r
	case "refresh":
		r := tok(oidc.GrantTypeRefreshToken)
		r.Grant = &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: s.ref}}
		return r
	case "exchange":
		r := tok(oidc.GrantTypeTokenExchange)
		r.Scope = fx.Ref("openid")
		r.Grant = &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: s.access, SubjectTokenType: oidc.TokenExchangeAccessTokenType}}
		return r
	case "device":
		return &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: "client", Scope: fx.Ref("openid"), Audience: fx.Ref("api")}
	case "validate":
		return &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: s.user, Subject: "user"}
	case "introspect":
		return &tokenv1.IntrospectRequest{Issuer: iss, Client: cl, Token: fx.Pick(t, "token", s.access, s.ref, "unknown")}
	case "revoke":
		return &tokenv1.RevokeRequest{Issuer: iss, Client: cl, Token: fx.Pick(t, "token", s.access, s.ref)}
	case "private_key_jwt":
		return &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTBearer), ClientAssertion: fx.Ref(fx.JWS(s.key, fx.Map{"alg": "ES256", "kid": "k1", "typ": "client-assertion+jwt"}, s.claims(t, "client", "client", nil)))}
	case "attestation":
		pub := s.key.PubJWK("")
		a := fx.JWS(s.attKey, fx.Map{"alg": "ES256", "kid": "a1"}, s.claims(t, "attester", "client", fx.Map{"jwk": fx.AsMap(&pub)}))
		p := fx.JWS(s.key, fx.Map{"alg": "ES256"}, s.claims(t, "client", "client", nil))
		return &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTClientAttestation), ClientAssertion: fx.Ref(a + "~" + p)}
	}
	panic("HARNESS-ERROR: " + op)
}

// claims draws the claims of an assertion, most of the time complete.
func (s *server) claims(t *rapid.T, issuer, sub string, cnf any) []byte {
	m := fx.Map{"iss": issuer, "sub": sub, "aud": iss, "jti": "id", "exp": time.Now().Unix() + 60, "iat": time.Now().Unix()}
	if cnf != nil {
		m["cnf"] = cnf
	}
	if fx.Chance(t, "claims", 3) {
		n := fx.Pick(t, "claim", "iss", "sub", "aud", "jti", "exp", "iat", "cnf")
		v := fx.Pick(t, "claim value", any(nil), any(""), any(1), any(true), any([]any{}), any([]any{"x"}), any(fx.Map{}), any(fx.Map{"jwk": nil}), any(fx.Map{"jwk": fx.Map{}}), any(fx.Map{"jwk": "x"}), any("bare"), any("odd1"), any(1e300), any(-1))
		delete(m, n)
		if v != nil {
			m[n] = v
		}
	}
	if fx.Chance(t, "no object", 20) {
		return []byte(fx.Pick(t, "payload", "", "null", "[]", "1", "{", "\"x\""))
	}
	return fx.JSON(m)
}

type outcome struct {
	nilRes bool
	e      *corev1.Error
	creds  string
	err    error
	ok     string // what a success must carry, when missing
}

func tokenOutcome(r *flowv1.TokenResponse, err error) outcome {
	o := outcome{nilRes: r == nil, e: r.GetError(), err: err}
	if r.GetAccessToken() != nil || r.GetRefreshToken() != nil || r.GetIdToken() != nil {
		o.creds = fmt.Sprint(r)
	}
	if r.GetAccessToken().GetValue() == "" || r.GetAccessToken().GetMetadata() == nil {
		o.ok = "no access token"
	}
	return o
}

// call runs an operation.
func (s *server) call(c *hx.Case, op string, m proto.Message) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			if err, ok := p.(fmt.Stringer); ok && strings.Contains(err.String(), "HARNESS-ERROR") {
				panic(p)
			}
			c.Fatalf("%s crashes on %v: %v\n%s", op, m, p, debug.Stack())
		}
	}()
	switch r := m.(type) {
	case *flowv1.AuthorizeRequest:
		res, err := s.Authz.Authorize(bg, r)
		o = outcome{nilRes: res == nil, e: res.GetError(), creds: res.GetCode(), err: err}
		if res.GetCode() == "" {
			o.ok = "no code"
		}
	case *flowv1.RegistrationRequest:
		res, err := s.Authz.Register(bg, r)
		o = outcome{nilRes: res == nil, e: res.GetError(), creds: res.GetRequestUri(), err: err}
		if res.GetRequestUri() == "" {
			o.ok = "no request_uri"
		}
	case *flowv1.TokenRequest:
		o = tokenOutcome(s.Tok.Token(bg, r))
	case *flowv1.DeviceAuthorizationRequest:
		res, err := s.Dev.Authorize(bg, r)
		o = outcome{nilRes: res == nil, e: res.GetError(), creds: res.GetDeviceCode() + res.GetUserCode(), err: err}
		if res.GetDeviceCode() == "" || res.GetUserCode() == "" {
			o.ok = "no codes"
		}
	case *flowv1.DeviceCodeValidationRequest:
		res, err := s.Dev.Validate(bg, r)
		o = outcome{nilRes: res == nil, e: res.GetError(), err: err}
	case *tokenv1.IntrospectRequest:
		res, err := s.Tok.Introspect(bg, r)
		o = outcome{nilRes: res == nil, e: res.GetError(), err: err}
		if res.GetToken() != nil {
			o.creds = fmt.Sprint(res)
		} else {
			o.ok = "no token"
		}
	case *tokenv1.RevokeRequest:
		res, err := s.Tok.Revoke(bg, r)
		o = outcome{nilRes: res == nil, e: res.GetError(), err: err}
	case *clientv1.AuthenticateRequest:
		p := s.pkjwt
		if op == "attestation" {
			p = s.attest
		}
		res, err := p.Authenticate(bg, r)
		o = outcome{nilRes: res == nil, e: res.GetError(), err: err}
		if res.GetClient() != nil {
			o.creds = fmt.Sprint(res)
		} else {
			o.ok = "no client"
		}
	default:
		panic(fmt.Sprintf("HARNESS-ERROR: %T", m))
	}
	return o
}

var ops = []string{"authorize", "authorize uri", "register", "code", "credentials", "device code", "refresh", "exchange", "device", "validate", "introspect", "revoke", "private_key_jwt", "attestation"}

func nilOf(m proto.Message) proto.Message {
	switch m.(type) {
	case *flowv1.AuthorizeRequest:
		return (*flowv1.AuthorizeRequest)(nil)
	case *flowv1.RegistrationRequest:
		return (*flowv1.RegistrationRequest)(nil)
	case *flowv1.TokenRequest:
		return (*flowv1.TokenRequest)(nil)
	case *flowv1.DeviceAuthorizationRequest:
		return (*flowv1.DeviceAuthorizationRequest)(nil)
	case *flowv1.DeviceCodeValidationRequest:
		return (*flowv1.DeviceCodeValidationRequest)(nil)
	case *tokenv1.IntrospectRequest:
		return (*tokenv1.IntrospectRequest)(nil)
	case *tokenv1.RevokeRequest:
		return (*tokenv1.RevokeRequest)(nil)
	default:
		return (*clientv1.AuthenticateRequest)(nil)
	}
}

func TestC26(t *testing.T) {
	s := hx.New(t, "C26", "each of the fourteen kinds of operation, on a server with live credentials and oddly registered clients, is called with nil, with a valid request, with valid requests after 1..4 drawn changes at any depth (a field removed, emptied, mutated or redrawn), with the grant of another kind, with fully drawn requests, with hand-made assertions, and on stored tokens, codes, device codes and requests after drawn changes; the answer must not be a crash and must be a success with its credential or a refusal with a registered code and no credential. Non-trivial: every call, identified by operation and request.",
		"drawn records are put where the storage contract lets a caller put them")

	judge := func(c *hx.Case, sv *server, op string, m proto.Message, how string) {
		c.Step()
		in := proto.Clone(m)
		o := sv.call(c, op, m)
		what := fmt.Sprintf("%s (%s) of %v: %+v", op, how, in, o)
		switch {
		case o.nilRes:
			c.Fatalf("no response object: %s", what)
		case o.err == nil && o.e != nil:
			c.Fatalf("success with a protocol error: %s", what)
		case o.err == nil && o.ok != "":
			c.Fatalf("success but %s: %s", o.ok, what)
		case o.err != nil && o.e == nil:
			// Listed finding: revoking a token which is not stored.
			if r, ok := m.(*tokenv1.RevokeRequest); ok && r.GetToken() != "" && r.Client != nil && usableURL(r.Issuer) {
				_, cerr := sv.Clients.Get(bg, r.GetClient().GetClientId())
				_, terr := sv.Tokens.GetByValue(bg, r.Issuer, r.Token)
				if cerr == nil && terr != nil && s.Known("revoke-unknown-token") {
					break
				}
			}
			c.Fatalf("refusal without a protocol error: %s", what)
		case o.err != nil && !fx.ErrorCodes[o.e.Err]:
			c.Fatalf("unregistered error code: %s", what)
		case o.err != nil && o.creds != "":
			c.Fatalf("refusal with a credential: %s", what)
		}
		c.Hit("%s %v", op, o.err == nil)
		if o.e != nil {
			c.Hit("%s", o.e.Err)
		}
		c.NonTrivial("%s %v %v", op, o.err == nil, in)
	}

	s.Prop("mutated", 20000, func(c *hx.Case) {
		sv := newServer(c)
		sv.stock(c)
		if fx.Chance(c.T, "approved", 2) {
			if _, err := sv.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: sv.user, Subject: "user"}); err != nil {
				c.Fatalf("approve: %v", err)
			}
		}
		for i := 0; i < 3; i++ {
			op := fx.Pick(c.T, "op", ops...)
			m := proto.Clone(sv.base(c.T, op))
			how := ""
			for n := fx.Int(c.T, "changes", 0, 4); n > 0; n-- {
				how += fx.MutateProto(c.T, m.ProtoReflect(), "m") + ","
			}
			if r, ok := m.(*flowv1.TokenRequest); ok && fx.Chance(c.T, "othergrant", 6) {
				r.GrantType = fx.Pick(c.T, "grant", fx.AllGrants...)
				how += "grant " + r.GrantType
			}
			if fx.Chance(c.T, "another client", 8) {
				id := fx.Pick(c.T, "id", "bare", "odd1", "odd2", "unknown", "")
				switch r := m.(type) {
				case *flowv1.TokenRequest:
					r.Client = &clientv1.Client{ClientId: id}
				case *flowv1.DeviceAuthorizationRequest:
					r.ClientId = id
				case *flowv1.AuthorizeRequest:
					r.Client = &clientv1.Client{ClientId: id}
					if r.Request != nil {
						r.Request.ClientId = id
					}
				case *tokenv1.RevokeRequest:
					r.Client = &clientv1.Client{ClientId: id}
				case *tokenv1.IntrospectRequest:
					r.Client = &clientv1.Client{ClientId: id}
				}
			}
			judge(c, sv, op, m, how)
		}
	})

	s.Prop("drawn", 6000, func(c *hx.Case) {
		sv := newServer(c)
		sv.stock(c)
		op := fx.Pick(c.T, "op", ops...)
		m := sv.base(c.T, op).ProtoReflect().New().Interface()
		fx.FillProto(c.T, m.ProtoReflect(), 3, fx.Pick(c.T, "density", 1, 2, 3))
		how := "drawn"
		if r, ok := m.(*clientv1.AuthenticateRequest); ok && fx.Chance(c.T, "type", 2) {
			r.ClientAssertionType = sv.base(c.T, op).(*clientv1.AuthenticateRequest).ClientAssertionType
		}
		if r, ok := m.(*flowv1.TokenRequest); ok && fx.Chance(c.T, "grant", 2) {
			r.GrantType = fx.Pick(c.T, "grants", fx.AllGrants...)
			r.Issuer, r.Client = iss, &clientv1.Client{ClientId: "client"}
		}
		judge(c, sv, op, m, how)
	})

	s.Prop("assertions", 8000, func(c *hx.Case) {
		sv := newServer(c)
		op := fx.Pick(c.T, "op", "private_key_jwt", "attestation")
		r := sv.base(c.T, op).(*clientv1.AuthenticateRequest)
		a := r.GetClientAssertion()
		how := "genuine"
		switch fx.Int(c.T, "how", 0, 6) {
		case 0:
			a, how = fx.Str(c.T, "text", "abcXYZ09._~-=", 0, 60), "text"
		case 1:
			parts := strings.Split(a, fx.Pick(c.T, "sep", ".", "~"))
			i := fx.Int(c.T, "part", 0, len(parts)-1)
			parts[i] = fx.Pick(c.T, "as", "", "e30", "bnVsbA", "W10", "é", parts[0], "eyJhbGciOiJub25lIn0")
			a, how = strings.Join(parts, fx.Pick(c.T, "joined", ".", "~", "")), "parts"
		case 2:
			a, how = strings.Repeat(a, fx.Int(c.T, "times", 0, 3)), "repeated"
		case 3:
			a, how = a[:fx.Int(c.T, "cut", 0, len(a))], "cut"
		case 4: // header of any content
			h := fx.Map{"alg": fx.Pick(c.T, "alg", any("ES256"), any("none"), any(1), any(nil), any("HS256")), "kid": fx.Pick(c.T, "kid", any("k1"), any(1), any(nil), any("")), "jwk": fx.Pick(c.T, "jwk", any(nil), any("x"), any(fx.Map{}), any(fx.Map{"kty": "EC", "crv": "P-256"})), "crit": fx.Pick(c.T, "crit", any(nil), any([]any{"x"}), any("x"))}
			a, how = fx.JWS(sv.key, h, sv.claims(c.T, "client", "client", nil)), "header"
			if op == "attestation" {
				a += "~" + a
			}
		case 5:
			a, how = fx.Mutate(c.T, "mut", a), "mutated"
		}
		r.ClientAssertion = &a
		if fx.Chance(c.T, "typed", 10) {
			r.ClientAssertionType = rapid.SampledFrom([]*string{nil, fx.Ref(""), fx.Ref("x"), fx.Ref(oidc.AssertionTypeJWTBearer)}).Draw(c.T, "type")
		}
		judge(c, sv, op, r, how)
	})

	s.Prop("absent", 300, func(c *hx.Case) {
		sv := newServer(c)
		sv.stock(c)
		for _, op := range ops {
			base := sv.base(c.T, op)
			judge(c, sv, op, nilOf(base), "nil")
			judge(c, sv, op, base.ProtoReflect().New().Interface(), "empty")
			judge(c, sv, op, proto.Clone(base), "valid")
			// the grant wrapper without its content
			if r, ok := proto.Clone(sv.base(c.T, op)).(*flowv1.TokenRequest); ok {
				for _, g := range []any{nil, (*flowv1.TokenRequest_AuthorizationCode)(nil), &flowv1.TokenRequest_AuthorizationCode{}, &flowv1.TokenRequest_ClientCredentials{}, &flowv1.TokenRequest_DeviceCode{}, &flowv1.TokenRequest_RefreshToken{}, &flowv1.TokenRequest_TokenExchange{}} {
					switch g := g.(type) {
					case nil:
						r.Grant = nil
					case *flowv1.TokenRequest_AuthorizationCode:
						if g == nil {
							continue
						}
						r.Grant = g
					case *flowv1.TokenRequest_ClientCredentials:
						r.Grant = g
					case *flowv1.TokenRequest_DeviceCode:
						r.Grant = g
					case *flowv1.TokenRequest_RefreshToken:
						r.Grant = g
					case *flowv1.TokenRequest_TokenExchange:
						r.Grant = g
					}
					o := sv.call(c, op, r)
					if o.nilRes || (o.err == nil) != (o.e == nil) || (o.err != nil && o.creds != "") || (o.err == nil && o.ok != "") {
						c.Fatalf("%s with grant %T: %+v", op, r.Grant, o)
					}
				}
			}
		}
	})

	// Stored records of any content: what the storage holds may be incomplete.
	s.Prop("records", 8000, func(c *hx.Case) {
		sv := newServer(c)
		sv.stock(c)
		op := fx.Pick(c.T, "op", "authorize uri", "code", "device code", "refresh", "exchange", "validate", "introspect", "revoke")
		m := proto.Clone(sv.base(c.T, op))
		how := "record"
		change := func(m proto.Message) {
			for n := fx.Int(c.T, "changes", 1, 3); n > 0; n-- {
				how += " " + fx.MutateProto(c.T, m.ProtoReflect(), "r")
			}
		}
		put := func(err error) {
			if err != nil {
				c.Fatalf("storing a record: %v", err)
			}
		}
		switch op {
		case "authorize uri":
			ar := sv.request()
			change(ar)
			if _, err := sv.Reqs.Register(bg, iss, sv.uri+"x", ar); err != nil {
				c.Fatalf("storing a record: %v", err)
			}
			m.(*flowv1.AuthorizeRequest).Request.RequestUri = fx.Ref(sv.uri + "x")
			// The pushed request must look like a generated one.
			if fx.Chance(c.T, "same", 2) {
				put(sv.Reqs.Delete(bg, iss, sv.uri))
				_, err := sv.Reqs.Register(bg, iss, sv.uri, ar)
				put(err)
				m.(*flowv1.AuthorizeRequest).Request.RequestUri = fx.Ref(sv.uri)
			}
		case "code":
			acs, err := sv.Codes.Get(bg, iss, sv.code)
			put(err)
			acs = proto.Clone(acs).(*sessionv1.AuthorizationCodeSession)
			change(acs)
			put(sv.Codes.Delete(bg, iss, sv.code))
			_, err = sv.Codes.Register(bg, iss, sv.code, acs)
			put(err)
		case "device code", "validate":
			if op == "device code" && fx.Chance(c.T, "approved", 2) {
				_, err := sv.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: sv.user, Subject: "user"})
				put(err)
			}
			dcs, err := sv.Devices.GetByDeviceCode(bg, iss, sv.device)
			put(err)
			dcs = proto.Clone(dcs).(*sessionv1.DeviceCodeSession)
			change(dcs)
			dcs.DeviceCode = sv.device + "x"
			user := sv.user + "x"
			if _, err := sv.Devices.Register(bg, iss, user, dcs); err != nil {
				c.Hit("device record refused")
				return
			}
			switch r := m.(type) {
			case *flowv1.TokenRequest:
				r.GetDeviceCode().DeviceCode = dcs.DeviceCode
			case *flowv1.DeviceCodeValidationRequest:
				r.UserCode = user
			}
		default:
			value := sv.access
			if op == "refresh" || (op != "exchange" && fx.Chance(c.T, "refresh", 2)) {
				value = sv.ref
			}
			tok, err := sv.Tokens.GetByValue(bg, iss, value)
			put(err)
			tok = proto.Clone(tok).(*tokenv1.Token)
			if fx.Chance(c.T, "bare", 4) {
				tok.Metadata = nil
				how += " without metadata"
			} else {
				change(tok)
			}
			tok.TokenId, tok.Value = "odd", value+"x"
			if err := sv.Tokens.Create(bg, iss, tok); err != nil {
				c.Hit("token record refused")
				return
			}
			switch r := m.(type) {
			case *flowv1.TokenRequest:
				if g := r.GetRefreshToken(); g != nil {
					g.RefreshToken = tok.Value
				}
				if g := r.GetTokenExchange(); g != nil {
					g.SubjectToken = tok.Value
				}
			case *tokenv1.IntrospectRequest:
				r.Token = tok.Value
			case *tokenv1.RevokeRequest:
				r.Token = tok.Value
			}
		}
		judge(c, sv, op, m, how)
	})

	s.Direct("revoke_unknown", func(t *testing.T) int {
		w := fx.NewWorld(fx.FullClient("client", redir))
		res, err := w.Revoke(iss, "client", "never issued")
		if err == nil || res == nil {
			t.Fatalf("revoking an unknown token: %v, %v", res, err)
		}
		if res.Error == nil && !s.Known("revoke-unknown-token") {
			t.Fatalf("refusal without a protocol error: %v", err)
		}
		return 1
	})
}

func usableURL(s string) bool {
	_, err := url.ParseRequestURI(s)
	return err == nil
}
