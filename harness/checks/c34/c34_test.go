package c34

import (
	"context"
	"flag"
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
	"zntr.io/solid-verif/oidc"
)

var bg = context.Background()

const (
	hour  = 3600
	redir = "https://shared.example/cb"
	urn   = "urn:example:backend-api"
)

// origin is what was granted once: by a user, or to a client for itself.
type origin struct {
	how                string
	iss, client, sub   string
	scope              []string
	audience, verifier string
	jkt                string
}

type kind int

const (
	code kind = iota
	uri
	deviceCode
	userCode
	access
	refresh
	kinds
)

var kindNames = [...]string{"code", "request_uri", "device code", "user code", "access token", "refresh token"}

// cred is one credential that was handed out.
type cred struct {
	kind   kind
	value  string
	org    *origin
	expiry time.Time
	// single-use credentials
	used bool
	// device flow: shared by the two codes
	dev *device
	// tokens
	tok     *tokenv1.Token
	revoked bool
	depth   int
}

type device struct {
	approved bool
	polled   bool
	sub      string
}

func (k *cred) live() bool { return time.Now().Before(k.expiry) }
func (k *cred) near() bool {
	d := time.Until(k.expiry)
	return d > -1100*time.Millisecond && d < 1100*time.Millisecond
}

type world struct {
	*fx.World
	c       *hx.Case
	grants  map[string][]string
	public  map[string]bool
	clients []string
	issuers []string
	all     []*cred
	log     []string
	deep    int
	crossed int
}

func (w *world) can(client, grant string) bool { return slices.Contains(w.grants[client], grant) }

func (w *world) note(format string, a ...any) {
	w.c.Step()
	w.log = append(w.log, fmt.Sprintf(format, a...))
}

// find returns the credential a value denotes at an issuer, if any.
func (w *world) find(iss, value string) *cred {
	for _, k := range w.all {
		if k.value == value && k.org.iss == iss {
			return k
		}
	}
	return nil
}

// pick draws a credential, mostly of the kind the operation wants.
func (w *world) pick(t *rapid.T, want ...kind) *cred {
	pool := w.all
	if !fx.Chance(t, "any kind", 4) {
		pool = nil
		for _, k := range w.all {
			if slices.Contains(want, k.kind) {
				pool = append(pool, k)
			}
		}
	}
	if len(pool) == 0 {
		t.Skip("nothing to present")
	}
	return pool[len(pool)-1-fx.Int(t, "which", 0, len(pool)-1)]
}

// present draws the issuer, the client and the form in which a credential is
// presented: mostly its own, sometimes another's, or a value close to it.
func (w *world) present(t *rapid.T, k *cred) (iss, as, value string) {
	iss, as, value = k.org.iss, k.org.client, k.value
	if k.tok != nil {
		as = k.tok.Metadata.ClientId
	}
	if fx.Chance(t, "elsewhere", 6) {
		iss = fx.Pick(t, "at", w.issuers...)
	}
	if fx.Chance(t, "someone else", 5) {
		as = fx.Pick(t, "as", w.clients...)
	}
	switch fx.Int(t, "form", 0, 23) {
	case 0, 1:
		value = fx.Mutate(t, "value", value)
	case 2: // the identifier of a token is no credential
		if k.tok != nil {
			value = k.tok.TokenId
		}
	case 3: // the border between issuer and value elsewhere
		n := fx.Int(t, "border", 1, 4)
		if v := iss + value[:min(n, len(value)-1)]; fx.ValidIssuer(v) {
			iss, value = v, value[min(n, len(value)-1):]
		}
	case 4:
		n := fx.Int(t, "border", 1, 4)
		if v := iss[:len(iss)-n]; fx.ValidIssuer(v) {
			iss, value = v, iss[len(iss)-n:]+value
		}
	case 5: // the same with a separator
		sep := fx.Pick(t, "separator", ":", ":", "/", ".")
		if i := strings.LastIndex(iss, sep); i > 0 && fx.ValidIssuer(iss[:i]) {
			iss, value = iss[:i], iss[i+1:]+sep+value
		}
	}
	return
}

// ask sends a token request with stray parameters its grant has no use for.
func (w *world) ask(t *rapid.T, r *flowv1.TokenRequest) (*flowv1.TokenResponse, error) {
	if r.Scope == nil && r.GetTokenExchange() == nil && fx.Chance(t, "stray scope", 3) {
		r.Scope = fx.Ref(fx.Pick(t, "stray", "openid offline_access admin", "admin", ""))
	}
	if r.Audience == nil && r.GetTokenExchange() == nil && fx.Chance(t, "stray audience", 3) {
		r.Audience = fx.Ref(fx.Pick(t, "stray", urn, "https://other.example", ""))
	}
	if r.TokenConfirmation == nil && (r.GetRefreshToken() != nil || r.GetTokenExchange() != nil) && fx.Chance(t, "stray key", 3) {
		r.TokenConfirmation = fx.Confirmation(t, "stray")
	}
	return w.Tok.Token(bg, r)
}

// subject draws a user, some of whom look like others or like a client.
func subject(t *rapid.T) string {
	return fx.Pick(t, "sub", "alice", "Alice", " alice ", "bob", "alpha", "аlice", "alice\x00", "service")
}

func (w *world) fresh(value, what string) {
	if value == "" {
		w.c.Fatalf("empty %s", what)
	}
	for _, k := range w.all {
		if k.value == value {
			w.c.Fatalf("%s %q was handed out before as a %s", what, value, kindNames[k.kind])
		}
	}
}

// issued checks a token against its origin and remembers it.
func (w *world) issued(what string, tok *tokenv1.Token, typ tokenv1.TokenType, org *origin, client string, depth int, parent *tokenv1.Token, audiences ...string) *cred {
	m := tok.GetMetadata()
	w.fresh(tok.GetValue(), what)
	if m == nil || tok.TokenType != typ || tok.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {
		w.c.Fatalf("%s: %v", what, tok)
	}
	if m.Issuer != org.iss || m.Subject != org.sub || m.ClientId != client {
		w.c.Fatalf("%s of %s/%s/%s names %s/%s/%s (origin: %s)", what, org.iss, org.sub, client, m.Issuer, m.Subject, m.ClientId, org.how)
	}
	within := org.scope
	if parent != nil {
		within = strings.Fields(parent.Metadata.Scope)
	}
	for _, s := range strings.Fields(m.Scope) {
		if !slices.Contains(within, s) || !slices.Contains(org.scope, s) {
			w.c.Fatalf("%s has scope %q, its origin (%s) granted %q, its parent %q", what, m.Scope, org.how, org.scope, within)
		}
	}
	if !slices.Contains(audiences, m.Audience) {
		w.c.Fatalf("%s has audience %q, expected one of %q", what, m.Audience, audiences)
	}
	if tok.Confirmation.GetJkt() != org.jkt {
		w.c.Fatalf("%s is bound to %q, its origin to %q", what, tok.Confirmation.GetJkt(), org.jkt)
	}
	now := uint64(time.Now().Unix())
	if m.IssuedAt != now || m.ExpiresAt <= now || m.ExpiresAt > now+7*24*hour {
		w.c.Fatalf("%s at %d: %v", what, now, m)
	}
	for _, k := range w.all {
		if k.tok != nil && k.tok.TokenId == tok.TokenId {
			w.c.Fatalf("%s reuses the id of another token", what)
		}
	}
	k := &cred{kind: access, value: tok.Value, org: org, expiry: time.Unix(int64(m.ExpiresAt), 0), tok: proto.Clone(tok).(*tokenv1.Token), depth: depth}
	if typ == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {
		k.kind = refresh
	}
	w.all = append(w.all, k)
	w.deep = max(w.deep, depth)
	return k
}

func (w *world) draw(t *rapid.T, how, client string) (*origin, *flowv1.AuthorizationRequest) {
	org := &origin{how: how, iss: fx.Pick(t, "at", w.issuers...), client: client, sub: subject(t), verifier: fx.Verifier(t, "v")}
	r := fx.ValidRequest(t, "req", client, redir, org.verifier)
	if fx.Chance(t, "offline", 2) {
		r.Scope, r.Prompt = "openid offline_access "+r.Scope, fx.Ref("consent")
	}
	org.scope, org.audience = fx.RecordedScope(r), r.Audience
	return org, r
}

func (w *world) code(t *rapid.T, org *origin, r *flowv1.AuthorizationRequest) {
	res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: org.iss, Subject: org.sub, Request: r})
	fx.WantOK(w.c, "authorize", err, res.GetError())
	w.fresh(res.Code, "code")
	w.all = append(w.all, &cred{kind: code, value: res.Code, org: org, expiry: time.Now().Add(time.Duration(res.ExpiresIn) * time.Second)})
}

func (w *world) audit() {
	for _, k := range w.all {
		if k.tok == nil {
			res, err := w.Introspect(k.org.iss, "alpha", k.value)
			fx.WantOK(w.c, "introspect", err, res.GetError())
			if res.Token.GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN || res.Token.Metadata != nil {
				w.c.Fatalf("a %s is introspected as %v", kindNames[k.kind], res.Token)
			}
			continue
		}
		res, err := w.Introspect(k.org.iss, "alpha", k.value)
		fx.WantOK(w.c, "introspect", err, res.GetError())
		want := tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
		if k.revoked {
			want = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
		}
		if res.Token.GetStatus() != want || !proto.Equal(res.Token.Metadata, k.tok.Metadata) || !proto.Equal(res.Token.Confirmation, k.tok.Confirmation) || res.Token.TokenType != k.tok.TokenType {
			w.c.Fatalf("after %v:\n%s issued as %v (revoked %v) is %v", w.log, kindNames[k.kind], k.tok, k.revoked, res.Token)
		}
	}
}

func TestC34(t *testing.T) {
	s := hx.New(t, "C34", "rapid state machine on a fake clock over all services at once: authorizations, pushes, device flows, client credentials, redemptions, approvals, polls, refreshes, exchanges, revocations and introspections by several clients at several issuers, where one presentation in four uses a credential of any other kind; every answer is predicted by one model of everything handed out, every issued token compared with the grant it derives from, and all credentials introspected along the way. Non-trivial: a history with a token at least two derivations from its origin and a presented credential of a foreign kind; identified by its operations.",
		"within about a second of an expiration nothing is asserted", "a device code which yielded tokens may or may not yield them again")

	if err := flag.Set("rapid.steps", "80"); err != nil { // long histories
		t.Fatal(err)
	}
	s.Prop("history", 4000, func(c *hx.Case) {
		iss := fx.Issuer(c.T, "iss")
		if fx.Chance(c.T, "long", 6) {
			iss = "https://as.example/" + fx.Str(c.T, "path", "ab/", 60, 300)
		}
		w := &world{c: c, grants: map[string][]string{}, public: map[string]bool{}, issuers: []string{iss, fx.OtherIssuer(c.T, "iss2", iss)}}
		var cs []*clientv1.Client
		for i, id := range []string{"alpha", "beta", "Alpha", "service"} {
			cl := fx.FullClient(id, redir)
			cl.ClientType = clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL
			cl.ClientName = fx.Pick(c.T, "name", "alpha", "beta", id, "")
			cl.SubjectType = fx.Pick(c.T, "subject type", "", "public", "pairwise")
			cl.SectorIdentifier = fx.Pick(c.T, "sector", "", "https://shared.example")
			if i == 1 && fx.Chance(c.T, "public", 3) {
				cl.ClientType = clientv1.ClientType_CLIENT_TYPE_PUBLIC
				cl.GrantTypes = slices.DeleteFunc(slices.Clone(cl.GrantTypes), func(g string) bool { return g == oidc.GrantTypeClientCredentials && fx.Chance(c.T, "removed", 2) })
			}
			if i == 3 {
				cl.GrantTypes = []string{oidc.GrantTypeClientCredentials, oidc.GrantTypeTokenExchange}
			} else if fx.Chance(c.T, "fewer grants", 3) {
				cl.GrantTypes = slices.DeleteFunc(slices.Clone(cl.GrantTypes), func(string) bool { return fx.Chance(c.T, "without", 5) })
			}
			w.grants[id], w.public[id] = cl.GrantTypes, cl.ClientType == clientv1.ClientType_CLIENT_TYPE_PUBLIC
			cs = append(cs, cl)
			w.clients = append(w.clients, id)
		}
		w.World = fx.NewWorld(cs...)
		foreign := func(k *cred, want ...kind) {
			if !slices.Contains(want, k.kind) {
				w.crossed++
				c.Hit("%s presented as %s", kindNames[k.kind], kindNames[want[0]])
			}
		}
		c.Bubble(func() {
			c.Repeat(map[string]func(*rapid.T){
				"authorize": func(t *rapid.T) {
					as := fx.Pick(t, "client", "alpha", "beta", "Alpha")
					org, r := w.draw(t, "authorization", as)
					w.note("authorize %s", as)
					if !w.can(as, oidc.GrantTypeAuthorizationCode) {
						res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: org.iss, Subject: org.sub, Request: r})
						fx.WantRefusal(c, "authorize without grant", err, res.GetError())
						return
					}
					w.code(t, org, r)
				},
				"sign in": func(t *rapid.T) { // authorization and redemption at once
					as := fx.Pick(t, "client", "alpha", "beta", "Alpha")
					if !w.can(as, oidc.GrantTypeAuthorizationCode) {
						return
					}
					org, r := w.draw(t, "sign-in", as)
					w.note("sign in %s", as)
					w.code(t, org, r)
					k := w.all[len(w.all)-1]
					k.used = true
					cnf := fx.Confirmation(t, "cnf")
					org.jkt = cnf.GetJkt()
					res, err := w.Redeem(org.iss, as, k.value, redir, org.verifier, cnf)
					rt := slices.Contains(org.scope, "openid") && slices.Contains(org.scope, "offline_access")
					fx.WantTokens(c, "sign-in", res, err, rt)
					w.issued("access token of a sign-in", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, org, as, 0, nil, org.audience)
					if rt {
						w.issued("refresh token of a sign-in", res.RefreshToken, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, org, as, 0, nil, org.audience)
					}
				},
				"push": func(t *rapid.T) {
					as := fx.Pick(t, "client", "alpha", "beta", "Alpha")
					org, r := w.draw(t, "pushed authorization", as)
					w.note("push %s", as)
					res, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: org.iss, Client: &clientv1.Client{ClientId: as}, Request: r})
					if !w.can(as, oidc.GrantTypeAuthorizationCode) {
						fx.WantRefusal(c, "push without grant", err, res.GetError())
						return
					}
					fx.WantOK(c, "push", err, res.GetError())
					w.fresh(res.RequestUri, "request_uri")
					w.all = append(w.all, &cred{kind: uri, value: res.RequestUri, org: org, expiry: time.Now().Add(time.Duration(res.ExpiresIn) * time.Second)})
				},
				"use request_uri": func(t *rapid.T) {
					k := w.pick(t, uri)
					if k.near() {
						return
					}
					at, _, value := w.present(t, k)
					foreign(k, uri)
					w.note("use %s", kindNames[k.kind])
					sub := subject(t)
					hit := w.find(at, value)
					r := &flowv1.AuthorizationRequest{ClientId: k.org.client, RequestUri: fx.Ref(value)}
					if fx.Chance(t, "stray parameters", 3) { // only the pushed ones count
						_, r = w.draw(t, "stray", k.org.client)
						r.RequestUri = fx.Ref(value)
					}
					res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: at, Subject: sub, Request: r})
					if hit == nil || hit.kind != uri || hit.used || !hit.live() {
						fx.WantRefusal(c, "use of "+kindNames[k.kind], err, res.GetError())
						if res.Code != "" {
							c.Fatalf("refusal with a code")
						}
						return
					}
					fx.WantOK(c, "use of request_uri", err, res.GetError())
					w.fresh(res.Code, "code")
					hit.used = true
					org := *hit.org
					org.sub = sub
					w.all = append(w.all, &cred{kind: code, value: res.Code, org: &org, expiry: time.Now().Add(time.Duration(res.ExpiresIn) * time.Second)})
				},
				"redeem": func(t *rapid.T) {
					k := w.pick(t, code)
					if k.near() {
						return
					}
					at, as, value := w.present(t, k)
					foreign(k, code)
					ver := k.org.verifier
					if ver == "" {
						ver = strings.Repeat("v", 43)
					}
					if fx.Chance(t, "other verifier", 8) {
						if o := w.all[fx.Int(t, "other", 0, len(w.all)-1)]; o.org.verifier != "" {
							ver = o.org.verifier
						}
					}
					w.note("redeem %s", kindNames[k.kind])
					cnf := fx.Confirmation(t, "cnf")
					res, err := w.ask(t, &flowv1.TokenRequest{Issuer: at, Client: w.Claimed(as, value), GrantType: oidc.GrantTypeAuthorizationCode, TokenConfirmation: cnf,
						Grant: &flowv1.TokenRequest_AuthorizationCode{AuthorizationCode: &flowv1.GrantAuthorizationCode{Code: value, RedirectUri: redir, CodeVerifier: ver}}})
					hit := w.find(at, value)
					reached := hit != nil && hit.kind == code && w.can(as, oidc.GrantTypeAuthorizationCode)
					if !reached || hit.used || !hit.live() || hit.org.client != as || hit.org.verifier != ver {
						fx.WantTokenRefusal(c, "redemption of "+kindNames[k.kind], res, err)
						if reached {
							hit.used = true
						}
						return
					}
					hit.used = true
					org := hit.org
					org.jkt = cnf.GetJkt()
					rt := slices.Contains(org.scope, "openid") && slices.Contains(org.scope, "offline_access")
					fx.WantTokens(c, "redemption", res, err, rt)
					w.issued("access token of a code", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, org, as, 0, nil, org.audience)
					if rt {
						w.issued("refresh token of a code", res.RefreshToken, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, org, as, 0, nil, org.audience)
					}
				},
				"credentials": func(t *rapid.T) {
					as := fx.Pick(t, "client", w.clients...)
					org := &origin{how: "client credentials", iss: fx.Pick(t, "at", w.issuers...), client: as, scope: strings.Fields(fx.Scope(t, "scope")), audience: fx.Pick(t, "aud", "api", "urn:x")}
					cnf := fx.Confirmation(t, "cnf")
					org.jkt = cnf.GetJkt()
					w.note("credentials")
					res, err := w.Tok.Token(bg, &flowv1.TokenRequest{Issuer: org.iss, Client: w.Claimed(as, org.audience+org.iss), GrantType: oidc.GrantTypeClientCredentials, Scope: fx.Ref(strings.Join(org.scope, " ")), Audience: &org.audience, TokenConfirmation: cnf,
						Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}})
					if !w.can(as, oidc.GrantTypeClientCredentials) || w.public[as] {
						fx.WantTokenRefusal(c, "credentials without grant", res, err)
						return
					}
					fx.WantTokens(c, "credentials", res, err, false)
					w.issued("access token of a client", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, org, as, 0, nil, org.audience)
				},
				"device": func(t *rapid.T) {
					as := fx.Pick(t, "client", w.clients...)
					org := &origin{how: "device", iss: fx.Pick(t, "at", w.issuers...), client: as, scope: strings.Fields(fx.Scope(t, "scope")), audience: fx.Pick(t, "aud", "api", "urn:x")}
					w.note("device")
					res, err := w.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: org.iss, ClientId: as, Scope: fx.Ref(strings.Join(org.scope, " ")), Audience: &org.audience})
					if !w.can(as, oidc.GrantTypeDeviceCode) {
						fx.WantRefusal(c, "device without grant", err, res.GetError())
						return
					}
					fx.WantOK(c, "device", err, res.GetError())
					w.fresh(res.DeviceCode, "device code")
					w.fresh(res.UserCode, "user code")
					d := &device{}
					exp := time.Now().Add(time.Duration(res.ExpiresIn) * time.Second)
					w.all = append(w.all, &cred{kind: deviceCode, value: res.DeviceCode, org: org, expiry: exp, dev: d}, &cred{kind: userCode, value: res.UserCode, org: org, expiry: exp, dev: d})
				},
				"approve": func(t *rapid.T) {
					k := w.pick(t, userCode)
					if k.near() {
						return
					}
					at, _, value := w.present(t, k)
					foreign(k, userCode)
					sub := subject(t)
					w.note("approve %s", kindNames[k.kind])
					res, err := w.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: at, UserCode: value, Subject: sub})
					hit := w.find(at, value)
					if hit == nil || hit.kind != userCode || hit.dev.approved || !hit.live() {
						fx.WantRefusal(c, "approval of "+kindNames[k.kind], err, res.GetError())
						return
					}
					fx.WantOK(c, "approval", err, res.GetError())
					hit.dev.approved, hit.org.sub = true, sub
				},
				"poll": func(t *rapid.T) {
					k := w.pick(t, deviceCode)
					if k.near() {
						return
					}
					at, as, value := w.present(t, k)
					foreign(k, deviceCode)
					w.note("poll %s", kindNames[k.kind])
					cnf := fx.Confirmation(t, "cnf")
					res, err := w.ask(t, &flowv1.TokenRequest{Issuer: at, Client: w.Claimed(as, value), GrantType: oidc.GrantTypeDeviceCode, TokenConfirmation: cnf,
						Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: value, ClientId: as}}})
					hit := w.find(at, value)
					if hit == nil || hit.kind != deviceCode || !hit.dev.approved || !hit.live() || hit.org.client != as || !w.can(as, oidc.GrantTypeDeviceCode) {
						fx.WantTokenRefusal(c, "poll with "+kindNames[k.kind], res, err)
						return
					}
					if hit.dev.polled && err != nil {
						fx.WantTokenRefusal(c, "second poll", res, err)
						return
					}
					hit.dev.polled = true
					org := *hit.org
					org.jkt = cnf.GetJkt() // every poll binds its own tokens
					rt := slices.Contains(org.scope, "offline_access")
					fx.WantTokens(c, "poll", res, err, rt)
					w.issued("access token of a device", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, &org, as, 0, nil, org.audience)
					if rt {
						w.issued("refresh token of a device", res.RefreshToken, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, &org, as, 0, nil, org.audience)
					}
				},
				"refresh": func(t *rapid.T) {
					k := w.pick(t, refresh)
					if k.near() {
						return
					}
					at, as, value := w.present(t, k)
					foreign(k, refresh)
					w.note("refresh %s", kindNames[k.kind])
					now := uint64(time.Now().Unix())
					res, err := w.ask(t, &flowv1.TokenRequest{Issuer: at, Client: w.Claimed(as, value), GrantType: oidc.GrantTypeRefreshToken,
						Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: value}}})
					hit := w.find(at, value)
					if hit == nil || hit.kind != refresh || hit.revoked || !hit.live() || hit.tok.Metadata.ClientId != as || !w.can(as, oidc.GrantTypeRefreshToken) {
						fx.WantTokenRefusal(c, "refresh with "+kindNames[k.kind], res, err)
						return
					}
					rotate := now+hour > hit.tok.Metadata.ExpiresAt
					fx.WantTokens(c, "refresh", res, err, rotate)
					w.issued("refreshed access token", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, hit.org, as, hit.depth+1, hit.tok, hit.tok.Metadata.Audience)
					if rotate {
						hit.revoked = true
						w.issued("rotated refresh token", res.RefreshToken, tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, hit.org, as, hit.depth+1, hit.tok, hit.tok.Metadata.Audience)
					}
				},
				"exchange": func(t *rapid.T) {
					k := w.pick(t, access)
					if k.near() {
						return
					}
					at, as, value := w.present(t, k)
					foreign(k, access)
					w.note("exchange %s", kindNames[k.kind])
					var scope, aud *string
					want, fits := "", true
					if k.tok != nil && fx.Chance(t, "scoped", 2) {
						own := strings.Fields(k.tok.Metadata.Scope)
						l := slices.DeleteFunc(slices.Clone(own), func(string) bool { return fx.Chance(t, "drop", 3) })
						switch fx.Int(t, "wider", 0, 5) {
						case 0:
							l = append(l, fx.Pick(t, "extra", append(k.org.scope, "admin", "open", "offline_access")...))
						case 1:
							if len(l) > 0 {
								l[0] = fx.Mutate(t, "word", l[0])
							}
						}
						scope = fx.Ref(fx.Spaced(t, "spaces", strings.Join(l, " ")))
						for _, v := range strings.Fields(*scope) {
							fits = fits && slices.Contains(own, v)
						}
					}
					if fx.Chance(t, "audience", 2) {
						want = fx.Pick(t, "target", urn, urn, "urn:example:cooperation-context")
						aud = &want
						if fx.Chance(t, "unregistered", 4) {
							aud = fx.Ref(fx.Pick(t, "target", "", "https://backend.example.com/api", strings.ToUpper(urn), fx.Mutate(t, "urn", urn), k.org.audience))
							fits = fits && slices.Contains([]string{urn, "urn:example:cooperation-context"}, *aud)
							want = *aud
						}
					}
					now := uint64(time.Now().Unix())
					res, err := w.ask(t, &flowv1.TokenRequest{Issuer: at, Client: w.Claimed(as, value), GrantType: oidc.GrantTypeTokenExchange, Scope: scope, Audience: aud,
						Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: value, SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
					hit := w.find(at, value)
					if !fits || hit == nil || hit.kind != access || hit.revoked || !hit.live() || !w.can(as, oidc.GrantTypeTokenExchange) {
						fx.WantTokenRefusal(c, "exchange of "+kindNames[k.kind], res, err)
						return
					}
					fx.WantTokens(c, "exchange", res, err, false)
					n := w.issued("exchanged token", res.AccessToken, tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, hit.org, as, hit.depth+1, hit.tok, want)
					if n.tok.Metadata.ExpiresAt > now+60 {
						c.Fatalf("exchanged token lives until %d at %d", n.tok.Metadata.ExpiresAt, now)
					}
				},
				"revoke": func(t *rapid.T) {
					k := w.pick(t, access, refresh)
					at, as, value := w.present(t, k)
					foreign(k, access, refresh)
					w.note("revoke %s", kindNames[k.kind])
					res, err := w.Revoke(at, as, value)
					hit := w.find(at, value)
					if hit != nil && hit.tok != nil && hit.tok.Metadata.ClientId == as {
						if !hit.revoked {
							fx.WantOK(c, "revoke", err, res.GetError())
						}
						hit.revoked = true
						return
					}
					if hit != nil && hit.tok != nil && err == nil {
						c.Fatalf("%s revoked a token of %s", as, hit.tok.Metadata.ClientId)
					}
				},
				"introspect": func(t *rapid.T) {
					k := w.pick(t, access, refresh)
					at, as, value := w.present(t, k)
					foreign(k, access, refresh)
					w.note("introspect %s", kindNames[k.kind])
					res, err := w.Introspect(at, as, value)
					fx.WantOK(c, "introspect", err, res.GetError())
					hit := w.find(at, value)
					if hit == nil || hit.tok == nil {
						if res.Token.GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN || res.Token.Metadata != nil {
							c.Fatalf("%q at %s is introspected as %v", value, at, res.Token)
						}
					} else if !proto.Equal(res.Token.GetMetadata(), hit.tok.Metadata) || !proto.Equal(res.Token.Confirmation, hit.tok.Confirmation) {
						c.Fatalf("%v is introspected as %v", hit.tok, res.Token)
					}
				},
				"audit": func(t *rapid.T) { w.audit() },
				"advance": func(t *rapid.T) {
					d := time.Duration(fx.Pick(t, "s", 1, 2, 5, 5, 20, 20, 45, 62, 125, hour-70, hour+2, 6*24*hour+23*hour+1800)) * time.Second
					time.Sleep(d)
					w.note("advance %s", d)
				},
			})
			w.audit()
		})
		c.Hit("depth %d", min(w.deep, 5))
		if w.deep >= 2 && w.crossed > 0 {
			c.NonTrivial("%s", strings.Join(w.log, ","))
		}
	})
}
