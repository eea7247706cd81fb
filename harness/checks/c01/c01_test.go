package c01

import (
	"context"
	"net/url"
	"slices"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	"zntr.io/solid/server/storage"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

// recorders count what reaches storage.
type recReqs struct {
	storage.AuthorizationRequest
	n    int
	last *flowv1.AuthorizationRequest
}

func (r *recReqs) Register(ctx context.Context, iss, uri string, req *flowv1.AuthorizationRequest) (uint64, error) {
	r.n++
	r.last = proto.Clone(req).(*flowv1.AuthorizationRequest)
	return r.AuthorizationRequest.Register(ctx, iss, uri, req)
}

type recCodes struct {
	storage.AuthorizationCodeSession
	n    int
	last *sessionv1.AuthorizationCodeSession
}

func (r *recCodes) Register(ctx context.Context, iss, code string, s *sessionv1.AuthorizationCodeSession) (uint64, error) {
	r.n++
	r.last = proto.Clone(s).(*sessionv1.AuthorizationCodeSession)
	return r.AuthorizationCodeSession.Register(ctx, iss, code, s)
}

var supportedModes = []string{"query", "fragment", "form_post", "jwt", "form_post.jwt", "query.jwt", "fragment.jwt"}

func effectiveMode(rt, mode string) string {
	if mode == "jwt" {
		if rt == "token" {
			return "fragment.jwt"
		}
		return "query.jwt"
	}
	return mode
}

// acceptable is the independent oracle of the statement.
func acceptable(r *flowv1.AuthorizationRequest, c *clientv1.Client) string {
	switch {
	case len(r.State) < 32:
		return "state"
	case len(r.Nonce) < 8:
		return "nonce"
	case r.Scope == "":
		return "scope"
	case r.Audience == "":
		return "audience"
	case r.ClientId == "":
		return "client_id"
	case len(r.CodeChallenge) != 43:
		return "code_challenge"
	case r.CodeChallengeMethod != "S256":
		return "code_challenge_method"
	case r.ResponseType != "code" && r.ResponseType != "token":
		return "response_type"
	case r.ResponseMode != nil && !slices.Contains(supportedModes, *r.ResponseMode):
		return "response_mode"
	}
	if _, err := url.ParseRequestURI(r.RedirectUri); err != nil {
		return "redirect_uri syntax"
	}
	if c == nil {
		return "client unknown"
	}
	if !slices.Contains(c.GrantTypes, "authorization_code") {
		return "client grant"
	}
	if !slices.Contains(c.ResponseTypes, r.ResponseType) {
		return "client response_type"
	}
	if !slices.Contains(c.RedirectUris, r.RedirectUri) {
		return "client redirect_uri"
	}
	if r.ResponseMode != nil && !slices.Contains(c.ResponseModes, effectiveMode(r.ResponseType, *r.ResponseMode)) {
		return "client response_mode"
	}
	return ""
}

// wantScope is the scope list to be recorded.
func wantScope(r *flowv1.AuthorizationRequest) []string {
	words := strings.Fields(r.Scope)
	if !slices.Contains(words, "openid") || (r.Prompt != nil && *r.Prompt == "consent") {
		return words
	}
	out := []string{}
	for _, w := range words {
		if w != "offline_access" {
			out = append(out, w)
		}
	}
	return out
}

// sameRecorded compares what was recorded with what was sent.
func sameRecorded(c *hx.Case, sent, got *flowv1.AuthorizationRequest) {
	if got == nil {
		c.Fatalf("nothing recorded")
	}
	if w, g := wantScope(sent), strings.Fields(got.Scope); !slices.Equal(w, g) {
		c.Fatalf("recorded scope %q, want words %q (sent %q, prompt %v)", got.Scope, w, sent.Scope, sent.Prompt)
	}
	a, b := proto.Clone(sent).(*flowv1.AuthorizationRequest), proto.Clone(got).(*flowv1.AuthorizationRequest)
	a.Scope, b.Scope = "", ""
	if a.ResponseMode != nil && *a.ResponseMode == "jwt" && b.ResponseMode != nil && (*b.ResponseMode == "jwt" || *b.ResponseMode == effectiveMode(a.ResponseType, "jwt")) {
		a.ResponseMode, b.ResponseMode = nil, nil
	}
	if !proto.Equal(a, b) {
		c.Fatalf("recorded request differs from the one sent:\n sent %v\n got  %v", a, b)
	}
}

func genClient(c *hx.Case, id string) *clientv1.Client {
	cl := &clientv1.Client{
		ClientId:      id,
		ClientType:    clientv1.ClientType(fx.Pick(c.T, "ctype", 1, 2, 3)),
		GrantTypes:    []string{"authorization_code"},
		ResponseTypes: []string{"code", "token"},
		ResponseModes: append([]string{}, supportedModes...),
	}
	switch fx.Pick(c.T, "grants", 0, 1, 2) {
	case 1:
		cl.GrantTypes = append([]string{}, fx.AllGrants...)
	case 2:
		cl.GrantTypes = []string{"refresh_token", "authorization_code"}
	}
	switch fx.Pick(c.T, "rts", 0, 1, 2) {
	case 1:
		cl.ResponseTypes = []string{"code"}
	case 2:
		cl.ResponseTypes = []string{"token"}
	}
	if fx.Chance(c.T, "modes", 2) {
		cl.ResponseModes = nil
		for _, m := range supportedModes {
			if fx.Chance(c.T, "mode_"+m, 2) {
				cl.ResponseModes = append(cl.ResponseModes, m)
			}
		}
	}
	n := fx.Pick(c.T, "nredir", 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		cl.RedirectUris = append(cl.RedirectUris, fx.Pick(c.T, "redir", fx.Redirects...))
	}
	return cl
}

// genRequest starts from a request fulfilling all rules for the client.
func genRequest(c *hx.Case, cl *clientv1.Client) *flowv1.AuthorizationRequest {
	redirect := fx.Pick(c.T, "use_redir", cl.RedirectUris...)
	r := fx.ValidRequest(c.T, "ar", cl.ClientId, redirect, fx.Verifier(c.T, "ver"))
	r.ResponseType = fx.Pick(c.T, "rt", cl.ResponseTypes...)
	if fx.Chance(c.T, "with_mode", 2) {
		var ok []string
		for _, m := range supportedModes {
			if slices.Contains(cl.ResponseModes, effectiveMode(r.ResponseType, m)) {
				ok = append(ok, m)
			}
		}
		if len(ok) > 0 {
			r.ResponseMode = fx.Ref(fx.Pick(c.T, "rm", ok...))
		}
	}
	// every other optional field
	if fx.Chance(c.T, "extras", 2) {
		r.Display = fx.Ref("page")
		r.MaxAge = fx.Ref(uint64(fx.Pick(c.T, "maxage", 0, 3600)))
		r.UiLocales = fx.Ref("fr en")
		r.IdTokenHint = fx.Ref("hint")
		r.AcrValues = fx.Ref(fx.Str(c.T, "acr", fx.Alnum, 0, 5))
		r.Request = fx.Ref("jws")
		r.DpopProof = fx.Ref("proof")
		r.Resource = []string{"https://r1.example", "https://r2.example"}
		r.Iss = fx.Ref("https://as.example.com")
		r.LoginHint = fx.Ref("alice")
		r.LoginHintToken = fx.Ref("lht")
	}
	// sizes which no rule limits
	if fx.Chance(c.T, "long", 4) {
		n := fx.Pick(c.T, "long_n", 60, 64, 100, 128, 200, 256, 300, 512, 1024, 5000)
		switch fx.Pick(c.T, "long_what", "state", "nonce", "scope", "audience") {
		case "state":
			r.State = strings.Repeat("s", n)
		case "nonce":
			r.Nonce = strings.Repeat("n", n)
		case "scope":
			r.Scope += strings.Repeat(" read:all", n/9)
		case "audience":
			r.Audience = strings.Repeat("a", n)
		}
	}
	return r
}

func mutate(c *hx.Case, r *flowv1.AuthorizationRequest, cl *clientv1.Client) {
	kind := fx.Pick(c.T, "mutation", "state", "nonce", "scope", "audience", "client_id", "redirect", "redirect_decoy",
		"redirect_syntax", "challenge", "method", "response_type", "response_mode", "client_grant", "client_rt", "client_rm", "client_redirect")
	c.Hit("mutation %s", kind)
	switch kind {
	case "state":
		r.State = fx.Pick(c.T, "state_v", "", "x", strings.Repeat("s", 31), strings.Repeat("s", 32), strings.Repeat("é", 16), strings.Repeat("é", 15)+"a", strings.Repeat("é", 31), strings.Repeat(" ", 32), strings.Repeat("s", 33), strings.Repeat("s", 2000))
	case "nonce":
		r.Nonce = fx.Pick(c.T, "nonce_v", "", "n", strings.Repeat("n", 7), strings.Repeat("n", 8), strings.Repeat("é", 4), "ééén", strings.Repeat("n", 9), strings.Repeat("n", fx.Int(c.T, "nonce_n", 8, 5000)))
	case "scope":
		r.Scope = ""
	case "audience":
		r.Audience = ""
	case "client_id":
		r.ClientId = fx.Pick(c.T, "cid_v", "", strings.ToUpper(r.ClientId), r.ClientId+" ", "unknown", r.ClientId+"x", strings.TrimSuffix(r.ClientId, "a"), cl.ClientId[:len(cl.ClientId)-1], "other")
	case "redirect":
		r.RedirectUri = fx.Mutate(c.T, "redir_m", r.RedirectUri)
	case "redirect_decoy":
		cl.RedirectUris = slices.DeleteFunc(cl.RedirectUris, func(u string) bool { return u == r.RedirectUri })
		cl.RedirectUris = append(cl.RedirectUris, fx.Mutate(c.T, "redir_d", r.RedirectUri))
	case "redirect_syntax":
		r.RedirectUri = fx.Pick(c.T, "bad_uri", "", "not a uri", "client.example/cb", "https://[::1", "http://exa mple.com/", "%zz", ":foo", "https://client.example/%zz")
		cl.RedirectUris = append(cl.RedirectUris, r.RedirectUri)
	case "challenge":
		r.CodeChallenge = fx.Pick(c.T, "chal_v", "", strings.Repeat("c", 42), r.CodeChallenge+"=", r.CodeChallenge+"A", r.CodeChallenge+r.CodeChallenge, strings.Repeat("é", 21)+"a", strings.Repeat("é", 43))
	case "method":
		r.CodeChallengeMethod = fx.Pick(c.T, "meth_v", "", "plain", "s256", "S256 ", "S512", "S256,plain", "SHA256")
	case "response_type":
		r.ResponseType = fx.Pick(c.T, "rt_v", "", "Code", "code ", " code", "CODE", "code token", "id_token", "none", "token", "code", "Token")
	case "response_mode":
		r.ResponseMode = fx.Ref(fx.Pick(c.T, "rm_v", append([]string{"", "Query", "web_message", "JWT", "query ", "jwt.query", "form-post"}, supportedModes...)...))
	case "client_grant":
		cl.GrantTypes = fx.Pick(c.T, "cg_v", []string{}, []string{"refresh_token"}, []string{"authorization_codes"}, []string{"authorization code", "client_credentials", "implicit"})
	case "client_rt":
		cl.ResponseTypes = fx.Pick(c.T, "crt_v", []string{}, []string{"token"}, []string{"code"}, []string{"code token"}, []string{"id_token"})
	case "client_rm":
		cl.ResponseModes = fx.Pick(c.T, "crm_v", []string{}, []string{"jwt"}, []string{"query"}, []string{"query.jwt"}, []string{"fragment.jwt"}, []string{"form_post"}, []string{"form_post.jwt", "fragment"})
		if r.ResponseMode == nil {
			r.ResponseMode = fx.Ref(fx.Pick(c.T, "crm_m", supportedModes...))
		}
	case "client_redirect":
		cl.RedirectUris = nil
	}
}

func TestC01(t *testing.T) {
	s := hx.New(t, "C01", "rapid: a client and an authorization request which fulfil every rule, then 0..2 mutations (boundary lengths, case and prefix variants, missing capabilities); accept-iff oracle plus what reached storage. Non-trivial: the request passed, or exactly the mutated rule is violated; identified by the request and client.",
		"scope words in other letter cases than openid/offline_access and prompt lists containing consent are not generated (unspecified)")

	run := func(pushed bool) func(c *hx.Case) {
		return func(c *hx.Case) {
			cl := genClient(c, "client-"+fx.Str(c.T, "cid", "abc", 1, 3))
			other := fx.FullClient("other")
			r := genRequest(c, cl)
			for i, n := 0, fx.Pick(c.T, "nmut", 0, 1, 1, 1, 2); i < n; i++ {
				mutate(c, r, cl)
			}
			w := fx.NewWorld(cl, other)
			reqs := &recReqs{AuthorizationRequest: w.Reqs}
			codes := &recCodes{AuthorizationCodeSession: w.Codes}
			w.Reqs, w.Codes = reqs, codes
			w.Wire()
			var reg *clientv1.Client
			switch r.ClientId {
			case cl.ClientId:
				reg = cl
			case "other":
				reg = other
			}
			why := acceptable(r, reg)
			// the client the authorization is made for, when it is named
			var named *clientv1.Client
			switch fx.Int(c.T, "named", 0, 9) {
			case 0, 1, 2:
			case 3, 4:
				named = fx.FullClient(fx.Pick(c.T, "named_id", "other", "", "x"+r.ClientId, fx.FlipCase(c.T, "named_case", r.ClientId), fx.Mutate(c.T, "named_mut", r.ClientId)))
			case 5:
				named = &clientv1.Client{ClientId: r.ClientId}
			default:
				if named = proto.Clone(reg).(*clientv1.Client); reg == nil {
					named = fx.FullClient(r.ClientId)
				}
			}
			if !pushed && why == "" && named != nil && named.ClientId != r.ClientId {
				why = "client of another request"
			}
			iss := fx.Issuer(c.T, "iss")
			sub := fx.Str(c.T, "sub", fx.Alnum, 1, 12)
			sent := proto.Clone(r).(*flowv1.AuthorizationRequest)
			if why == "" {
				c.Hit("accepted")
			} else {
				c.Hit("refused %s", why)
			}
			c.NonTrivial("pushed=%v verdict=%q %v", pushed, why, sent)

			if pushed {
				res, err := w.Authz.Register(context.Background(), &flowv1.RegistrationRequest{Issuer: iss, Client: proto.Clone(&clientv1.Client{ClientId: r.ClientId}).(*clientv1.Client), Request: r})
				if res == nil {
					c.Fatalf("nil response")
				}
				if why != "" {
					fx.WantRefusal(c, "register with bad "+why, err, res.Error)
					if res.RequestUri != "" || reqs.n != 0 || codes.n != 0 {
						c.Fatalf("refused (%s) but request_uri=%q, %d requests and %d codes recorded", why, res.RequestUri, reqs.n, codes.n)
					}
					if len(sent.State) >= 32 && res.Error.GetState() != sent.State {
						c.Fatalf("refused (%s) without the state: %v", why, res.Error)
					}
					return
				}
				fx.WantOK(c, "register", err, res.Error)
				if res.RequestUri == "" || res.ExpiresIn == 0 || res.Issuer != iss {
					c.Fatalf("incomplete answer %v", res)
				}
				if reqs.n != 1 || codes.n != 0 {
					c.Fatalf("%d requests and %d codes recorded", reqs.n, codes.n)
				}
				got, err := w.Reqs.Get(context.Background(), iss, res.RequestUri)
				if err != nil {
					c.Fatalf("registered request not found: %v", err)
				}
				sameRecorded(c, sent, got)
				sameRecorded(c, sent, reqs.last)
				return
			}

			res, err := w.Authz.Authorize(context.Background(), &flowv1.AuthorizeRequest{Issuer: iss, Client: named, Subject: sub, Request: r})
			if res == nil {
				c.Fatalf("nil response")
			}
			if why != "" {
				fx.WantRefusal(c, "authorize with bad "+why, err, res.Error)
				if res.Code != "" || reqs.n != 0 || codes.n != 0 {
					c.Fatalf("refused (%s) but code=%q, %d requests and %d codes recorded", why, res.Code, reqs.n, codes.n)
				}
				if len(sent.State) >= 32 && res.Error.GetState() != sent.State {
					c.Fatalf("refused (%s) without the state: %v", why, res.Error)
				}
				return
			}
			fx.WantOK(c, "authorize", err, res.Error)
			if res.Code == "" || res.State != sent.State || res.RedirectUri != sent.RedirectUri || res.ClientId != sent.ClientId || res.ExpiresIn == 0 || res.Issuer != iss || res.ResponseMode != effectiveMode(sent.ResponseType, sent.GetResponseMode()) {
				c.Fatalf("wrong answer %v for %v", res, sent)
			}
			if reqs.n != 0 || codes.n != 1 {
				c.Fatalf("%d requests and %d codes recorded", reqs.n, codes.n)
			}
			got, err := w.Codes.Get(context.Background(), iss, res.Code)
			if err != nil {
				c.Fatalf("code session not found: %v", err)
			}
			if got.Subject != sub || got.Issuer != iss || codes.last.Subject != sub {
				c.Fatalf("session is for %q at %q, want %q at %q", got.Subject, got.Issuer, sub, iss)
			}
			sameRecorded(c, sent, got.Request)
			sameRecorded(c, sent, codes.last.Request)
		}
	}
	s.Prop("authorize", 12000, run(false))
	s.Prop("register", 12000, run(true))

	// The removal of offline_access, over scope lists only.
	s.Prop("offline_access", 4000, func(c *hx.Case) {
		cl := fx.FullClient("client")
		w := fx.NewWorld(cl)
		r := fx.ValidRequest(c.T, "ar", "client", cl.RedirectUris[0], fx.Verifier(c.T, "ver"))
		words := fx.ScopeList(c.T, "words")
		extra := fx.Pick(c.T, "noa", 0, 1, 2, 3)
		for i := 0; i < extra; i++ {
			at := fx.Pick(c.T, "at", 0, 1, 2, 3)
			words = slices.Insert(words, min(at, len(words)), "offline_access")
		}
		r.Scope = strings.Join(words, " ")
		sent := proto.Clone(r).(*flowv1.AuthorizationRequest)
		pushFirst := fx.Chance(c.T, "push", 2)
		if pushFirst {
			p, err := w.Authz.Register(context.Background(), &flowv1.RegistrationRequest{Issuer: "https://as.example", Client: cl, Request: r})
			fx.WantOK(c, "push", err, p.Error)
			r = &flowv1.AuthorizationRequest{ClientId: "client", RequestUri: &p.RequestUri}
		}
		res, err := w.Authz.Authorize(context.Background(), &flowv1.AuthorizeRequest{Issuer: "https://as.example", Subject: "alice", Request: r})
		fx.WantOK(c, "authorize", err, res.Error)
		got, err := w.Codes.Get(context.Background(), "https://as.example", res.Code)
		if err != nil {
			c.Fatalf("code session not found: %v", err)
		}
		if slices.Contains(words, "offline_access") && slices.Contains(words, "openid") {
			c.NonTrivial("pushed=%v prompt=%v scope=%q", pushFirst, sent.GetPrompt(), sent.Scope)
			c.Hit("openid+offline_access consent=%v", sent.GetPrompt() == "consent")
		}
		sameRecorded(c, sent, got.Request)
	})
}
