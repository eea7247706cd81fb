package c02

import (
	"context"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

type pushed struct {
	issuer, uri string
	req         *flowv1.AuthorizationRequest
	expiry      time.Time
	used        bool
}

var bg = context.Background()

func same(c *hx.Case, what string, want, got *flowv1.AuthorizationRequest) {
	a, b := proto.Clone(want).(*flowv1.AuthorizationRequest), proto.Clone(got).(*flowv1.AuthorizationRequest)
	if !proto.Equal(a, b) {
		c.Fatalf("%s: authorization ran on other parameters than those pushed\n pushed %v\n got    %v", what, a, b)
	}
}

func TestC02(t *testing.T) {
	s := hx.New(t, "C02", "rapid state machine on a fake clock: pushes by several clients at several issuers, authorizations with valid, foreign, mutated, expired and replayed request_uri values and conflicting front-channel parameters, clock advances; compared with a model. Non-trivial: a history with at least one successful use and one refused use; identified by its operations.",
		"the 50 ms around an expiration are not tested")

	s.Prop("history", 2500, func(c *hx.Case) {
		clients := []*clientv1.Client{fx.FullClient("alpha", "https://shared.example/cb", "https://alpha.example/cb"), fx.FullClient("beta", "https://shared.example/cb"), fx.FullClient("ALPHA", "https://shared.example/cb")}
		w := fx.NewWorld(clients...)
		iss := fx.Issuer(c.T, "iss")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss2", iss), "https://third.example"}
		var log []string
		ok, refused := 0, 0
		c.Bubble(func() {
			var all []*pushed
			alive := func(p *pushed) bool { return !p.used && time.Now().Before(p.expiry) }
			clear := func(p *pushed) bool { // away from the boundary
				return fx.Clear(p.expiry)
			}
			// front-channel parameters which must not matter
			front := func(t *rapid.T, p *pushed) *flowv1.AuthorizationRequest {
				fr := &flowv1.AuthorizationRequest{RequestUri: fx.Ref(p.uri)}
				switch rapid.IntRange(0, 3).Draw(t, "front") {
				case 0:
					fr.ClientId = p.req.ClientId
				case 1:
					fr = fx.ValidRequest(t, "front", fx.Pick(t, "front_client", "alpha", "beta", "unknown"), "https://evil.example/cb", fx.Verifier(t, "fv"))
					fr.RequestUri = fx.Ref(p.uri)
				case 2:
					fr = fx.ValidRequest(t, "front", p.req.ClientId, "https://shared.example/cb", fx.Verifier(t, "fv"))
					fr.Scope = "openid admin"
					fr.Prompt = fx.Ref("consent")
					fr.ResponseMode = fx.Ref("fragment")
					fr.RequestUri = fx.Ref(p.uri)
				}
				return fr
			}
			named := func(t *rapid.T, p *pushed) *clientv1.Client {
				if fx.Chance(t, "named", 2) {
					return fx.FullClient(p.req.ClientId)
				}
				return nil
			}
			use := func(t *rapid.T, p *pushed) {
				sub := fx.Str(t, "sub", "abc", 1, 3)
				res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: p.issuer, Client: named(t, p), Subject: sub, Request: front(t, p)})
				c.Step()
				if alive(p) {
					fx.WantOK(c, "use of a fresh request_uri", err, res.GetError())
					if res.Code == "" || res.State != p.req.State || res.ClientId != p.req.ClientId || res.RedirectUri != p.req.RedirectUri || res.Issuer != p.issuer {
						c.Fatalf("wrong answer %v for %v", res, p.req)
					}
					sess, err := w.Codes.Get(bg, p.issuer, res.Code)
					if err != nil || sess.Subject != sub {
						c.Fatalf("session of the code: %v %v", sess, err)
					}
					same(c, "use", p.req, sess.Request)
					p.used = true
					ok++
					c.Hit("used")
					return
				}
				fx.WantRefusal(c, "use of a used or expired request_uri", err, res.GetError())
				if res.Error.Err != "invalid_request" || res.Code != "" {
					c.Fatalf("used=%v expired by %s: got code %q error %v", p.used, -time.Until(p.expiry), res.Code, res.Error)
				}
				refused++
				if p.used {
					c.Hit("replay refused")
				} else {
					c.Hit("expired refused")
				}
			}
			c.Repeat(map[string]func(*rapid.T){
				"push": func(t *rapid.T) {
					cl := fx.Pick(t, "client", clients...)
					iss := fx.Pick(t, "at", issuers...)
					req := fx.ValidRequest(t, "req", cl.ClientId, fx.Pick(t, "redir", cl.RedirectUris...), fx.Verifier(t, "v"))
					given := proto.Clone(req).(*flowv1.AuthorizationRequest)
					res, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: given})
					c.Step()
					fx.WantOK(c, "push", err, res.GetError())
					fx.Spoil(given.ProtoReflect()) // the caller reuses its object
					if res.RequestUri == "" || res.ExpiresIn == 0 || res.Issuer != iss {
						c.Fatalf("incomplete answer %v", res)
					}
					for _, o := range all {
						if o.uri == res.RequestUri {
							c.Fatalf("request_uri %q returned twice", res.RequestUri)
						}
					}
					stored, err := w.Reqs.Get(bg, iss, res.RequestUri)
					if err != nil {
						c.Fatalf("pushed request not stored: %v", err)
					}
					want := req
					want.Scope = stored.Scope // may have been cleaned, C01 decides how
					same(c, "push", want, stored)
					all = append(all, &pushed{issuer: iss, uri: res.RequestUri, req: want, expiry: time.Now().Add(time.Duration(res.ExpiresIn) * time.Second)})
					log = append(log, "push "+cl.ClientId+"@"+iss)
				},
				"push_for_other": func(t *rapid.T) {
					cl, other := clients[0], clients[rapid.IntRange(1, 2).Draw(t, "other")]
					if rapid.Bool().Draw(t, "swap") {
						cl, other = other, cl
					}
					req := fx.ValidRequest(t, "req", other.ClientId, "https://shared.example/cb", fx.Verifier(t, "v"))
					auth := &clientv1.Client{ClientId: cl.ClientId}
					if rapid.Bool().Draw(t, "anon") {
						auth = &clientv1.Client{ClientName: other.ClientName}
					}
					res, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: iss, Client: auth, Request: req})
					c.Step()
					fx.WantRefusal(c, "push for another client", err, res.GetError())
					if res.RequestUri != "" {
						c.Fatalf("pushed for another client")
					}
					c.Hit("push for other refused")
					log = append(log, "push_for_other")
				},
				"push_nested": func(t *rapid.T) {
					cl := fx.Pick(t, "client", clients...)
					req := fx.ValidRequest(t, "req", cl.ClientId, "https://shared.example/cb", fx.Verifier(t, "v"))
					u := "urn:solid:" + fx.Str(t, "rnd", fx.Alnum, 32, 32)
					if len(all) > 0 && rapid.Bool().Draw(t, "own") {
						u = fx.Pick(t, "nested", all...).uri
					}
					req.RequestUri = fx.Ref(fx.Pick(t, "u", u, "", "x"))
					res, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: req})
					c.Step()
					fx.WantRefusal(c, "nested push", err, res.GetError())
					if res.RequestUri != "" {
						c.Fatalf("nested request pushed")
					}
					c.Hit("nested refused")
					log = append(log, "push_nested")
				},
				"use": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					p := all[len(all)-1-rapid.IntRange(0, len(all)-1).Draw(t, "which")]
					if !clear(p) {
						return
					}
					log = append(log, "use "+p.issuer)
					use(t, p)
				},
				"use_elsewhere": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					p := fx.Pick(t, "p", all...)
					at := fx.Pick(t, "at", issuers...)
					if at == p.issuer {
						at = fx.OtherIssuer(t, "other", p.issuer)
					}
					fr := front(t, p)
					res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: at, Subject: "eve", Request: fr})
					c.Step()
					fx.WantRefusal(c, "use at a foreign issuer", err, res.GetError())
					if res.Error.Err != "invalid_request" || res.Code != "" {
						c.Fatalf("foreign issuer: code %q error %v", res.Code, res.Error)
					}
					c.Hit("foreign refused")
					log = append(log, "foreign")
				},
				"use_by_other_client": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					p := all[len(all)-1-rapid.IntRange(0, len(all)-1).Draw(t, "which")]
					if !clear(p) {
						return
					}
					fr := front(t, p)
					by := fx.FullClient(fx.Pick(t, "by", "alpha", "beta", "ALPHA", ""))
					if by.ClientId == p.req.ClientId {
						by.ClientId = "gamma"
					}
					if fx.Chance(t, "front_names", 2) {
						fr.ClientId = by.ClientId
					}
					res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: p.issuer, Client: by, Subject: "eve", Request: fr})
					c.Step()
					fx.WantRefusal(c, "use by another client", err, res.GetError())
					if res.Error.Err != "invalid_request" || res.Code != "" {
						c.Fatalf("other client: code %q error %v", res.Code, res.Error)
					}
					// whether the attempt spends the request is not specified
					if alive(p) {
						if _, err := w.Reqs.Get(bg, p.issuer, p.uri); err != nil {
							p.used = true
						}
					}
					c.Hit("other client refused")
					log = append(log, "other client")
				},
				"use_mutated": func(t *rapid.T) {
					base := "urn:solid:" + fx.Str(t, "rnd", fx.Alnum, 32, 32)
					at := iss
					if len(all) > 0 && rapid.Bool().Draw(t, "real") {
						p := fx.Pick(t, "p", all...)
						at = p.issuer
						base = fx.Mutate(t, "uri", p.uri)
						switch rapid.IntRange(0, 5).Draw(t, "form") {
						case 0:
							base = strings.TrimPrefix(p.uri, "urn:solid:")
						case 1:
							base = "urn:ietf:params:oauth:request_uri:" + strings.TrimPrefix(p.uri, "urn:solid:")
						case 2:
							base = p.uri + "\n"
						case 3:
							base = ""
						}
					}
					res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: at, Subject: "eve", Request: &flowv1.AuthorizationRequest{RequestUri: &base}})
					c.Step()
					fx.WantRefusal(c, "use of an unknown request_uri", err, res.GetError())
					if res.Error.Err != "invalid_request" || res.Code != "" {
						c.Fatalf("unknown %q: code %q error %v", base, res.Code, res.Error)
					}
					c.Hit("unknown refused")
					log = append(log, "mutated")
				},
				"advance": func(t *rapid.T) {
					d := time.Duration(fx.Pick(t, "ms", 1500, 10500, 29500, 45500, 57500, 62500)) * time.Millisecond
					if len(all) > 0 && fx.Int(t, "end", 0, 1) == 1 {
						d = fx.NearEnd(t, "near", fx.Pick(t, "of", all...).expiry)
					}
					time.Sleep(d)
					log = append(log, "advance "+d.String())
				},
			})
			// whatever is left is usable exactly once
			for _, p := range all {
				if clear(p) {
					use(c.T, p)
					use(c.T, p)
				}
			}
		})
		if ok > 0 && refused > 0 {
			c.NonTrivial("%s", strings.Join(log, ", "))
		}
	})
}
