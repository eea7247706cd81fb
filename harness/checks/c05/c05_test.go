package c05

import (
	"context"
	"slices"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

type session struct {
	issuer, client, device, user string
	scope, audience              *string
	expires                      time.Time
	approved                     bool
	subject                      string
	polled                       bool // yielded tokens once: later polls are unspecified
}

func TestC05(t *testing.T) {
	s := hx.New(t, "C05", "rapid state machine on a fake clock: device flows of several clients at several issuers, clients which lose and get back the device grant, approvals (right, wrong issuer, altered or already used user code, device code as user code, blank subject), polls (right, wrong client, wrong issuer, altered code, user code as device code) and clock advances, compared with a model of sessions. Non-trivial: a history with an approval, tokens and a refusal; identified by its operations.",
		"a device code which yielded tokens may or may not yield tokens again within its lifetime (unspecified)", "the 50 ms around an expiration are not tested")

	s.Prop("history", 6000, func(c *hx.Case) {
		d1, d2, d3 := fx.FullClient("dev-one"), fx.FullClient("dev-two"), fx.FullClient("DEV-ONE")
		d3.GrantTypes = []string{oidc.GrantTypeDeviceCode}
		no := fx.FullClient("no-grant")
		no.GrantTypes = slices.DeleteFunc(no.GrantTypes, func(g string) bool { return g == oidc.GrantTypeDeviceCode })
		no.GrantTypes = append(no.GrantTypes, "device_code")
		w := fx.NewWorld(d1, d2, d3, no)
		ids := []string{"dev-one", "dev-two", "DEV-ONE"}
		registered := map[string]*clientv1.Client{"dev-one": d1, "dev-two": d2, "DEV-ONE": d3}
		lost := map[string]bool{} // clients which lost the grant
		iss := fx.Issuer(c.T, "iss")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss2", iss), "https://third.example"}
		var log []string
		approvals, tokens, refusals := 0, 0, 0
		c.Bubble(func() {
			var all []*session
			clear := func(k *session) bool {
				return fx.Clear(k.expires)
			}
			live := func(k *session) bool { return time.Now().Before(k.expires) }
			pick := func(t *rapid.T) *session {
				return all[len(all)-1-fx.Int(t, "which", 0, len(all)-1)]
			}
			approve := func(iss, user, subject string) (*flowv1.DeviceCodeValidationResponse, error) {
				c.Step()
				res, err := w.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: user, Subject: subject})
				if res == nil {
					c.Fatalf("nil response")
				}
				return res, err
			}
			poll := func(k *session, noise *flowv1.TokenRequest) {
				c.Step()
				before := uint64(time.Now().Unix())
				req := &flowv1.TokenRequest{
					Issuer: k.issuer, Client: w.Claimed(k.client, k.device), GrantType: oidc.GrantTypeDeviceCode,
					Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: k.device, ClientId: k.client}},
				}
				proto.Merge(req, noise) // what only other grants use
				res, err := w.Tok.Token(bg, req)
				switch {
				case lost[k.client]:
					fx.WantTokenRefusal(c, "poll by a client which lost the grant", res, err)
					c.Hit("lost grant")
					refusals++
				case !live(k):
					fx.WantTokenRefusal(c, "poll after expiry", res, err)
					c.Hit("expired")
					refusals++
				case !k.approved:
					fx.WantTokenRefusal(c, "poll before approval", res, err)
					if res.Error.Err != "authorization_pending" {
						c.Fatalf("poll before approval reports %q", res.Error.Err)
					}
					c.Hit("pending")
					refusals++
				case k.polled && err != nil:
					fx.WantTokenRefusal(c, "poll again", res, err)
				default:
					wantRT := k.scope != nil && slices.Contains(strings.Fields(*k.scope), "offline_access")
					fx.WantTokens(c, "poll", res, err, wantRT)
					g := fx.Grant{Issuer: k.issuer, Subject: k.subject, Client: k.client, Type: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, Issued: before, Lifetime: 3600}
					if k.scope != nil {
						g.Scope = *k.scope
					}
					if k.audience != nil {
						g.Audience = *k.audience
					}
					fx.WantToken(c, "access token", res.AccessToken, g)
					if wantRT {
						g.Type, g.Lifetime = tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, 7*24*3600
						fx.WantToken(c, "refresh token", res.RefreshToken, g)
					}
					ir, err := w.Introspect(k.issuer, k.client, res.AccessToken.Value)
					fx.WantOK(c, "introspect", err, ir.GetError())
					if ir.Token.GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE || ir.Token.GetTokenId() != res.AccessToken.TokenId {
						c.Fatalf("issued token introspects as %v", ir.Token)
					}
					k.polled = true
					tokens++
					c.Hit("tokens rt=%v", wantRT)
				}
			}
			c.Repeat(map[string]func(*rapid.T){
				"regrant": func(t *rapid.T) { // the registration changes
					id := fx.Pick(t, "client", ids...)
					cl := proto.Clone(registered[id]).(*clientv1.Client)
					if lost[id] = !lost[id]; lost[id] {
						cl.GrantTypes = slices.DeleteFunc(cl.GrantTypes, func(g string) bool { return g == oidc.GrantTypeDeviceCode })
					}
					w.Clients.Put(cl)
					log = append(log, "regrant "+id)
				},
				"start": func(t *rapid.T) {
					k := &session{issuer: fx.Pick(t, "at", issuers...), client: fx.Pick(t, "client", ids...)}
					if lost[k.client] {
						res, err := w.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: k.issuer, ClientId: k.client})
						fx.WantRefusal(c, "start by a client which lost the grant", err, res.GetError())
						return
					}
					if fx.Int(t, "has_scope", 0, 3) > 0 {
						k.scope = fx.Ref(fx.Spaced(t, "spaced", fx.Scope(t, "scope")))
					}
					if fx.Int(t, "has_aud", 0, 1) > 0 {
						k.audience = fx.Ref(fx.Pick(t, "aud", "https://api.example", "urn:x", "a b", " a", "a ", "a  b", "A", "", "é\t"))
					}
					given := proto.Clone(&flowv1.DeviceAuthorizationRequest{Issuer: k.issuer, ClientId: k.client, Scope: k.scope, Audience: k.audience}).(*flowv1.DeviceAuthorizationRequest)
					res, err := w.Dev.Authorize(bg, given)
					c.Step()
					fx.WantOK(c, "start", err, res.GetError())
					fx.Spoil(given.ProtoReflect()) // the caller reuses its object
					if res.DeviceCode == "" || res.UserCode == "" || res.ExpiresIn == 0 || res.DeviceCode == res.UserCode {
						c.Fatalf("incomplete device response %v", res)
					}
					if res.Issuer != k.issuer {
						c.Fatalf("device response of issuer %q, not %q", res.Issuer, k.issuer)
					}
					k.device, k.user, k.expires = res.DeviceCode, res.UserCode, time.Now().Add(time.Duration(res.ExpiresIn)*time.Second)
					for _, o := range all {
						if o.device == k.device || (o.user == k.user && live(o)) {
							c.Fatalf("device or user code issued twice")
						}
					}
					all = append(all, k)
					log = append(log, "start "+k.client)
				},
				"start_refused": func(t *rapid.T) {
					id := fx.Pick(t, "client", "no-grant", "unknown", "", "dev-oneX")
					res, err := w.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: id})
					fx.WantRefusal(c, "start for "+id, err, res.GetError())
					if res.DeviceCode != "" || res.UserCode != "" {
						c.Fatalf("codes in a refusal: %v", res)
					}
					log = append(log, "start_refused")
				},
				"approve": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					k := pick(t)
					if !clear(k) {
						return
					}
					sub := fx.Pick(t, "sub", "alice", "bob", "carol é", "dev-one", " alice", "alice ", "bob\t", "Alice", "a  b")
					log = append(log, "approve")
					res, err := approve(k.issuer, k.user, sub)
					if !live(k) || k.approved {
						fx.WantRefusal(c, "approve again or late", err, res.Error)
						c.Hit("refused approval used=%v", k.approved)
						refusals++
						return
					}
					fx.WantOK(c, "approve", err, res.Error)
					k.approved, k.subject = true, sub
					approvals++
				},
				"approve_wrong": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					k := pick(t)
					iss, user, sub := k.issuer, k.user, "mallory"
					kind := fx.Pick(t, "wrong", "issuer", "known_issuer", "code", "device_code", "blank_subject", "blank")
					switch kind {
					case "issuer":
						iss = fx.OtherIssuer(t, "oi", k.issuer)
					case "known_issuer":
						iss = issuers[0]
						if iss == k.issuer {
							iss = issuers[1]
						}
					case "code":
						user = fx.Mutate(t, "uc", k.user)
					case "device_code":
						user = k.device
					case "blank_subject":
						sub = ""
					case "blank":
						user = ""
					}
					for _, o := range all {
						if o.issuer == iss && o.user == user && kind != "blank_subject" {
							return
						}
					}
					log = append(log, "approve_wrong "+kind)
					res, err := approve(iss, user, sub)
					fx.WantRefusal(c, "approve with wrong "+kind, err, res.Error)
					c.Hit("wrong approval %s", kind)
					refusals++
				},
				"poll": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					k := pick(t)
					if !clear(k) {
						return
					}
					log = append(log, "poll")
					noise := &flowv1.TokenRequest{}
					if fx.Chance(t, "noise", 2) {
						noise.Scope, noise.Audience = fx.Ref("openid offline_access admin"), fx.Ref("https://other.example")
						noise.Resource = []string{"urn:other"}
					}
					poll(k, noise)
				},
				"poll_wrong": func(t *rapid.T) {
					if len(all) == 0 {
						t.Skip("none")
					}
					k := pick(t)
					iss, client, code := k.issuer, k.client, k.device
					kind := fx.Pick(t, "wrong", "client", "client", "issuer", "known_issuer", "code", "user_code", "nogrant", "blank")
					switch kind {
					case "client":
						client = fx.Pick(t, "as", ids...)
						if client == k.client {
							client = ids[(slices.Index(ids, k.client)+1)%3]
						}
					case "issuer":
						iss = fx.OtherIssuer(t, "oi", k.issuer)
					case "known_issuer":
						iss = issuers[0]
						if iss == k.issuer {
							iss = issuers[1]
						}
					case "code":
						code = fx.Mutate(t, "dc", k.device)
					case "user_code":
						code = k.user
					case "nogrant":
						client = "no-grant"
					case "blank":
						code = ""
					}
					log = append(log, "poll_wrong "+kind)
					c.Step()
					res, err := w.Poll(iss, client, code)
					fx.WantTokenRefusal(c, "poll with wrong "+kind, res, err)
					c.Hit("wrong poll %s approved=%v", kind, k.approved)
					refusals++
				},
				"advance": func(t *rapid.T) {
					d := time.Duration(fx.Pick(t, "ms", 1500, 10500, 40500, 60500, 90500, 117500, 122500)) * time.Millisecond
					if len(all) > 0 && fx.Int(t, "end", 0, 1) == 1 {
						d = fx.NearEnd(t, "near", pick(t).expires)
					}
					time.Sleep(d)
					log = append(log, "advance "+d.String())
				},
			})
			// the refusals changed nothing: everything still ends as modelled
			for _, id := range ids {
				w.Clients.Put(registered[id])
			}
			lost = map[string]bool{}
			for i, k := range all {
				if !clear(k) {
					continue
				}
				if live(k) && !k.approved && i%2 == 0 {
					res, err := approve(k.issuer, k.user, "final")
					fx.WantOK(c, "final approve", err, res.Error)
					k.approved, k.subject = true, "final"
				}
				poll(k, &flowv1.TokenRequest{})
			}
		})
		if approvals > 0 && tokens > 0 && refusals > 0 {
			c.NonTrivial("%s", strings.Join(log, ", "))
		}
	})
}
