package c10

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"testing"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage/inmemory"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

// name is an issuer and an identifier under it.
type name struct{ iss, id string }

// colliding draws two names with different issuers whose parts, joined by some
// separator, give the same text.
func colliding(t *rapid.T, urls bool) (a, b name, how string) {
	sep := fx.Pick(t, "sep", "", ":", "/", "|", "\x00", "#", ".", "-", "::", "_", ",", "\n")
	k := fx.Int(t, "parts", 3, 6)
	parts := make([]string, k)
	long := !urls && fx.Chance(t, "congruent", 4) // lengths which agree modulo a power of two
	for i := range parts {
		if long && i > 0 {
			if n := fx.Pick(t, "size", 0, 255, 256, 256-len(sep), 512-len(sep), 65536-len(sep)); n > 0 {
				parts[i] = strings.Repeat(fx.Pick(t, "fill", "a", "b"), n)
				continue
			}
		}
		parts[i] = fx.Str(t, "part", fx.Pick(t, "abc", "ab", fx.Alnum, "ab:/|.", "0123456789:"), 0, 12)
	}
	if urls {
		if strings.ContainsAny(sep, "\x00\n") {
			sep = ":"
		}
		parts[0] = "https://as.example.com/" + parts[0]
	}
	i := fx.Int(t, "cut1", 1, k-2)
	j := fx.Int(t, "cut2", i+1, k-1)
	a = name{strings.Join(parts[:i], sep), strings.Join(parts[i:], sep)}
	b = name{strings.Join(parts[:j], sep), strings.Join(parts[j:], sep)}
	if rapid.Bool().Draw(t, "swap") {
		a, b = b, a
	}
	how = fmt.Sprintf("joined by %q", sep)
	return
}

// names draws two names with different issuers.
func names(t *rapid.T, urls bool) (a, b name, how string) {
	switch fx.Int(t, "naming", 0, 4) {
	case 4: // the length of an identifier, before it, in the issuer or in the identifier
		iss, x, id := fx.Issuer(t, "iss"), fx.Str(t, "x", fx.Alnum, 1, 9), fx.Str(t, "id", fx.Alnum, 1, 12)
		sep := fx.Pick(t, "sep", ":", "/", "|", ",", ".")
		tail := fmt.Sprintf("%d%s%s", len(id), sep, id)
		if rapid.Bool().Draw(t, "length_first") { // issuer, length of the identifier, identifier
			long := x + sep + tail
			a, b, how = name{iss, long}, name{fmt.Sprintf("%s%s%d%s%s", iss, sep, len(long), sep, x), id}, "length of the identifier"
		} else {
			a, b, how = name{iss, x + sep + tail}, name{iss + sep + x, id}, "length in the identifier"
		}
	case 3: // long ones, of the same length, which differ late or early
		iss := "https://as.example.com/" + strings.Repeat(fx.Str(t, "seg", fx.Alnum, 1, 9)+"/", fx.Int(t, "segs", 1, 60))
		at := fx.Int(t, "at", len("https://a"), len(iss)-1)
		if rapid.Bool().Draw(t, "late") {
			at = len(iss) - 1
		}
		other := iss[:at] + fx.Pick(t, "sub", "x", "y", "Z") + iss[at+1:]
		id := fx.Str(t, "id", fx.Alnum, 1, 32)
		if n := fx.Pick(t, "idlen", 0, 64, 128, 300); n > 0 {
			id = strings.Repeat("i", n) + id
		}
		a, b, how = name{iss, id}, name{other, id}, "long"
	case 0:
		a, b, how = colliding(t, urls)
	case 1:
		iss := fx.Issuer(t, "iss")
		id := fx.Str(t, "id", fx.Alnum, 1, 32)
		a, b, how = name{iss, id}, name{fx.OtherIssuer(t, "iss2", iss), id}, "same id"
		if !urls && rapid.Bool().Draw(t, "shorter") {
			b.iss = iss[:fx.Int(t, "upto", 1, len(iss)-1)]
		}
	default: // the length prefix or whole key of one in the other
		iss := fx.Issuer(t, "iss")
		id := fx.Str(t, "id", fx.Alnum, 1, 12)
		other := fx.OtherIssuer(t, "iss2", iss)
		a = name{iss, id}
		b = name{other, fx.Pick(t, "embed", fmt.Sprintf("%d:%s:%s", len(iss), iss, id), iss+":"+id, iss+id, id+":"+iss, other+id, "")}
		how = "embedded"
	}
	if a.iss == b.iss || a.iss == "" || b.iss == "" || a.id == "" || b.id == "" || (urls && (!fx.ValidIssuer(a.iss) || !fx.ValidIssuer(b.iss))) {
		a, b, how = name{"https://as.example.com", "x" + a.id}, name{"https://as.example.comx", a.id + "x"}, "prefix"
	}
	return
}

// kind is a store of things with an identifier.
type kind struct {
	name string
	put  func(n name, tag string) error
	get  func(n name) (string, error) // the tag
	del  func(n name) error
	rev  func(n name) error
	stat func(n name) tokenv1.TokenStatus
}

func kinds() []kind {
	reqs, codes, devs, toks, devs2, toks2 := inmemory.AuthorizationRequests(), inmemory.AuthorizationCodeSessions(), inmemory.DeviceCodeSessions(), inmemory.Tokens(), inmemory.DeviceCodeSessions(), inmemory.Tokens()
	tagOf := func(t *tokenv1.Token, err error) (string, error) {
		if err != nil {
			return "", err
		}
		return t.GetMetadata().GetSubject(), nil
	}
	return []kind{
		{"request", func(n name, tag string) error {
			_, err := reqs.Register(bg, n.iss, n.id, &flowv1.AuthorizationRequest{State: tag})
			return err
		}, func(n name) (string, error) { r, err := reqs.Get(bg, n.iss, n.id); return r.GetState(), err },
			func(n name) error { return reqs.Delete(bg, n.iss, n.id) }, nil, nil},
		{"code", func(n name, tag string) error {
			_, err := codes.Register(bg, n.iss, n.id, &sessionv1.AuthorizationCodeSession{Subject: tag, Request: &flowv1.AuthorizationRequest{}})
			return err
		}, func(n name) (string, error) { r, err := codes.Get(bg, n.iss, n.id); return r.GetSubject(), err },
			func(n name) error { return codes.Delete(bg, n.iss, n.id) }, nil, nil},
		{"user code", func(n name, tag string) error {
			_, err := devs.Register(bg, n.iss, n.id, &sessionv1.DeviceCodeSession{Scope: &tag, DeviceCode: "dc" + n.id, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING})
			return err
		}, func(n name) (string, error) { r, err := devs.GetByUserCode(bg, n.iss, n.id); return r.GetScope(), err },
			func(n name) error { return devs.Delete(bg, n.iss, n.id) },
			func(n name) error {
				return devs.Validate(bg, n.iss, n.id, &sessionv1.DeviceCodeSession{Scope: fx.Ref("stolen"), DeviceCode: "dc" + n.id, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED})
			}, nil},
		{"device code", func(n name, tag string) error {
			_, err := devs2.Register(bg, n.iss, "uc"+n.id, &sessionv1.DeviceCodeSession{Scope: &tag, DeviceCode: n.id, Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING})
			return err
		}, func(n name) (string, error) {
			r, err := devs2.GetByDeviceCode(bg, n.iss, n.id)
			return r.GetScope(), err
		}, nil, nil, nil},
		{"token id", func(n name, tag string) error {
			return toks.Create(bg, n.iss, &tokenv1.Token{TokenId: n.id, Value: "v" + n.id, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Subject: tag}})
		}, func(n name) (string, error) { return tagOf(toks.Get(bg, n.iss, n.id)) },
			func(n name) error { return toks.Delete(bg, n.iss, n.id) },
			func(n name) error { return toks.Revoke(bg, n.iss, n.id) },
			func(n name) tokenv1.TokenStatus { t, _ := toks.GetByValue(bg, n.iss, "v"+n.id); return t.GetStatus() }},
		{"token value", func(n name, tag string) error {
			return toks2.Create(bg, n.iss, &tokenv1.Token{TokenId: "i" + n.id, Value: n.id, Status: tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, Metadata: &tokenv1.TokenMeta{Subject: tag}})
		}, func(n name) (string, error) { return tagOf(toks2.GetByValue(bg, n.iss, n.id)) },
			func(n name) error { return toks2.Delete(bg, n.iss, "i"+n.id) },
			func(n name) error { return toks2.Revoke(bg, n.iss, "i"+n.id) },
			func(n name) tokenv1.TokenStatus { t, _ := toks2.Get(bg, n.iss, "i"+n.id); return t.GetStatus() }},
	}
}

func TestC10(t *testing.T) {
	s := hx.New(t, "C10", "rapid: (1) pairs of (issuer, identifier) with different issuers, crafted so that their concatenation with any of 12 separators agrees, equal ids, embedded keys, letter case and prefix variants, on every in-memory store: what is stored under one is not found, deleted, revoked or validated through the other, and both coexist; (2) complete services with generators that return such identifiers: every credential of one issuer is refused at the other and still works at home. Non-trivial: every pair (issuers always differ); identified by the names.",
		"DPoP proofs and clients have no issuer and are not covered here")

	s.Prop("stores", 20000, func(c *hx.Case) {
		all := kinds()
		k := all[fx.Int(c.T, "kind", 0, len(all)-1)]
		a, b, how := names(c.T, false)
		if a.iss == b.iss {
			c.Fatalf("HARNESS-ERROR: same issuer")
		}
		c.NonTrivial("%s %q %q", k.name, a, b)
		c.Hit("%s: %s", k.name, how)
		want := func(n name, tag string) {
			got, err := k.get(n)
			if err != nil || got != tag {
				c.Fatalf("%s: entry %q under %q lost or replaced (got %q, %v), other name %q", k.name, n.id, n.iss, got, err, b)
			}
		}
		if err := k.put(a, "A"); err != nil {
			c.Fatalf("%s: register: %v", k.name, err)
		}
		if got, err := k.get(b); err == nil {
			c.Fatalf("%s: entry of issuer %q id %q found as %q of issuer %q (%s)", k.name, a.iss, a.id, b.id, b.iss, got)
		}
		if k.rev != nil {
			if err := k.rev(b); err == nil {
				c.Fatalf("%s: revoke or validate through another issuer reports success", k.name)
			}
			want(a, "A")
		}
		if k.del != nil {
			_ = k.del(b)
			want(a, "A")
		}
		if err := k.put(b, "B"); err != nil {
			c.Fatalf("%s: register: %v", k.name, err)
		}
		want(a, "A")
		want(b, "B")
		if k.rev != nil && k.name != "user code" {
			if err := k.rev(b); err != nil {
				c.Fatalf("%s: revoke: %v", k.name, err)
			}
			want(b, "B")
			if st := status(k, a); st != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && st >= 0 {
				c.Fatalf("%s: revoked through another issuer", k.name)
			}
		}
		if k.del != nil {
			_ = k.del(b)
			if _, err := k.get(b); err == nil {
				c.Fatalf("%s: not deleted", k.name)
			}
			want(a, "A")
			_ = k.del(a)
		}
	})

	s.Prop("services", 5000, func(c *hx.Case) {
		a, b, how := names(c.T, true)
		red := "https://c.example/cb"
		cl := fx.FullClient("alpha", red)
		w := fx.NewWorld(cl)
		id := map[string]string{a.iss: a.id, b.iss: b.id}
		uri := "urn:solid:" + fx.Str(c.T, "uri", fx.Alnum, 32, 32)
		gen := fx.CodeFn(func(_ context.Context, iss string) (string, error) { return id[iss], nil })
		w.CodeGen, w.UserGen = gen, gen
		w.DevGen = fx.CodeFn(func(_ context.Context, iss string) (string, error) { return "d" + id[iss], nil })
		w.URIGen = fx.URIFn(func(context.Context, string) (string, error) { return uri, nil })
		// token values: the identifier of the issuer, then numbered
		n := 0
		val := func(_ context.Context, tok *tokenv1.Token) (string, error) {
			n++
			return fmt.Sprintf("%s/%d", id[tok.Metadata.Issuer], n), nil
		}
		w.ATGen, w.RTGen = tokFn(val), tokFn(val)
		w.Wire()
		c.NonTrivial("%q %q", a, b)
		c.Hit("%s", how)
		ver := fx.Verifier(c.T, "ver")
		req := func() *flowv1.AuthorizationRequest {
			return &flowv1.AuthorizationRequest{Scope: "openid offline_access read", Prompt: fx.Ref("consent"), ResponseType: "code", ClientId: "alpha", RedirectUri: red, State: strings.Repeat("s", 32), Nonce: "12345678", Audience: "aud", CodeChallenge: fx.Challenge(ver), CodeChallengeMethod: "S256"}
		}
		both := rapid.Bool().Draw(c.T, "both")
		order := []string{a.iss}
		if both {
			order = append(order, b.iss)
		}
		foreign := func(home string) string { // an issuer under which nothing (of this value) exists
			if home == a.iss {
				return b.iss
			}
			return a.iss
		}
		type home struct {
			code, uri, dev, user string
			at, rt               *tokenv1.Token
		}
		h := map[string]*home{}
		authorize := func(iss string, r *flowv1.AuthorizationRequest) string {
			res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "at " + iss, Request: r})
			fx.WantOK(c, "authorize", err, res.GetError())
			return res.Code
		}
		for _, iss := range order {
			x := &home{}
			h[iss] = x
			// tokens first, then fresh credentials of each kind
			x.code = authorize(iss, req())
			res, err := w.Redeem(iss, "alpha", x.code, red, ver, nil)
			fx.WantTokens(c, "redeem", res, err, true)
			x.at, x.rt = proto.Clone(res.AccessToken).(*tokenv1.Token), proto.Clone(res.RefreshToken).(*tokenv1.Token)
			x.code = authorize(iss, req())
			p, err := w.Authz.Register(bg, &flowv1.RegistrationRequest{Issuer: iss, Client: cl, Request: req()})
			fx.WantOK(c, "push", err, p.GetError())
			x.uri = p.RequestUri
			d, err := w.Dev.Authorize(bg, &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: "alpha", Scope: fx.Ref("read")})
			fx.WantOK(c, "device", err, d.GetError())
			x.dev, x.user = d.DeviceCode, d.UserCode
		}
		// foreign uses, in any order
		for _, iss := range order {
			x, f := h[iss], foreign(iss)
			exists := func(v string) bool { // a different entity with the same text lives at f
				return h[f] != nil && (v == h[f].code || v == h[f].dev || v == h[f].user)
			}
			ops := []func(){
				func() {
					if exists(x.code) {
						return
					}
					res, err := w.Redeem(f, "alpha", x.code, red, ver, nil)
					fx.WantTokenRefusal(c, "redeem at another issuer", res, err)
				},
				func() {
					if h[f] != nil { // same uri at both
						return
					}
					res, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: f, Subject: "s", Request: &flowv1.AuthorizationRequest{ClientId: "alpha", RequestUri: &x.uri}})
					fx.WantRefusal(c, "request_uri at another issuer", err, res.GetError())
				},
				func() {
					if exists(x.dev) {
						return
					}
					res, err := w.Poll(f, "alpha", x.dev)
					fx.WantTokenRefusal(c, "poll at another issuer", res, err)
				},
				func() {
					if exists(x.user) {
						return
					}
					res, err := w.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: f, UserCode: x.user, Subject: "thief"})
					fx.WantRefusal(c, "approve at another issuer", err, res.GetError())
				},
				func() {
					res, err := w.Refresh(f, "alpha", x.rt.Value)
					fx.WantTokenRefusal(c, "refresh at another issuer", res, err)
				},
				func() {
					res, err := w.Exchange(f, "alpha", x.at.Value, nil, nil)
					fx.WantTokenRefusal(c, "exchange at another issuer", res, err)
				},
				func() {
					for _, v := range []string{x.at.Value, x.rt.Value} {
						res, err := w.Introspect(f, "alpha", v)
						fx.WantOK(c, "introspect", err, res.GetError())
						if res.Token.GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN || res.Token.GetMetadata() != nil {
							c.Fatalf("token of %q introspected at %q: %v", iss, f, res.Token)
						}
					}
				},
				func() { _, _ = w.Revoke(f, "alpha", x.at.Value); _, _ = w.Revoke(f, "alpha", x.rt.Value) },
			}
			order := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(c.T, "order")
			for _, i := range order {
				ops[i]()
				c.Step()
			}
		}
		// everything still works at home, on its own data
		slices.Reverse(order)
		for _, iss := range order {
			x := h[iss]
			for _, tok := range []*tokenv1.Token{x.at, x.rt} {
				res, err := w.Introspect(iss, "alpha", tok.Value)
				fx.WantOK(c, "introspect", err, res.GetError())
				if res.Token.GetStatus() != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE || res.Token.GetTokenId() != tok.TokenId || !proto.Equal(res.Token.GetMetadata(), tok.Metadata) {
					c.Fatalf("token of %q changed from %q: %v", iss, foreign(iss), res.Token)
				}
			}
			res, err := w.Redeem(iss, "alpha", x.code, red, ver, nil)
			fx.WantTokens(c, "redeem at home", res, err, true)
			if res.AccessToken.Metadata.Subject != "at "+iss || res.AccessToken.Metadata.Issuer != iss {
				c.Fatalf("code of %q yields %v", iss, res.AccessToken)
			}
			ar, err := w.Authz.Authorize(bg, &flowv1.AuthorizeRequest{Issuer: iss, Subject: "s", Request: &flowv1.AuthorizationRequest{ClientId: "alpha", RequestUri: &x.uri}})
			fx.WantOK(c, "request_uri at home", err, ar.GetError())
			dv, err := w.Dev.Validate(bg, &flowv1.DeviceCodeValidationRequest{Issuer: iss, UserCode: x.user, Subject: "user at " + iss})
			fx.WantOK(c, "approve at home", err, dv.GetError())
			pr, err := w.Poll(iss, "alpha", x.dev)
			fx.WantTokens(c, "poll at home", pr, err, false)
			if pr.AccessToken.Metadata.Subject != "user at "+iss {
				c.Fatalf("device code of %q yields %v", iss, pr.AccessToken)
			}
			rr, err := w.Refresh(iss, "alpha", x.rt.Value)
			fx.WantTokens(c, "refresh at home", rr, err, false)
			xr, err := w.Exchange(iss, "alpha", x.at.Value, nil, nil)
			fx.WantTokens(c, "exchange at home", xr, err, false)
			vr, err := w.Revoke(iss, "alpha", x.at.Value)
			fx.WantOK(c, "revoke at home", err, vr.GetError())
		}
	})
}

type tokFn func(context.Context, *tokenv1.Token) (string, error)

func (f tokFn) Generate(ctx context.Context, t *tokenv1.Token) (string, error) { return f(ctx, t) }

// status reads the token status of a name (-1: not a token store).
func status(k kind, n name) tokenv1.TokenStatus {
	if k.stat == nil {
		return -1
	}
	return k.stat(n)
}
