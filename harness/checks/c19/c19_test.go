package c19

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"
	"time"

	cbor "github.com/fxamacker/cbor/v2"
	"go.mozilla.org/cose"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/sdk/token/cwt"
	"zntr.io/solid/sdk/token/jwt"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

// recorder is a serializer which keeps what it was given.
type recorder struct {
	calls int
	json  fx.Map
	cbor  map[any]any
	err   error
}

func (r *recorder) Serialize(_ context.Context, claims any) (string, error) {
	r.calls++
	b, err := json.Marshal(claims)
	if err != nil {
		return "", err
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&r.json); err != nil {
		return "", err
	}
	if b, err = cbor.Marshal(claims); err != nil {
		return "", err
	}
	if err := cbor.Unmarshal(b, &r.cbor); err != nil {
		return "", err
	}
	return "serialized", r.err
}

func (r *recorder) ContentType() string { return "REC" }

const (
	access = iota
	refresh
	assertion
)

var names = []string{"access token", "refresh token", "client assertion"}

func build(kind int, s token.Serializer) token.Generator {
	switch kind {
	case access:
		return token.AccessToken(s)
	case refresh:
		return token.RefreshToken(s)
	default:
		return token.ClientAssertion(s)
	}
}

var life = []uint64{7200, 14 * 24 * 3600, 7200}

var (
	urls    = []string{"https://op.example", "https://op.example:8443/tenant/1", "http://127.0.0.1:8080", "https://as.example/token?x=1"}
	notURLs = []string{"not a url", "https://", "://x", "http://exa mple.com", "localhost only", "https://.example"}
	ascii   = rapid.StringOfN(rapid.RuneFrom([]rune(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCXYZ[\\]^_`abcxyz{|}~")), 1, 24, -1)
	unprint = []string{"é", "a\x00b", "tab\t", "line\n", "\x7f", "日本", "a\u00a0b"}
)

// drawTime draws a time around the given reference points.
func drawTime(t *rapid.T, label string, refs ...uint64) uint64 {
	if fx.Chance(t, label+"_wild", 12) {
		return fx.Pick[uint64](t, label+"_wildv", 0, 1, math.MaxInt64, math.MaxUint64, 1<<32, 1<<63)
	}
	ref := fx.Pick(t, label+"_ref", refs...)
	d := fx.Pick(t, label+"_d", 0, 0, 0, 1, -1, 2, -2, 60, -60)
	if d < 0 && ref < uint64(-d) {
		return ref
	}
	return ref + uint64(d)
}

// drawToken draws a token which the generator accepts, then maybe deviates.
func drawToken(t *rapid.T, kind int, now uint64) (*tokenv1.Token, bool, string) {
	issued := now - uint64(fx.Int(t, "age", 0, 3*86400))
	exp := issued + uint64(fx.Int(t, "life", 0, int(life[kind])))
	m := &tokenv1.TokenMeta{
		Issuer: fx.Pick(t, "iss", urls...), Subject: ascii.Draw(t, "sub"), Audience: ascii.Draw(t, "aud"),
		ClientId: ascii.Draw(t, "client"), Scope: ascii.Draw(t, "scope"),
		IssuedAt: issued, ExpiresAt: exp, NotBefore: issued + uint64(fx.Int(t, "nbf", 0, int(exp-issued))),
	}
	if kind == assertion {
		m.Issuer = ascii.Draw(t, "client_iss")
		m.Subject = m.Issuer
		m.Audience = fx.Pick(t, "aud_url", urls...)
		if fx.Chance(t, "bare", 2) { // the unused fields may be absent
			m.ClientId, m.Scope, m.NotBefore = "", "", 0
		}
	}
	tok := &tokenv1.Token{
		TokenId: rapid.StringN(1, 12, -1).Draw(t, "id"), Metadata: m, Confirmation: fx.Confirmation(t, "cnf"),
		TokenType: tokenv1.TokenType(fx.Int(t, "type", 0, 6)), Status: tokenv1.TokenStatus(fx.Int(t, "status", 0, 6)),
		Value: fx.Pick(t, "value", "", "clear"),
	}
	ok, how := true, "genuine"
	if fx.Chance(t, "genuine", 4) {
		return tok, true, how
	}
	mandatory := []string{"id", "iss", "sub", "aud", "client", "scope", "iat", "nbf", "exp"}
	strs := []*string{&m.Issuer, &m.Subject, &m.Audience, &m.ClientId, &m.Scope}
	sname := []string{"iss", "sub", "aud", "client", "scope"}
	if kind == assertion {
		mandatory = []string{"id", "iss", "sub", "aud", "iat", "exp"}
		strs, sname = strs[:3], sname[:3]
	}
	switch fx.Int(t, "deviation", 0, 5) {
	case 0:
		how = "no " + fx.Pick(t, "missing", mandatory...)
		ok = false
		switch how {
		case "no id":
			tok.TokenId = ""
		case "no iss":
			m.Issuer = ""
		case "no sub":
			m.Subject = ""
		case "no aud":
			m.Audience = ""
		case "no client":
			m.ClientId = ""
		case "no scope":
			m.Scope = ""
		case "no iat":
			m.IssuedAt = 0
		case "no nbf":
			m.NotBefore = 0
		case "no exp":
			m.ExpiresAt = 0
		}
	case 1:
		tok.Metadata, ok, how = nil, false, "no metadata"
	case 2: // malformed field
		i := fx.Int(t, "field", 0, len(strs)-1)
		ok, how = false, "malformed "+sname[i]
		if isURL := (i == 0 && kind != assertion) || (i == 2 && kind == assertion); isURL {
			*strs[i] = fx.Pick(t, "badurl", notURLs...)
		} else {
			*strs[i] = fx.Pick(t, "unprintable", unprint...) + "x"
			if kind == assertion { // stay equal, so that only the characters matter
				m.Issuer = *strs[i]
				m.Subject = m.Issuer
			}
		}
	case 3: // assertion naming two parties
		if kind == assertion {
			m.Subject = fx.Mutate(t, "sub2", m.Subject)
			if m.Subject == m.Issuer {
				m.Subject += "x"
			}
			ok, how = false, "iss is not sub"
		}
	default:
		m.IssuedAt = drawTime(t, "iat", now, now, issued)
		m.ExpiresAt = drawTime(t, "exp", m.IssuedAt, m.IssuedAt+life[kind], m.IssuedAt+life[kind], exp)
		m.NotBefore = drawTime(t, "nbft", m.IssuedAt, m.ExpiresAt, m.NotBefore)
		how = "drawn times"
		ok = m.IssuedAt > 0 && m.IssuedAt <= now && m.ExpiresAt > 0 && m.ExpiresAt >= m.IssuedAt && m.ExpiresAt-m.IssuedAt <= life[kind]
		if kind != assertion {
			ok = ok && m.NotBefore > 0 && m.NotBefore >= m.IssuedAt && m.NotBefore <= m.ExpiresAt
		}
	}
	return tok, ok, how
}

// want is what a token's claims are, by JSON name.
func want(kind int, t *tokenv1.Token) fx.Map {
	w := fx.Map{"iss": t.Metadata.Issuer, "sub": t.Metadata.Subject, "aud": t.Metadata.Audience, "jti": t.TokenId}
	num := func(n string, v uint64) {
		if v != 0 {
			w[n] = json.Number(fmt.Sprint(v))
		}
	}
	num("exp", t.Metadata.ExpiresAt)
	num("nbf", t.Metadata.NotBefore)
	num("iat", t.Metadata.IssuedAt)
	if kind != assertion {
		w["client_id"], w["scope"] = t.Metadata.ClientId, t.Metadata.Scope
	}
	if kind == access && t.Confirmation != nil {
		w["cnf"] = fx.Map{"jkt": t.Confirmation.Jkt}
	}
	return w
}

var cborKey = map[string]uint64{"iss": 1, "sub": 2, "aud": 3, "exp": 4, "nbf": 5, "iat": 6, "jti": 7, "client_id": 100, "scope": 101, "cnf": 102}

func toCBOR(w fx.Map) map[any]any {
	out := map[any]any{}
	for k, v := range w {
		switch x := v.(type) {
		case json.Number:
			var n uint64
			fmt.Sscan(x.String(), &n)
			out[cborKey[k]] = n
		case fx.Map:
			out[cborKey[k]] = map[any]any{"jkt": x["jkt"]}
		default:
			out[cborKey[k]] = v
		}
	}
	return out
}

type stubEncrypter struct {
	typ, tok string
	aad      []byte
	err      error
}

func (e *stubEncrypter) Encrypt(_ context.Context, typ, tok string, aad []byte) (string, error) {
	e.typ, e.tok, e.aad = typ, tok, aad
	return "sealed(" + tok + ")", e.err
}

func TestC19(t *testing.T) {
	s := hx.New(t, "C19", "tokens of the three generators, valid or with a drawn deviation (a missing or malformed field, no metadata, two parties, times drawn around now, the issue time and the lifetime limits, and extreme times), on a fake clock at drawn sub-second times: accepted exactly when the oracle accepts, with exactly the metadata as JSON and CBOR claims, through a recording serializer, the real JWT and CWT signers and the encrypting wrapper; introspection assertions over drawn statuses and times. Non-trivial: every decision, identified by generator, deviation and times.")

	s.Prop("generate", 12000, func(c *hx.Case) {
		kind := fx.Int(c.T, "kind", 0, 2)
		skew := time.Duration(fx.Int(c.T, "skew", 0, 1_999_999_999))
		fail := fx.Chance(c.T, "fail", 25)
		now := uint64(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(skew).Unix())
		tok, ok, how := drawToken(c.T, kind, now)
		c.Bubble(func() {
			time.Sleep(skew)
			before := proto.Clone(tok)
			r := &recorder{}
			if fail {
				r.err = errors.New("no signature today")
			}
			got, err := build(kind, r).Generate(bg, tok)
			if !proto.Equal(before, tok) {
				c.Fatalf("the %s generator changed the token: %v, was %v", names[kind], tok, before)
			}
			what := fmt.Sprintf("%s (%s): %v, now %d", names[kind], how, tok, now)
			switch {
			case fail || !ok:
				if err == nil || got != "" || (!ok && r.calls > 0) {
					c.Fatalf("%s: %q, %v, serialized %v", what, got, err, r.json)
				}
			case err != nil || got != "serialized":
				c.Fatalf("%s: %q, %v", what, got, err)
			default:
				w := want(kind, tok)
				if !reflect.DeepEqual(r.json, w) {
					c.Fatalf("%s: JSON claims %v, want %v", what, r.json, w)
				}
				if wc := toCBOR(w); !reflect.DeepEqual(r.cbor, wc) {
					c.Fatalf("%s: CBOR claims %v, want %v", what, r.cbor, wc)
				}
			}
		})
		c.Hit("%s %v %s", names[kind], ok && !fail, how)
		if m := tok.Metadata; m != nil {
			c.NonTrivial("%s %v %s %d %d %d %d", names[kind], ok, how, now, m.IssuedAt, m.NotBefore, m.ExpiresAt)
		}
	})

	s.Prop("real_signers", 400, func(c *hx.Case) {
		kind := fx.Int(c.T, "kind", 0, 2)
		now := uint64(time.Now().Unix())
		tok, ok, how := drawToken(c.T, kind, now-10)
		if ok && tok.Metadata.ExpiresAt == 0 {
			ok = false
		}
		k := fx.GetKey(fx.CheapAlgs[0], 0)
		var ser token.Serializer
		form := fx.Pick(c.T, "form", "jwt", "cwt", "sealed")
		enc := &stubEncrypter{}
		switch form {
		case "cwt":
			ser = cwt.AccessTokenSigner(cose.ES256, fx.Provider(k.JWK("k")))
		default:
			ser = jwt.AccessTokenSigner(k.Alg, fx.Provider(k.JWK("k")))
			if form == "sealed" {
				if fx.Chance(c.T, "encfail", 5) {
					enc.err = errors.New("no encryption today")
				}
				inner := ser
				ser = token.Encryption(inner, enc)
				if ser.ContentType() != "HYBRID" || inner.ContentType() != "JWT" {
					c.Fatalf("content types %q, %q", ser.ContentType(), inner.ContentType())
				}
			}
		}
		got, err := build(kind, ser).Generate(bg, tok)
		if !ok && how == "drawn times" && tok.Metadata.IssuedAt <= now && tok.Metadata.IssuedAt > now-10 {
			return // between the reference time of the drawing and now
		}
		what := fmt.Sprintf("%s %s (%s): %v", form, names[kind], how, tok)
		if !ok || enc.err != nil {
			if err == nil || got != "" {
				c.Fatalf("%s: %q", what, got)
			}
			return
		}
		if err != nil {
			c.Fatalf("%s: %v", what, err)
		}
		w := want(kind, tok)
		switch form {
		case "sealed":
			if got != "sealed("+enc.tok+")" || enc.typ != "JWT" || string(enc.aad) != "urn:solid:token:sign-and-encrypt" {
				c.Fatalf("%s: %q, encrypted %q %q %q", what, got, enc.typ, enc.tok, enc.aad)
			}
			got = enc.tok
			fallthrough
		case "jwt":
			if p := fx.Payload(got); !reflect.DeepEqual(p, fx.AsMap(w)) {
				c.Fatalf("%s: payload %v, want %v", what, p, w)
			}
			var claims fx.Map
			if err := jwt.DefaultVerifier(fx.SetProvider(k.PubJWK("k")), fx.SigAlgs).Claims(bg, got, &claims); err != nil {
				c.Fatalf("%s: does not verify: %v", what, err)
			}
		case "cwt":
			var tag cbor.RawTag
			var msg []any
			if err := cbor.Unmarshal(fx.UnB64(got), &tag); err != nil || cbor.Unmarshal(tag.Content, &msg) != nil || len(msg) != 4 {
				c.Fatalf("%s: not a COSE message: %q", what, got)
			}
			var p map[any]any
			if err := cbor.Unmarshal(msg[2].([]byte), &p); err != nil || !reflect.DeepEqual(p, toCBOR(w)) {
				c.Fatalf("%s: payload %v (%v), want %v", what, p, err, toCBOR(w))
			}
		}
		c.Hit("real %s", form)
		c.NonTrivial("%s", what)
	})

	s.Prop("introspection", 6000, func(c *hx.Case) {
		skew := time.Duration(fx.Int(c.T, "skew", 0, 1_999_999_999))
		now := uint64(time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC).Add(skew).Unix())
		m := &tokenv1.TokenMeta{
			Issuer: fx.Pick(c.T, "iss", urls...), Subject: ascii.Draw(c.T, "sub"), Audience: fx.Pick(c.T, "aud", "", "api"),
			ClientId: ascii.Draw(c.T, "client"), Scope: fx.Pick(c.T, "scope", "", "a b"),
			IssuedAt:  drawTime(c.T, "iat", now, now-100),
			NotBefore: drawTime(c.T, "nbf", now, now, now-100), ExpiresAt: drawTime(c.T, "exp", now, now, now+100),
		}
		status := tokenv1.TokenStatus(fx.Int(c.T, "status", 0, 6))
		if fx.Chance(c.T, "likely", 2) {
			status = tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
		}
		tok := &tokenv1.Token{
			TokenId: fx.Pick(c.T, "id", "id1", "é"), Metadata: m, Status: status, Confirmation: fx.Confirmation(c.T, "cnf"),
			TokenType: tokenv1.TokenType(fx.Int(c.T, "type", 0, 6)), Value: "clear value",
		}
		before := fx.Int(c.T, "before", 0, 2)
		c.Bubble(func() {
			time.Sleep(skew)
			active := status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && m.NotBefore <= now && now <= m.ExpiresAt
			if got := token.IsUsable(tok); got != (m.NotBefore <= now && now <= m.ExpiresAt) {
				c.Fatalf("IsUsable = %v: %v, now %d", got, tok, now)
			}
			r := &recorder{}
			gen := token.Introspection(r)
			if before > 0 { // the generator served other tokens
				o := proto.Clone(tok).(*tokenv1.Token)
				o.TokenId, o.Status = "other", tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
				o.Metadata = &tokenv1.TokenMeta{Issuer: "https://other.example", Subject: "other", ClientId: "other", IssuedAt: now - 5, NotBefore: now - 5, ExpiresAt: now + 50}
				if before == 2 {
					o.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
				}
				if _, err := gen.Generate(bg, o); err != nil {
					c.Fatalf("%v: %v", o, err)
				}
				*r = recorder{}
			}
			raw, err := gen.Generate(bg, tok)
			if err != nil || raw != "serialized" {
				c.Fatalf("%v: %q, %v", tok, raw, err)
			}
			ti := fx.Map{"active": active}
			if active {
				num := func(v uint64) json.Number { return json.Number(fmt.Sprint(v)) }
				ti = fx.Map{"active": true, "iss": m.Issuer, "aud": m.Audience, "iat": num(m.IssuedAt), "exp": num(m.ExpiresAt), "client_id": m.ClientId, "scope": m.Scope, "sub": m.Subject, "jti": tok.TokenId}
			}
			w := fx.Map{"iss": m.Issuer, "iat": json.Number(fmt.Sprint(now)), "token_introspection": ti}
			if !reflect.DeepEqual(r.json, w) {
				c.Fatalf("%v at %d: assertion %v, want %v", tok, now, r.json, w)
			}
			c.Hit("introspection %v", active)
			c.NonTrivial("introspection %v status=%v now=%d nbf=%d exp=%d", active, status, now, m.NotBefore, m.ExpiresAt)
		})
	})

	s.Direct("absent_inputs", func(t *testing.T) int {
		n := 0
		good := &tokenv1.Token{TokenId: "id", Metadata: &tokenv1.TokenMeta{Issuer: urls[0], Subject: urls[0], Audience: urls[0], ClientId: "c", Scope: "s", IssuedAt: 1, NotBefore: 1, ExpiresAt: 2}}
		var nilRec *recorder
		gens := []func(token.Serializer) token.Generator{token.AccessToken, token.RefreshToken, token.ClientAssertion, token.Introspection}
		for i, g := range gens {
			for j, tok := range []*tokenv1.Token{nil, {}, {TokenId: "id"}, good} {
				for k, ser := range []token.Serializer{nil, nilRec, &recorder{}, token.Encryption(nil, &stubEncrypter{}), token.Encryption(&recorder{}, nil), token.Encryption(nilRec, (*stubEncrypter)(nil))} {
					n++
					got, err := g(ser).Generate(bg, tok)
					if ok := j == 3 && k == 2; ok != (err == nil) || ok != (got != "") {
						t.Fatalf("generator %d, token %v, serializer %d: %q, %v", i, tok, k, got, err)
					}
				}
			}
		}
		return n
	})
}
