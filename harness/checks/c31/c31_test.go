package c31

import (
	"bytes"
	"context"
	"crypto"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"slices"
	"strings"
	"testing"
	"time"

	jose "github.com/go-jose/go-jose/v4"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	discoveryv1 "zntr.io/solid/api/oidc/discovery/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/client"
	"zntr.io/solid/server/clientauthentication"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

// answer is what the server sends.
type answer struct {
	status int
	body   []byte
	err    error // the exchange fails
	broken bool  // the body ends with a read error
}

func (a answer) String() string {
	b := a.body
	if len(b) > 400 {
		b = b[:400]
	}
	return fmt.Sprintf("%d %q err=%v broken=%v", a.status, b, a.err, a.broken)
}

// server stands in for the network.
type server struct {
	issuer           string
	meta, jwks       answer
	introspect, tokn answer
	requests         []*http.Request
	bodies           []string
	paths            map[string]*answer
}

func newServer(issuer string) *server {
	s := &server{issuer: issuer}
	s.paths = map[string]*answer{
		issuer + "/.well-known/oauth-authorization-server": &s.meta,
		issuer + "/jwks":               &s.jwks,
		issuer + "/introspect":         &s.introspect,
		issuer + "/token?tenant=a%20b": &s.tokn,
	}
	return s
}

type brokenBody struct{ r io.Reader }

func (b brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		return n, errors.New("connection reset")
	}
	return n, err
}

// RoundTrip implements http.RoundTripper.
func (s *server) RoundTrip(r *http.Request) (*http.Response, error) {
	s.requests = append(s.requests, r)
	body := ""
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		body = string(b)
	}
	s.bodies = append(s.bodies, body)
	a, ok := s.paths[r.URL.String()]
	if !ok {
		a = &answer{status: 404, body: []byte(`{"err":"not found"}`)}
	}
	if a.err != nil {
		return nil, a.err
	}
	var rd io.Reader = bytes.NewReader(a.body)
	if a.broken {
		rd = brokenBody{rd}
	}
	return &http.Response{StatusCode: a.status, Status: http.StatusText(a.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(rd), ContentLength: -1, Request: r}, nil
}

// last returns the last request and its form.
func (s *server) last() (*http.Request, url.Values) {
	f, _ := url.ParseQuery(s.bodies[len(s.bodies)-1])
	return s.requests[len(s.requests)-1], f
}

func (s *server) defaults() {
	s.meta = answer{status: 200, body: fx.JSON(fx.Map{"issuer": s.issuer, "jwks_uri": s.issuer + "/jwks", "introspection_endpoint": s.issuer + "/introspect", "token_endpoint": s.issuer + "/token?tenant=a%20b"})}
	s.jwks = answer{status: 200, body: keySet(0, 0)}
	s.introspect = answer{status: 200, body: []byte(`{"active":false}`)}
	s.tokn = answer{status: 200, body: []byte(`{"access_token":"t","token_type":"Bearer"}`)}
}

var algs = []jose.SignatureAlgorithm{jose.ES256, jose.ES384, jose.EdDSA, jose.RS256}

// keySet is a key set document with the keys numbered in the bits of which.
func keySet(which int, exp uint64) []byte {
	if which == 0 {
		which = 1
	}
	keys := []any{}
	for i, a := range algs {
		if which>>i&1 == 1 {
			k := fx.GetKey(a, 0).PubJWK(fmt.Sprintf("k%d", i))
			keys = append(keys, &k)
		}
	}
	m := fx.Map{"keys": keys}
	if exp != 0 {
		m["exp"] = exp
	}
	return fx.JSON(m)
}

// sent returns the thumbprints and ids of the keys in a document.
func sent(doc []byte) []string {
	var m struct {
		Keys []jose.JSONWebKey `json:"keys"`
	}
	if err := json.Unmarshal(doc, &m); err != nil {
		panic("HARNESS-ERROR: " + err.Error())
	}
	return names(m.Keys)
}

func names(keys []jose.JSONWebKey) (out []string) {
	for _, k := range keys {
		th, err := k.Thumbprint(crypto.SHA256)
		if err != nil {
			out = append(out, "invalid "+err.Error())
			continue
		}
		out = append(out, fmt.Sprintf("%x %s %s", th, k.KeyID, k.Algorithm))
	}
	return out
}

var jsonValues = []string{"null", "true", "false", "0", "-1", "1", "1.5", "1e400", `""`, `"x"`, "[]", "{}", `[null]`, `{"a":1}`, `["a","b"]`, "18446744073709551616", `"true"`, `{"jkt":null}`, `{"jkt":1}`, `{"keys":[]}`}

// spoil draws a wrong or odd answer from a right one.
func spoil(t *rapid.T, a answer) (answer, string) {
	how := fx.Pick(t, "spoil", "status", "status body", "transport", "broken", "truncated", "garbage", "empty", "other value", "field", "drop", "extra", "html", "deep", "bytes")
	a.body = bytes.Clone(a.body)
	edit := func(f func(m map[string]json.RawMessage, k string)) {
		m := map[string]json.RawMessage{}
		if err := json.Unmarshal(a.body, &m); err != nil || len(m) == 0 {
			return
		}
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		slices.Sort(keys)
		f(m, fx.Pick(t, "key", keys...))
		a.body, _ = json.Marshal(m)
	}
	switch how {
	case "status":
		a.status = fx.Pick(t, "status", 201, 202, 204, 206, 299, 400, 401, 403, 404, 429, 500, 502, 503, 599)
	case "status body":
		a.status = fx.Pick(t, "status", 400, 401, 403, 404, 500, 503)
		a.body = []byte(fx.Pick(t, "error", `{"err":"invalid_client","error_description":"no"}`, `{"error":"invalid_client"}`, "null", "[]", "", "oops", "{", `{"err":1}`))
	case "transport":
		a.err = errors.New("no route to host")
	case "broken":
		if len(a.body) > 0 {
			a.body = a.body[:fx.Int(t, "at", 0, len(a.body)-1)]
		}
		a.broken = true
	case "truncated":
		if len(a.body) > 0 {
			a.body = a.body[:fx.Int(t, "at", 0, len(a.body)-1)]
		}
	case "garbage":
		a.body = append([]byte(fx.Pick(t, "junk", "x", "\x00", "}", "<", "'", "\xff")), a.body...)
	case "empty":
		a.body = []byte(fx.Pick(t, "blank", "", " ", "\n\n"))
	case "other value":
		a.body = []byte(fx.Pick(t, "value", jsonValues...))
	case "field":
		v := fx.Pick(t, "value", jsonValues...)
		edit(func(m map[string]json.RawMessage, k string) { m[k] = json.RawMessage(v) })
	case "drop":
		edit(func(m map[string]json.RawMessage, k string) { delete(m, k) })
	case "extra":
		v := fx.Pick(t, "value", jsonValues...)
		edit(func(m map[string]json.RawMessage, k string) { m["x_extra"] = json.RawMessage(v) })
	case "html":
		a.body = []byte("<html><body>Bad Gateway</body></html>")
	case "deep":
		a.body = []byte(strings.Repeat(`{"keys":[`, fx.Pick(t, "depth", 10, 1000, 20000)))
	case "bytes":
		if len(a.body) > 0 {
			for n := fx.Int(t, "n", 1, 3); n > 0; n-- {
				a.body[fx.Int(t, "at", 0, len(a.body)-1)] = rapid.Byte().Draw(t, "b")
			}
		}
	}
	return a, how
}

// readable reports whether the answer is a success whose body starts with an
// object, and gives that object.
func readable(a answer) (map[string]json.RawMessage, bool) {
	if a.err != nil || a.status != 200 {
		return nil, false
	}
	var m map[string]json.RawMessage
	if json.NewDecoder(bytes.NewReader(a.body)).Decode(&m) != nil {
		return nil, false
	}
	return m, true
}

func TestC31(t *testing.T) {
	s := hx.New(t, "C31", "the real client over an in-process transport on a fake clock: well-formed server answers with drawn content (which must be reported exactly) and spoilt ones (statuses, transport and read errors, truncated, mistyped, missing or foreign content), for metadata, key sets, introspection and tokens; histories of key-set queries with changing answers, lifetimes and clock advances against a model of the cache; assertions checked at the built-in private_key_jwt processor. Non-trivial: every answered call, identified by method and answer.",
		"an answer with status 200 followed by trailing bytes may or may not be refused", "redirections are not followed in these runs", "field names in other letter cases are not generated")
	defer func(rt http.RoundTripper) { http.DefaultClient.Transport = rt }(http.DefaultClient.Transport)

	connect := func(c *hx.Case, sv *server, o *client.Options) (cl client.Client, err error) {
		http.DefaultClient.Transport = sv
		defer func() {
			if p := recover(); p != nil {
				c.Fatalf("client crashes on metadata %v, keys %v: %v", sv.meta, sv.jwks, p)
			}
		}()
		cl, err = client.HTTP(bg, sv.issuer, o)
		if err == nil && (cl == nil || reflect.ValueOf(cl).IsNil()) {
			c.Fatalf("no client and no error on metadata %v, keys %v", sv.meta, sv.jwks)
		}
		return cl, err
	}
	options := func(t *rapid.T) *client.Options {
		return &client.Options{ClientID: fx.Str(t, "client", fx.Alnum, 1, 8), Audience: fx.Str(t, "audience", fx.Alnum, 0, 8)}
	}
	issuer := func(t *rapid.T) string {
		return fx.Pick(t, "issuer", "https://op.example", "http://127.0.0.1:8080", "https://op.example/tenant")
	}

	s.Prop("metadata", 4000, func(c *hx.Case) {
		sv := newServer(issuer(c.T))
		sv.defaults()
		md := &discoveryv1.ServerMetadata{}
		fx.FillProto(c.T, md.ProtoReflect(), 2, fx.Int(c.T, "density", 1, 6))
		md.JwksUri = sv.issuer + "/jwks"
		if rapid.Bool().Draw(c.T, "plain") {
			// written by hand, in the names of RFC 8414
			list := []string{fx.Str(c.T, "l0", fx.Alnum, 0, 5), fx.Str(c.T, "l1", fx.Alnum, 1, 5)}
			md = &discoveryv1.ServerMetadata{
				Issuer: sv.issuer, JwksUri: sv.issuer + "/jwks", AuthorizationEndpoint: sv.issuer + "/a", TokenEndpoint: sv.issuer + "/t", IntrospectionEndpoint: sv.issuer + "/i", RevocationEndpoint: sv.issuer + "/r",
				ScopesSupported: list, ResponseTypesSupported: list[:1], GrantTypesSupported: list, CodeChallengeMethodsSupported: []string{"S256"},
			}
			sv.meta.body = fx.JSON(fx.Map{
				"issuer": sv.issuer, "jwks_uri": sv.issuer + "/jwks", "authorization_endpoint": sv.issuer + "/a", "token_endpoint": sv.issuer + "/t", "introspection_endpoint": sv.issuer + "/i", "revocation_endpoint": sv.issuer + "/r",
				"scopes_supported": list, "response_types_supported": list[:1], "grant_types_supported": list, "code_challenge_methods_supported": []string{"S256"}, "x_unknown": 1,
			})
		} else {
			b, err := protojson.MarshalOptions{UseProtoNames: true, EmitUnpopulated: rapid.Bool().Draw(c.T, "all")}.Marshal(md)
			if err != nil {
				c.Fatalf("HARNESS-ERROR: %v", err)
			}
			sv.meta.body = b
		}
		which := fx.Int(c.T, "keys", 1, 15)
		sv.jwks.body = keySet(which, 0)
		how := "well-formed"
		if rapid.Bool().Draw(c.T, "spoil meta") {
			sv.meta, how = spoil(c.T, sv.meta)
			how = "metadata " + how
		} else if rapid.Bool().Draw(c.T, "spoil keys") {
			sv.jwks, how = spoil(c.T, sv.jwks)
			how = "keys " + how
		}
		o := options(c.T)
		c.Step()
		cl, err := connect(c, sv, o)
		what := fmt.Sprintf("metadata %v keys %v", sv.meta, sv.jwks)
		switch {
		case how == "well-formed" && err != nil:
			c.Fatalf("client refuses a well-formed server: %v; %s", err, what)
		case err != nil && cl != nil && !reflect.ValueOf(cl).IsNil():
			c.Fatalf("client given together with error %v; %s", err, what)
		case err == nil:
			_, okm := readable(sv.meta)
			mk, okk := readable(sv.jwks)
			if !okm || !okk {
				c.Fatalf("client accepts %s (%s)", what, how)
			}
			var keys []json.RawMessage
			if json.Unmarshal(mk["keys"], &keys) != nil || len(keys) == 0 {
				c.Fatalf("client accepts an answer without keys: %s (%s)", what, how)
			}
			if how == "well-formed" || strings.HasPrefix(how, "keys ") {
				if !proto.Equal(cl.ServerMetadata(), md) {
					c.Fatalf("metadata %v reported as %v", sv.meta, cl.ServerMetadata())
				}
			} else {
				// what is reported was sent
				want := &discoveryv1.ServerMetadata{}
				doc, _ := readable(sv.meta)
				b, _ := json.Marshal(doc)
				if (protojson.UnmarshalOptions{DiscardUnknown: true}).Unmarshal(b, want) == nil && !proto.Equal(cl.ServerMetadata(), want) {
					c.Fatalf("metadata %v reported as %v", sv.meta, cl.ServerMetadata())
				}
			}
			if cl.ClientID() != o.ClientID || cl.Audience() != o.Audience || cl.Issuer() != sv.issuer {
				c.Fatalf("client describes itself as %q %q %q, created as %+v at %q", cl.ClientID(), cl.Audience(), cl.Issuer(), o, sv.issuer)
			}
			if how == "well-formed" {
				got, _, kerr := cl.PublicKeys(bg)
				if kerr != nil || !slices.Equal(names(got.Keys), sent(sv.jwks.body)) {
					c.Fatalf("keys %s reported as %v, %v", sv.jwks.body, got, kerr)
				}
			}
		}
		c.Hit("%s error=%v", how, err != nil)
		c.NonTrivial("%s", what)
	})

	s.Prop("keys", 4000, func(c *hx.Case) {
		sv := newServer(issuer(c.T))
		sv.defaults()
		c.Bubble(func() {
			time.Sleep(time.Duration(fx.Int(c.T, "start", 0, 3000)) * time.Millisecond)
			var log []string
			o := options(c.T)
			var cl client.Client
			cached, cachedExp := []string(nil), uint64(0)
			var keysNow []string
			expNow := uint64(0)
			how := "" // what is wrong with the current answer
			change := func() {
				which := fx.Int(c.T, "keys", 1, 15)
				expNow = 0
				now := uint64(time.Now().Unix())
				switch fx.Int(c.T, "exp", 0, 4) {
				case 0:
				case 1:
					expNow = now + uint64(fx.Pick(c.T, "in", 1, 2, 10, 60, 3600, 86400))
				case 2:
					expNow = now - uint64(fx.Pick(c.T, "ago", 1, 2, 60, 3600))
				case 3:
					expNow = now
				case 4:
					expNow = now + uint64(fx.Pick(c.T, "far", 1<<31, 1<<40))
				}
				sv.jwks = answer{status: 200, body: keySet(which, expNow)}
				keysNow, how = sent(sv.jwks.body), ""
				if fx.Chance(c.T, "spoilt", 4) {
					sv.jwks, how = spoil(c.T, sv.jwks)
				}
			}
			change()
			steps := fx.Int(c.T, "steps", 2, 14)
			reused, fetched := 0, 0
			for i := 0; i < steps; i++ {
				switch fx.Int(c.T, "do", 0, 4) {
				case 0:
					change()
					log = append(log, fmt.Sprintf("answer becomes %s exp=%d %s", sv.jwks, expNow, how))
					continue
				case 1:
					d := fx.Pick(c.T, "advance", time.Second, 500*time.Millisecond, 2*time.Second, 10*time.Second, time.Minute, time.Hour, 24*time.Hour)
					if cachedExp > uint64(time.Now().Unix()) && cachedExp < 1<<33 && rapid.Bool().Draw(c.T, "to expiry") {
						d = time.Until(time.Unix(int64(cachedExp), 0)) + fx.Pick(c.T, "edge", 0, -time.Second, time.Second, time.Millisecond)
					}
					time.Sleep(max(d, 0))
					log = append(log, fmt.Sprintf("advance %s", d))
					continue
				}
				c.Step()
				now := uint64(time.Now().Unix())
				n := len(sv.requests)
				var got *jose.JSONWebKeySet
				var exp uint64
				var err error
				if cl == nil {
					cl, err = connect(c, sv, o)
					if err == nil {
						cached, cachedExp = nil, 0
						// the keys were obtained with the metadata
						got, exp, err = cl.PublicKeys(bg)
					} else {
						cl = nil
					}
				} else {
					got, exp, err = cl.PublicKeys(bg)
				}
				asked := len(sv.requests) > n
				log = append(log, fmt.Sprintf("query at %d: error=%v exp=%d asked=%v", now, err, exp, asked))
				what := fmt.Sprintf("%s; the server answers %s", strings.Join(log, "; "), sv.jwks)
				live := cachedExp > now && cached != nil
				switch {
				case err == nil && got == nil:
					c.Fatalf("no keys and no error: %s", what)
				case err == nil && live && !asked:
					if !slices.Equal(names(got.Keys), cached) || exp != cachedExp {
						c.Fatalf("cached keys %v until %d, reported %v until %d: %s", cached, cachedExp, names(got.Keys), exp, what)
					}
					reused++
				case err == nil && !asked:
					c.Fatalf("keys reused after their expiration %d: %s", cachedExp, what)
				case err == nil:
					fetched++
					m, ok := readable(sv.jwks)
					if !ok {
						c.Fatalf("keys obtained from a failed answer: %s", what)
					}
					if how == "" || how == "extra" {
						if expNow != 0 && expNow < now {
							c.Fatalf("expired keys accepted: %s", what)
						}
						if !slices.Equal(names(got.Keys), keysNow) || exp != expNow {
							c.Fatalf("keys %v until %d reported as %v until %d: %s", keysNow, expNow, names(got.Keys), exp, what)
						}
					}
					var ks []json.RawMessage
					if json.Unmarshal(m["keys"], &ks) != nil || len(ks) == 0 || len(got.Keys) == 0 {
						c.Fatalf("answer without keys accepted: %s", what)
					}
					cached, cachedExp = names(got.Keys), exp
				default:
					if live && cl != nil {
						c.Fatalf("live keys not available: %v; %s", err, what)
					}
					if (how == "" || how == "extra") && (expNow == 0 || expNow > now) {
						c.Fatalf("well-formed answer refused: %v; %s", err, what)
					}
					if got != nil {
						c.Fatalf("keys together with an error: %s", what)
					}
					c.Hit("error %s", how)
				}
			}
			c.Hit("reused=%v fetched=%v", reused > 0, fetched > 1)
			c.NonTrivial("%v", log)
		})
	})

	text := func(t *rapid.T, label string) string {
		return fx.Pick(t, label, fx.Str(t, label+"_a", fx.Alnum, 1, 10), "", "https://op.example/é?x=1&y=<>", "a b", `quote " back \ slash`, "urn:example:api", "\u2028")
	}
	s.Prop("introspection", 5000, func(c *hx.Case) {
		sv := newServer(issuer(c.T))
		sv.defaults()
		cl, err := connect(c, sv, options(c.T))
		if err != nil {
			c.Fatalf("connect: %v", err)
		}
		doc := fx.Map{}
		want := &tokenv1.TokenMeta{}
		active := rapid.Bool().Draw(c.T, "active")
		doc["active"] = active
		str := func(name string, to *string) {
			if rapid.Bool().Draw(c.T, name+"_set") {
				*to = text(c.T, name)
				doc[name] = *to
			}
		}
		num := func(name string, to *uint64) {
			if rapid.Bool().Draw(c.T, name+"_set") {
				*to = fx.Pick(c.T, name, uint64(0), 1, 1700000000, 4102444800, 1<<53+1, 1<<63, 1<<64-1)
				doc[name] = *to
			}
		}
		var jti, acr string
		var auth uint64
		str("iss", &want.Issuer)
		str("sub", &want.Subject)
		str("aud", &want.Audience)
		str("client_id", &want.ClientId)
		str("scope", &want.Scope)
		str("jti", &jti)
		num("iat", &want.IssuedAt)
		num("nbf", &want.NotBefore)
		num("exp", &want.ExpiresAt)
		str("acr", &acr)
		num("auth_time", &auth)
		if doc["acr"] != nil {
			want.Acr = &acr
		}
		if doc["auth_time"] != nil {
			want.AuthTime = &auth
		}
		jkt := ""
		if rapid.Bool().Draw(c.T, "cnf") {
			jkt = text(c.T, "jkt")
			doc["cnf"] = fx.Map{"jkt": jkt}
		}
		if rapid.Bool().Draw(c.T, "more") {
			doc["token_type"], doc["username"], doc["x"] = "DPoP", "u", []any{1, nil}
		}
		sv.introspect = answer{status: 200, body: fx.JSON(doc)}
		how := "well-formed"
		if rapid.Bool().Draw(c.T, "spoil") {
			sv.introspect, how = spoil(c.T, sv.introspect)
		}
		value, assertion := text(c.T, "token"), text(c.T, "assertion")
		c.Step()
		got, err := introspect(c, cl, sv, assertion, value)
		what := fmt.Sprintf("introspection answer %v (%s): %v, %v", sv.introspect, how, got, err)
		if sv.introspect.err == nil {
			r, f := sv.last()
			if r.Method != "POST" || r.URL.String() != sv.issuer+"/introspect" || r.Header.Get("Content-Type") != "application/x-www-form-urlencoded" ||
				f.Get("token") != value || f.Get("client_assertion") != assertion || f.Get("client_assertion_type") != oidc.AssertionTypeJWTBearer {
				c.Fatalf("introspection of %q with assertion %q sent as %s %s %v", value, assertion, r.Method, r.URL, f)
			}
		}
		m, ok := readable(sv.introspect)
		switch {
		case err == nil && got == nil:
			c.Fatalf("no token and no error: %s", what)
		case err != nil && got != nil:
			c.Fatalf("token and error: %s", what)
		case (how == "well-formed" || how == "extra") && err != nil:
			c.Fatalf("well-formed answer refused: %s", what)
		case err == nil && (sv.introspect.status != 200 || (!ok && strings.TrimSpace(string(sv.introspect.body)) != "null")):
			c.Fatalf("failed answer accepted: %s", what)
		case err == nil:
			isActive := got.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE
			if isActive != (string(m["active"]) == "true") {
				c.Fatalf("activity not as sent: %s", what)
			}
			if got.Value != value {
				c.Fatalf("value is not the queried token %q: %s", value, what)
			}
			if how == "well-formed" || how == "extra" {
				if got.Metadata == nil || !proto.Equal(got.Metadata, want) || got.TokenId != jti {
					c.Fatalf("metadata not as sent, expected %v id %q: %s", want, jti, what)
				}
				if (got.Confirmation != nil) != (doc["cnf"] != nil) || got.Confirmation.GetJkt() != jkt {
					c.Fatalf("confirmation not as sent: %s", what)
				}
			} else {
				// each reported member was sent
				for _, f := range []struct{ name, v string }{{"iss", got.Metadata.GetIssuer()}, {"sub", got.Metadata.GetSubject()}, {"aud", got.Metadata.GetAudience()}, {"client_id", got.Metadata.GetClientId()}, {"scope", got.Metadata.GetScope()}, {"jti", got.TokenId}} {
					var v string
					if f.v != "" && (json.Unmarshal(m[f.name], &v) != nil || v != f.v) {
						c.Fatalf("%s was not sent: %s", f.name, what)
					}
				}
				var cnf struct {
					Jkt string `json:"jkt"`
				}
				if j := got.Confirmation.GetJkt(); j != "" && (json.Unmarshal(m["cnf"], &cnf) != nil || cnf.Jkt != j) {
					c.Fatalf("confirmation was not sent: %s", what)
				}
			}
		}
		c.Hit("%s error=%v", how, err != nil)
		c.NonTrivial("%s", what)
	})

	s.Prop("token", 4000, func(c *hx.Case) {
		sv := newServer(issuer(c.T))
		sv.defaults()
		c.Bubble(func() {
			cl, err := connect(c, sv, options(c.T))
			if err != nil {
				c.Fatalf("connect: %v", err)
			}
			doc := fx.Map{"access_token": fx.Str(c.T, "at", fx.Alnum+"-._~+/=", 1, 60), "token_type": fx.Pick(c.T, "type", "Bearer", "DPoP", "bearer")}
			rt := ""
			if rapid.Bool().Draw(c.T, "rt_set") {
				rt = fx.Str(c.T, "rt", fx.Alnum, 1, 20)
				doc["refresh_token"] = rt
			}
			life := 0
			if rapid.Bool().Draw(c.T, "life_set") {
				life = fx.Pick(c.T, "life", 1, 60, 3600, 86400*365, 1<<31-1, 1<<31, 1<<32-1)
				doc["expires_in"] = life
			}
			if rapid.Bool().Draw(c.T, "scope") {
				doc["scope"] = "openid"
			}
			sv.tokn = answer{status: 200, body: fx.JSON(doc)}
			how := "well-formed"
			if rapid.Bool().Draw(c.T, "spoil") {
				sv.tokn, how = spoil(c.T, sv.tokn)
			}
			assertion := text(c.T, "assertion")
			c.Step()
			now := time.Now()
			got, err := cl.ClientCredentials(bg, assertion)
			what := fmt.Sprintf("token answer %v (%s): %v, %v", sv.tokn, how, got, err)
			if sv.tokn.err == nil {
				r, f := sv.last()
				if r.Method != "POST" || r.URL.String() != sv.issuer+"/token?tenant=a%20b" || r.Header.Get("Content-Type") != "application/x-www-form-urlencoded" ||
					f.Get("grant_type") != "client_credentials" || f.Get("client_assertion") != assertion || f.Get("client_assertion_type") != oidc.AssertionTypeJWTBearer {
					c.Fatalf("token request with assertion %q sent as %s %s %v", assertion, r.Method, r.URL, f)
				}
			}
			m, ok := readable(sv.tokn)
			switch {
			case err == nil && got == nil:
				c.Fatalf("no token and no error: %s", what)
			case err != nil && got != nil:
				c.Fatalf("token and error: %s", what)
			case (how == "well-formed" || how == "extra") && err != nil:
				c.Fatalf("well-formed answer refused: %s", what)
			case err == nil && (sv.tokn.status != 200 || (!ok && strings.TrimSpace(string(sv.tokn.body)) != "null")):
				c.Fatalf("failed answer accepted: %s", what)
			case err == nil && (how == "well-formed" || how == "extra"):
				if got.AccessToken != doc["access_token"] || got.TokenType != doc["token_type"] || got.RefreshToken != rt {
					c.Fatalf("not as sent: %s", what)
				}
				if life == 0 && !got.Expiry.IsZero() {
					c.Fatalf("an expiration was not sent: %s", what)
				}
				if d := got.Expiry.Sub(now); life != 0 && (got.Expiry.IsZero() || d < time.Duration(life-1)*time.Second || d > time.Duration(life+1)*time.Second) {
					c.Fatalf("lifetime of %d s not as sent, expires at %v: %s", life, got.Expiry, what)
				}
			case err == nil:
				var v string
				if got.AccessToken != "" && (json.Unmarshal(m["access_token"], &v) != nil || v != got.AccessToken) {
					c.Fatalf("access token was not sent: %s", what)
				}
			}
			c.Hit("%s error=%v", how, err != nil)
			c.NonTrivial("%s", what)
		})
	})

	// One client, several calls: each answer is the server's present one.
	s.Prop("again", 1500, func(c *hx.Case) {
		sv := newServer(issuer(c.T))
		sv.defaults()
		c.Bubble(func() {
			cl, err := connect(c, sv, options(c.T))
			if err != nil {
				c.Fatalf("connect: %v", err)
			}
			values := []string{"tok-1", "tok-2", "TOK-1"}
			var log []string
			asserted := map[string]bool{}
			for i := fx.Int(c.T, "calls", 2, 8); i > 0; i-- {
				c.Step()
				if fx.Chance(c.T, "wait", 3) {
					time.Sleep(time.Duration(fx.Pick(c.T, "secs", 1, 29, 31, 3600)) * time.Second)
				}
				switch fx.Pick(c.T, "call", "introspect", "introspect", "token", "assertion") {
				case "introspect":
					v := fx.Pick(c.T, "value", values...)
					active, sub := rapid.Bool().Draw(c.T, "active"), fx.Str(c.T, "sub", "abc", 0, 2)
					exp := uint64(time.Now().Unix()) + uint64(fx.Pick(c.T, "exp", 0, 1, 3600))
					doc := fx.Map{"active": active, "sub": sub, "exp": exp}
					if rapid.Bool().Draw(c.T, "cnf") {
						doc["cnf"] = fx.Map{"jkt": sub}
					}
					sv.introspect = answer{status: fx.Pick(c.T, "status", 200, 200, 200, 401, 500), body: fx.JSON(doc)}
					log = append(log, fmt.Sprintf("introspect %s %v %d", v, doc, sv.introspect.status))
					got, err := cl.Introspect(bg, fx.Pick(c.T, "as", "a", "b"), v)
					if sv.introspect.status != 200 {
						if err == nil {
							c.Fatalf("failed answer accepted: %v (%v)", got, log)
						}
						continue
					}
					if err != nil || (got.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) != active || got.GetMetadata().GetSubject() != sub || got.GetMetadata().GetExpiresAt() != exp || (got.Confirmation != nil) != (doc["cnf"] != nil) || got.Value != v {
						c.Fatalf("%v (%v) for %v", got, err, log)
					}
				case "token":
					at := fx.Str(c.T, "at", "abc", 1, 3)
					sv.tokn = answer{status: fx.Pick(c.T, "status", 200, 200, 200, 401, 500), body: fx.JSON(fx.Map{"access_token": at, "token_type": "Bearer", "expires_in": 60})}
					log = append(log, fmt.Sprintf("token %s %d", at, sv.tokn.status))
					now := time.Now()
					got, err := cl.ClientCredentials(bg, fx.Pick(c.T, "as", "a", "b"))
					if sv.tokn.status != 200 {
						if err == nil {
							c.Fatalf("failed answer accepted: %v (%v)", got, log)
						}
						continue
					}
					if err != nil || got.AccessToken != at || got.Expiry.Sub(now) < 59*time.Second || got.Expiry.Sub(now) > 61*time.Second {
						c.Fatalf("%v (%v) for %v", got, err, log)
					}
				case "assertion":
					a, err := cl.Assertion()
					if err != nil {
						continue // whether the client's own key is usable is another matter
					}
					jti, _ := fx.Payload(a)["jti"].(string)
					if jti == "" || asserted[jti] {
						c.Fatalf("assertion identifier %q reused (%v)", jti, log)
					}
					asserted[jti] = true
					log = append(log, "assertion")
				}
			}
			c.NonTrivial("%s", strings.Join(log, ", "))
		})
	})

	s.Prop("assertion", 1500, func(c *hx.Case) {
		sv := newServer(issuer(c.T))
		sv.defaults()
		k := fx.GetKey(jose.ES384, fx.Int(c.T, "key", 0, 2))
		jwk := k.JWK(fx.Pick(c.T, "kid", "k", "", "other"))
		if rapid.Bool().Draw(c.T, "noalg") {
			jwk.Algorithm = ""
		}
		raw, err := jwk.MarshalJSON()
		if err != nil {
			c.Fatalf("HARNESS-ERROR: %v", err)
		}
		o := options(c.T)
		o.JWK = raw
		me := fx.FullClient(o.ClientID)
		pubs := []jose.JSONWebKey{k.PubJWK(jwk.KeyID)}
		if rapid.Bool().Draw(c.T, "more keys") {
			pubs = append(pubs, fx.GetKey(jose.ES384, 5).PubJWK("z"))
			if rapid.Bool().Draw(c.T, "swap") {
				pubs[0], pubs[1] = pubs[1], pubs[0]
			}
		}
		me.Jwks = fx.JWKS(pubs...)
		other := fx.FullClient(o.ClientID + "x")
		other.Jwks = fx.JWKS(fx.GetKey(jose.ES384, 6).PubJWK("k"))
		bad, isBad := "", fx.Chance(c.T, "bad", 4)
		if isBad {
			bad = fx.Pick(c.T, "badkey", "null", "", "{}", "garbage", string(fx.JSON(fx.AsMap(fx.GetKey(jose.ES256, 0).JWK("k")))), string(fx.JSON(fx.AsMap(fx.GetKey(jose.EdDSA, 0).JWK("k")))), string(fx.JSON(fx.AsMap(fx.Ref(k.PubJWK("k"))))))
			o.JWK = []byte(bad)
		}
		st := fx.NewClientStore(me, other)
		c.Bubble(func() {
			cl, err := connect(c, sv, o)
			if err != nil {
				c.Fatalf("connect: %v", err)
			}
			time.Sleep(time.Duration(fx.Int(c.T, "ms", 0, 1999)) * time.Millisecond)
			c.Step()
			a, err := func() (_ string, err error) {
				defer func() {
					if p := recover(); p != nil {
						c.Fatalf("assertion with key %q crashes: %v", o.JWK, p)
					}
				}()
				return cl.Assertion()
			}()
			if isBad {
				if err == nil || a != "" {
					c.Fatalf("assertion %q made with key %q", a, o.JWK)
				}
				c.NonTrivial("bad %s", bad)
				return
			}
			if err != nil {
				c.Fatalf("assertion: %v", err)
			}
			b, err := cl.Assertion()
			if err != nil || a == b || fx.Payload(a)["jti"] == fx.Payload(b)["jti"] {
				c.Fatalf("second assertion %q after %q: %v", b, a, err)
			}
			p := fx.Payload(a)
			if p["iss"] != o.ClientID || p["sub"] != o.ClientID || p["aud"] != sv.issuer {
				c.Fatalf("assertion of %q at %q says %v", o.ClientID, sv.issuer, p)
			}
			wait := fx.Pick(c.T, "wait", 0, 5*time.Second, 20*time.Second)
			time.Sleep(wait)
			proc := clientauthentication.PrivateKeyJWT(st, []jose.SignatureAlgorithm{jose.ES256, jose.ES384, jose.EdDSA})
			res, err := proc.Authenticate(bg, &clientv1.AuthenticateRequest{ClientAssertionType: fx.Ref(oidc.AssertionTypeJWTBearer), ClientAssertion: &a})
			if err != nil || res.Error != nil || res.Client.GetClientId() != o.ClientID {
				c.Fatalf("assertion %s of %s does not authenticate it after %s: %v, %v", a, o.ClientID, wait, res, err)
			}
			c.NonTrivial("%s %s %s", o.ClientID, raw, wait)
		})
	})
}

func introspect(c *hx.Case, cl client.Client, sv *server, assertion, value string) (tk *tokenv1.Token, err error) {
	defer func() {
		if p := recover(); p != nil {
			c.Fatalf("client crashes on introspection answer %v: %v", sv.introspect, p)
		}
	}()
	return cl.Introspect(bg, assertion, value)
}
