package c39

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"slices"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	jose "github.com/go-jose/go-jose/v4"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/oidc"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	"zntr.io/solid/sdk/token/jwt"
)

// http-level deviations of a request by an authenticated client.
var deviations = []string{"", "", "", "", "auth", "method", "proof", "no proof"}

// send makes a POST request of a party to an endpoint with a drawn deviation;
// it reports whether the request reached the endpoint's operation.
func (s *sim) send(t *rapid.T, what, path string, p *party, q, form url.Values, dev string) (hdr http.Header, dead bool) {
	hdr = http.Header{}
	switch dev {
	case "auth":
		how := s.badAuth(t, p, q, form)
		if path == "/par" || fx.Chance(t, "with_proof", 2) {
			hdr.Set("DPoP", s.proof(p.pop, "POST", iss+path, 0))
		}
		s.frozen(func() {
			s.refused(what+" badly authenticated: "+how, s.call("POST", path, q, form, hdr), 401, false)
		})
		s.c.Hit("%s refused: auth %s", what, how)
		return hdr, true
	case "method":
		s.auth(p, q, form)
		hdr.Set("DPoP", s.proof(p.pop, "POST", iss+path, 0))
		meth := fx.Pick(t, "meth", "PUT", "PATCH", "GET")
		s.frozen(func() {
			s.refused(what+" by "+meth, s.call(meth, path, q, form, hdr), 0, path == "/par")
		})
		s.c.Hit("%s refused: method", what)
		return hdr, true
	}
	s.auth(p, q, form)
	return hdr, false
}

func (s *sim) push(t *rapid.T) {
	p := fx.Pick(t, "party", s.parties...)
	r := s.newRequest(t, p)
	q, form := url.Values{}, url.Values{}
	dev := fx.Pick(t, "dev", append([]string{"foreign object", "for other", "no request", "bad request", "nested"}, deviations...)...)
	q.Set("request", s.sign(p.key, r.ar))
	hdr, dead := s.send(t, "push", "/par", p, q, form, dev)
	if dead {
		return
	}
	other := s.parties[(slices.Index(s.parties, p)+1+fx.Int(t, "o", 0, len(s.parties)-2))%len(s.parties)]
	proof := s.proof(p.pop, "POST", iss+"/par", int64(fx.Pick(t, "off", 0, 0, -14, 14)))
	hdr.Set("DPoP", proof)
	how := dev
	switch dev {
	case "proof":
		v, h := s.badProof(t, p.pop, "/par")
		hdr.Set("DPoP", v)
		how = "proof " + h
	case "no proof":
		hdr.Del("DPoP")
	case "foreign object":
		q.Set("request", s.sign(other.key, r.ar))
	case "for other":
		r2 := s.newRequest(t, other)
		q.Set("request", s.sign(p.key, r2.ar))
	case "no request":
		q.Del("request")
	case "bad request":
		bad := proto.Clone(r.ar).(*flowv1.AuthorizationRequest)
		switch fx.Int(t, "bad", 0, 3) {
		case 0:
			bad.RedirectUri = other.cl.RedirectUris[0]
		case 1:
			bad.State = bad.State[:31]
		case 2:
			bad.CodeChallengeMethod = "plain"
		case 3:
			bad.Audience = ""
		}
		q.Set("request", s.sign(p.key, bad))
	case "nested":
		bad := proto.Clone(r.ar).(*flowv1.AuthorizationRequest)
		bad.RequestUri = fx.Ref("urn:solid:" + strings.Repeat("a", 32))
		q.Set("request", s.sign(p.key, bad))
	}
	if dev != "" {
		s.frozen(func() { s.refused("push "+how, s.call("POST", "/par", q, form, hdr), 400, false) })
		s.c.Hit("push refused: %s", how)
		return
	}
	rec := s.call("POST", "/par", q, form, hdr)
	s.proofs["/par"] = append(s.proofs["/par"], proof)
	if rec.Code != http.StatusCreated {
		s.c.Fatalf("push of %s answered %d: %s", p.name, rec.Code, rec.Body.String())
	}
	d := s.doc("push", rec)
	r.uri, _ = d["request_uri"].(string)
	if r.uri == "" || d["issuer"] != iss || num(d["expires_in"]) == 0 {
		s.c.Fatalf("push answered %v", d)
	}
	r.expiry = time.Now().Add(time.Duration(num(d["expires_in"])) * time.Second)
	s.reqs = append(s.reqs, r)
	s.secrets = append(s.secrets, r.uri)
	s.log = append(s.log, "push "+p.name)
}

// authorize takes one pushed or direct request to the authorization endpoint.
func (s *sim) authorize(t *rapid.T) {
	var r *request
	if len(s.reqs) > 0 && fx.Chance(t, "pushed", 4) {
		r = pickLast(t, "req", s.reqs)
		if !clear(r.expiry) {
			return
		}
	} else {
		r = s.newRequest(t, fx.Pick(t, "party", s.parties...))
		s.reqs = append(s.reqs, r)
	}
	dev := fx.Pick(t, "dev", "", "", "", "user", "no user", "method", "client", "unknown client", "foreign object", "tampered", "no request")
	s.ask(t, r, dev)
}

func (s *sim) ask(t *rapid.T, r *request, dev string) {
	p := r.p
	obj := r.ar
	if r.uri != "" {
		obj = &flowv1.AuthorizationRequest{RequestUri: &r.uri, ClientId: p.cl.ClientId}
	}
	other := s.parties[(slices.Index(s.parties, p)+1+fx.Int(t, "o", 0, len(s.parties)-2))%len(s.parties)]
	q := url.Values{"client_id": {p.cl.ClientId}, "request": {s.sign(p.key, obj)}}
	hdr := basic("hello", "world")
	method, status, plain := "GET", 400, false
	switch dev {
	case "user":
		up := fx.Pick(t, "cred", [2]string{"hello", "World"}, [2]string{"Hello", "world"}, [2]string{"hello", " world"}, [2]string{"", "world"}, [2]string{"hello", ""}, [2]string{"hello", "hello"}, [2]string{"world", "hello"})
		hdr, status, plain = basic(up[0], up[1]), 401, true
	case "no user":
		hdr, status, plain = http.Header{}, 401, true
	case "method":
		method, status = fx.Pick(t, "meth", "POST", "PUT", "DELETE"), 405
	case "client": // asked by another client than the one of the request
		q.Set("client_id", other.cl.ClientId)
		q.Set("request", s.sign(other.key, obj))
	case "unknown client":
		q.Set("client_id", fx.Mutate(t, "cid", p.cl.ClientId))
		if slices.ContainsFunc(s.parties, func(o *party) bool { return o.cl.ClientId == q.Get("client_id") }) || q.Get("client_id") == "attester" {
			q.Set("client_id", "nobody")
		}
	case "foreign object":
		q.Set("request", s.sign(other.key, obj))
	case "tampered":
		v, _ := fx.Tamper(t, q.Get("request"))
		q.Set("request", v)
	case "no request":
		q.Del("request")
	}
	spent := r.uri != "" && (r.used || !time.Now().Before(r.expiry))
	if dev == "client" && r.uri != "" && !spent {
		// whether the attempt of another client spends the request is open
		s.frozen(func() {
			s.refused("authorize for another client", s.call(method, "/authorize", q, nil, hdr), status, false)
		})
		if _, err := s.w.Reqs.Get(bg, iss, r.uri); err != nil {
			r.used = true
		}
		s.c.Hit("authorize refused: %s pushed", dev)
		return
	}
	if dev != "" {
		s.frozen(func() { s.refused("authorize "+dev, s.call(method, "/authorize", q, nil, hdr), status, plain) })
		s.c.Hit("authorize refused: %s", dev)
		return
	}
	if spent {
		s.frozen(func() {
			s.refused("authorize a spent request", s.call(method, "/authorize", q, nil, hdr), status, false)
		})
		s.c.Hit("authorize refused: spent")
		return
	}
	rec := s.call(method, "/authorize", q, nil, hdr)
	r.used = true
	s.answer("authorize", rec, r)
}

// full runs a fresh authorization up to its code.
func (s *sim) full(t *rapid.T) {
	r := s.newRequest(t, fx.Pick(t, "party", s.parties...))
	s.reqs = append(s.reqs, r)
	s.ask(t, r, "")
	s.redeem(t)
}

// token asks the token endpoint; jkt is the thumbprint of the proof shown.
func (s *sim) token(t *rapid.T, p *party, form url.Values, withProof bool) (http.Header, url.Values, string) {
	q, hdr := url.Values{}, http.Header{}
	s.auth(p, q, form)
	jkt := ""
	if withProof {
		pr := s.proof(p.pop, "POST", iss+"/token", 0)
		hdr.Set("DPoP", pr)
		s.proofs["/token"] = append(s.proofs["/token"], pr)
		jkt = thumb(p.pop)
	}
	return hdr, q, jkt
}

// httpDev refuses a token request before it reaches the grant.
func (s *sim) httpDev(t *rapid.T, what string, p *party, form url.Values) bool {
	dev := fx.Pick(t, "dev", deviations...)
	if dev == "no proof" && p.name != "delta" || dev == "" {
		return false
	}
	q := url.Values{}
	hdr, dead := s.send(t, what, "/token", p, q, form, dev)
	if dead {
		return true
	}
	how := dev
	if dev == "proof" {
		v, h := s.badProof(t, p.pop, "/token")
		hdr.Set("DPoP", v)
		how = "proof " + h
	}
	s.frozen(func() { s.refused(what+" "+how, s.call("POST", "/token", q, form, hdr), 400, false) })
	s.c.Hit("%s refused: %s", what, how)
	return true
}

func proofWanted(t *rapid.T, p *party) bool { return p.name == "delta" || fx.Chance(t, "proof", 2) }

func (s *sim) redeem(t *rapid.T) {
	if len(s.codes) == 0 {
		return
	}
	k := s.codes[len(s.codes)-1]
	if fx.Chance(t, "any", 3) {
		k = pickLast(t, "code", s.codes)
	}
	if !clear(k.expiry) {
		return
	}
	p := k.p
	form := url.Values{"grant_type": {"authorization_code"}, "code": {k.value}, "code_verifier": {k.verifier}, "redirect_uri": {k.ar.RedirectUri}}
	if s.httpDev(t, "redeem", p, form) {
		return
	}
	dev := fx.Pick(t, "gdev", "", "", "", "", "client", "verifier", "redirect", "code", "grant")
	reach := true // the attempt reaches the code
	switch dev {
	case "client":
		p = s.parties[(slices.Index(s.parties, p)+1+fx.Int(t, "o", 0, len(s.parties)-2))%len(s.parties)]
	case "verifier":
		form.Set("code_verifier", fx.Pick(t, "v", fx.Verifier(t, "v2"), k.ar.CodeChallenge))
	case "redirect":
		form.Set("redirect_uri", fx.Mutate(t, "r", k.ar.RedirectUri))
		if form.Get("redirect_uri") == k.ar.RedirectUri {
			form.Set("redirect_uri", "https://other.example/cb")
		}
	case "code":
		form.Set("code", fx.Mutate(t, "c", k.value))
		if form.Get("code") == k.value {
			form.Set("code", "x"+k.value)
		}
		reach = false
	case "grant":
		form.Set("grant_type", fx.Pick(t, "g", "", "refresh_token", "implicit", "password", "Authorization_code", oidc.GrantTypeDeviceCode, oidc.GrantTypeTokenExchange))
		reach = false
	}
	hdr, q, jkt := s.token(t, p, form, proofWanted(t, p))
	live := !k.used && time.Now().Before(k.expiry)
	if dev != "" || !live {
		what := "redeem " + dev
		if !live {
			what += " spent"
		}
		s.frozen(func() { s.refused(what, s.call("POST", "/token", q, form, hdr), 400, false) })
		s.c.Hit("%s", what)
		if reach && live {
			// requests refused before the code is looked up leave it alone
			if _, err := s.w.Codes.Get(bg, iss, k.value); err != nil {
				k.used = true
			}
		}
		return
	}
	scope := fx.RecordedScope(k.ar)
	refresh := slices.Contains(scope, "openid") && slices.Contains(scope, "offline_access")
	rec := s.call("POST", "/token", q, form, hdr)
	k.used = true
	s.granted("redeem "+p.name, rec, p, hdr, jkt, p.sub, k.ar.Audience, scope, refresh)
	s.c.Hit("redeemed by %s, bound %v", p.name, jkt != "")
}

func (s *sim) credentials(t *rapid.T) {
	p := fx.Pick(t, "party", s.parties...)
	form := url.Values{"grant_type": {"client_credentials"}}
	if s.httpDev(t, "credentials", p, form) {
		return
	}
	hdr, q, jkt := s.token(t, p, form, proofWanted(t, p))
	if p.name == "public" {
		s.frozen(func() {
			s.refused("credentials of a public client", s.call("POST", "/token", q, form, hdr), 400, false)
		})
		return
	}
	s.granted("credentials "+p.name, s.call("POST", "/token", q, form, hdr), p, hdr, jkt, "", "", nil, false)
}

func (s *sim) refresh(t *rapid.T) {
	var rts []*tok
	for _, k := range s.toks {
		if k.refresh {
			rts = append(rts, k)
		}
	}
	if len(rts) == 0 {
		return
	}
	k := pickLast(t, "rt", rts)
	if time.Until(time.Unix(int64(k.exp), 0)).Abs() < 2*time.Second {
		return
	}
	p := k.p
	form := url.Values{"grant_type": {"refresh_token"}, "refresh_token": {k.value}}
	if s.httpDev(t, "refresh", p, form) {
		return
	}
	dev := fx.Pick(t, "gdev", "", "", "", "client", "access", "value")
	switch dev {
	case "client":
		p = s.parties[(slices.Index(s.parties, p)+1+fx.Int(t, "o", 0, len(s.parties)-2))%len(s.parties)]
	case "access":
		form.Set("refresh_token", s.toks[0].value)
		if s.toks[0].refresh {
			dev = "client"
			p = s.parties[(slices.Index(s.parties, s.toks[0].p)+1)%len(s.parties)]
		}
	case "value":
		form.Set("refresh_token", fx.Mutate(t, "v", k.value))
		if form.Get("refresh_token") == k.value {
			form.Set("refresh_token", "x"+k.value)
		}
	}
	hdr, q, _ := s.token(t, p, form, proofWanted(t, p))
	now := uint64(time.Now().Unix())
	if dead := k.revoked || now >= k.exp; dev != "" || dead {
		what := fmt.Sprintf("refresh %s dead=%v", dev, dead)
		s.frozen(func() { s.refused(what, s.call("POST", "/token", q, form, hdr), 400, false) })
		s.c.Hit("%s", what)
		return
	}
	edge := now + 3600
	if edge+1 >= k.exp && edge <= k.exp+1 {
		return
	}
	rotate := edge > k.exp
	at, rt := s.granted("refresh "+p.name, s.call("POST", "/token", q, form, hdr), p, hdr, k.jkt, k.sub, k.aud, slices.Clone(k.scope), rotate)
	if at.alt = k.alt; rt != nil {
		rt.alt = k.alt
	}
	k.revoked = rotate
	s.c.Hit("refreshed, rotated %v, bound %v, proof shown %v", rotate, k.jkt != "", hdr.Get("DPoP") != "")
}

func (s *sim) deviceStart(t *rapid.T) {
	p := fx.Pick(t, "party", s.parties...)
	d := &device{p: p, aud: fx.Pick(t, "aud", "", "https://api.example", "urn:rs")}
	d.scope = strings.Join(fx.ScopeList(t, "scope"), " ")
	if fx.Chance(t, "offline", 2) {
		d.scope = "openid offline_access"
	}
	form := url.Values{}
	if d.scope != "" {
		form.Set("scope", d.scope)
	}
	if d.aud != "" {
		form.Set("audience", d.aud)
	}
	q := url.Values{}
	dev := fx.Pick(t, "dev", "", "", "", "auth", "method", "other")
	other := s.parties[(slices.Index(s.parties, p)+1+fx.Int(t, "o", 0, len(s.parties)-2))%len(s.parties)]
	switch {
	case dev == "other" && p.name != "public":
		form.Set("client_id", other.cl.ClientId)
	case p.name == "public" || fx.Chance(t, "names itself", 2):
		form.Set("client_id", p.cl.ClientId)
	}
	hdr, dead := s.send(t, "device", "/device/authorize", p, q, form, dev)
	if dead {
		return
	}
	rec := s.call("POST", "/device/authorize", q, form, hdr)
	if rec.Code != http.StatusOK {
		if dev == "other" {
			s.refused("device for another client", rec, 0, false)
			s.c.Hit("device refused: other")
			return
		}
		if form.Get("client_id") == "" && s.suite.Known("device-client") {
			s.refused("device for no client", rec, 0, false)
			return
		}
		s.c.Fatalf("device of %s answered %d: %s", p.name, rec.Code, rec.Body.String())
	}
	m := s.doc("device", rec)
	d.code, _ = m["device_code"].(string)
	d.user, _ = m["user_code"].(string)
	if d.code == "" || d.user == "" || num(m["expires_in"]) == 0 || m["verification_uri"] != iss+"/device" {
		s.c.Fatalf("device answered %v", m)
	}
	// whoever is named, the code is the authenticated client's (see poll)
	if dev == "other" && form.Get("client_id") == other.cl.ClientId {
		ses, err := s.w.Devices.GetByUserCode(bg, iss, d.user)
		if err == nil && ses.GetClient().GetClientId() == other.cl.ClientId && s.suite.Known("device-client") {
			d.p = other
		}
	}
	d.expiry = time.Now().Add(time.Duration(num(m["expires_in"])) * time.Second)
	s.devices = append(s.devices, d)
	s.secrets = append(s.secrets, d.code)
	s.log = append(s.log, "device "+p.name)
}

func (s *sim) deviceApprove(t *rapid.T) {
	if len(s.devices) == 0 {
		return
	}
	d := pickLast(t, "dev", s.devices)
	if !clear(d.expiry) {
		return
	}
	form := url.Values{"user_code": {d.user}}
	dev := fx.Pick(t, "adev", "", "", "", "", "user", "no user", "code", "query", "method")
	hdr, method, status, plain := basic("hello", "world"), "POST", 400, false
	var q url.Values
	switch dev {
	case "user":
		hdr, status, plain = basic("hello", fx.Pick(t, "pw", "World", "", "hello", "world ")), 401, true
	case "no user":
		hdr, status, plain = http.Header{}, 401, true
	case "code":
		v := fx.Mutate(t, "uc", d.user)
		if slices.ContainsFunc(s.devices, func(o *device) bool { return o.user == v }) {
			v = "ZZZZ-ZZZZ"
		}
		form.Set("user_code", v)
	case "query": // a link must not approve
		q, form = form, url.Values{}
	case "method":
		method, status = fx.Pick(t, "meth", "PUT", "DELETE"), 405
	}
	live := !d.approved && time.Now().Before(d.expiry)
	if dev != "" || !live {
		s.refused("approve "+dev, s.call(method, "/device", q, form, hdr), status, plain)
		s.c.Hit("approve refused: %s live %v", dev, live)
		return
	}
	rec := s.call(method, "/device", q, form, hdr)
	if rec.Code != http.StatusOK {
		s.c.Fatalf("approval answered %d: %s", rec.Code, rec.Body.String())
	}
	if rec.Header().Get("X-Frame-Options") != "DENY" {
		s.c.Fatalf("approval page may be framed")
	}
	d.approved = true
	s.log = append(s.log, "approve")
}

func (s *sim) devicePoll(t *rapid.T) {
	if len(s.devices) == 0 {
		return
	}
	d := pickLast(t, "dev", s.devices)
	if !clear(d.expiry) {
		return
	}
	p := d.p
	form := url.Values{"grant_type": {oidc.GrantTypeDeviceCode}, "device_code": {d.code}}
	if s.httpDev(t, "poll", p, form) {
		return
	}
	dev := fx.Pick(t, "gdev", "", "", "", "", "client", "code")
	switch dev {
	case "client":
		p = s.parties[(slices.Index(s.parties, p)+1+fx.Int(t, "o", 0, len(s.parties)-2))%len(s.parties)]
	case "code":
		form.Set("device_code", fx.Pick(t, "dc", d.user, "x"+d.code, d.code[1:]))
	}
	hdr, q, jkt := s.token(t, p, form, proofWanted(t, p))
	live := d.approved && time.Now().Before(d.expiry)
	if dev != "" || !live {
		rec := s.call("POST", "/token", q, form, hdr)
		s.refused("poll "+dev, rec, 400, false)
		if e := s.code(s.doc("poll", rec)); dev == "" && !d.approved && time.Now().Before(d.expiry) && e != "authorization_pending" {
			s.c.Fatalf("poll before approval: %v", e)
		}
		s.c.Hit("poll refused: %s approved %v", dev, d.approved)
		return
	}
	scope := strings.Fields(d.scope)
	rec := s.call("POST", "/token", q, form, hdr)
	// C39 leaves open how often an approved code may be polled until it expires
	at, rt := s.granted("poll "+p.name, rec, p, hdr, jkt, "hello", d.aud, scope, slices.Contains(scope, "offline_access"))
	// C39 leaves open whether the device flow encodes the subject for the client
	if at.alt = p.sub; rt != nil {
		rt.alt = p.sub
	}
	s.c.Hit("device tokens for %s", p.name)
}

// look introspects a token as a party and compares the answer with the model.
func (s *sim) look(k *tok, p *party) {
	q, form := url.Values{}, url.Values{"token": {k.value}}
	s.auth(p, q, form)
	now := uint64(time.Now().Unix())
	rec := s.call("POST", "/token/introspect", q, form, nil)
	if rec.Code != http.StatusOK {
		s.c.Fatalf("introspection answered %d: %s", rec.Code, rec.Body.String())
	}
	m := s.doc("introspect", rec)
	active, _ := m["active"].(bool)
	if now+1 >= k.exp && now <= k.exp+1 || !k.revoked && now < k.iat+2 {
		return // around the ends of its lifetime
	}
	if want := !k.revoked && now < k.exp; active != want {
		s.c.Fatalf("token of %s (refresh %v) is reported active=%v, expected %v (%v)", k.p.name, k.refresh, active, want, s.log)
	}
	if !active {
		if len(m) != 1 {
			s.c.Fatalf("inactive token described: %v", m)
		}
		return
	}
	tt := "Bearer"
	cnf, _ := m["cnf"].(map[string]any)
	if k.jkt != "" {
		tt = "DPoP"
	}
	j, _ := cnf["jkt"].(string)
	str := func(n string) string { v, _ := m[n].(string); return v }
	if str("token_type") != tt || j != k.jkt || str("client_id") != k.p.cl.ClientId || (str("sub") != k.sub && (k.alt == "" || str("sub") != k.alt)) || str("aud") != k.aud || str("iss") != iss ||
		!slices.Equal(words(m["scope"]), k.scope) && len(k.scope)+len(words(m["scope"])) > 0 || num(m["exp"]) != k.exp || num(m["iat"]) != k.iat {
		s.c.Fatalf("introspection says %v of the token %+v of %s (%v)", m, *k, k.p.name, s.log)
	}
}

func (s *sim) introspect(t *rapid.T) {
	p := fx.Pick(t, "party", s.parties...)
	if len(s.toks) == 0 || fx.Chance(t, "unknown", 5) {
		v := fx.Str(t, "v", fx.Alnum, 1, 30)
		if len(s.secrets) > 0 {
			v = fx.Mutate(t, "m", pickLast(t, "s", s.secrets))
		}
		if v == "" || slices.ContainsFunc(s.toks, func(k *tok) bool { return k.value == v }) {
			v = "unknown"
		}
		q, form := url.Values{}, url.Values{"token": {v}}
		s.auth(p, q, form)
		rec := s.call("POST", "/token/introspect", q, form, nil)
		if m := s.doc("introspect", rec); rec.Code != http.StatusOK || len(m) != 1 || m["active"] != false {
			s.c.Fatalf("introspection of an unknown token answered %d %v", rec.Code, m)
		}
		s.c.Hit("unknown inactive")
		return
	}
	k := pickLast(t, "tok", s.toks)
	if fx.Chance(t, "unauth", 4) {
		q, form := url.Values{}, url.Values{"token": {k.value}}
		s.send(t, "introspect", "/token/introspect", p, q, form, "auth")
		return
	}
	s.look(k, p)
	s.log = append(s.log, "introspect")
}

func (s *sim) revoke(t *rapid.T) {
	if len(s.toks) == 0 {
		return
	}
	k := pickLast(t, "tok", s.toks)
	q, form := url.Values{}, url.Values{"token": {k.value}}
	if h := fx.Pick(t, "hint", "", "access_token", "refresh_token", "other"); h != "" {
		form.Set("token_type_hint", h)
	}
	switch fx.Pick(t, "rdev", "", "", "other", "auth", "unknown") {
	case "auth":
		s.send(t, "revoke", "/token/revoke", k.p, q, form, "auth")
	case "other":
		p := s.parties[(slices.Index(s.parties, k.p)+1+fx.Int(t, "o", 0, len(s.parties)-2))%len(s.parties)]
		s.auth(p, q, form)
		s.frozen(func() {
			s.refused("revoke of another client's", s.call("POST", "/token/revoke", q, form, nil), 400, false)
		})
		s.c.Hit("revoke refused: other")
	case "unknown":
		form.Set("token", "x"+k.value)
		s.auth(k.p, q, form)
		rec, crash := s.attempt("POST", "/token/revoke", q, form)
		if crash != nil && !(strings.Contains(fmt.Sprint(crash), "nil pointer") && s.suite.Known("revoke-unknown-token")) {
			s.c.Fatalf("revocation of an unknown token: %v", crash)
		}
		if crash == nil && rec.Code != http.StatusOK {
			s.c.Fatalf("revocation of an unknown token answered %d: %s", rec.Code, rec.Body.String())
		}
	default:
		s.auth(k.p, q, form)
		if rec := s.call("POST", "/token/revoke", q, form, nil); rec.Code != http.StatusOK {
			s.c.Fatalf("revocation answered %d: %s", rec.Code, rec.Body.String())
		}
		k.revoked = true
		s.log = append(s.log, "revoke")
	}
}

// attempt makes a request and reports its panic.
func (s *sim) attempt(method, path string, q, form url.Values) (rec *httptest.ResponseRecorder, crash any) {
	defer func() { crash = recover() }()
	return s.call(method, path, q, form, nil), nil
}

// odd sends arbitrary requests to arbitrary endpoints; none may be granted.
func (s *sim) odd(t *rapid.T) {
	path := fx.Pick(t, "path", "/par", "/token", "/token/introspect", "/token/revoke", "/device/authorize", "/device", "/authorize")
	vals := func(label string) url.Values {
		v := url.Values{}
		for i := fx.Int(t, label+"_n", 0, 4); i > 0; i-- {
			k := fx.Pick(t, label+"_k", "client_id", "request", "code", "grant_type", "client_assertion", "client_assertion_type", "token", "user_code", "device_code", "refresh_token", "scope")
			x := fx.Pick(t, label+"_v", "", "public2", "alpha", "x", "refresh_token", "null", "\x00", oidc.AssertionTypeJWTBearer, oidc.AssertionTypeJWTClientAttestation, "a.b.c", "a.b.c~d.e.f", "~")
			if len(s.secrets) > 0 && fx.Chance(t, label+"_s", 3) {
				x = pickLast(t, label+"_secret", s.secrets)
			}
			v.Add(k, x)
		}
		return v
	}
	q, form := vals("q"), vals("f")
	if q.Get("client_id") == "public" {
		return
	}
	hdr := http.Header{}
	if fx.Chance(t, "dpop", 3) {
		hdr.Set("DPoP", fx.Pick(t, "d", "", "x", "a.b.c", "~"))
	}
	meth := fx.Pick(t, "meth", "POST", "GET", "PUT", "HEAD", "OPTIONS", "DELETE")
	s.frozen(func() {
		s.refused("odd "+meth+" "+path, s.call(meth, path, q, form, hdr), 0, true)
	})
}

// discover reads the public documents.
func (s *sim) discover(t *rapid.T) {
	rec := s.call("GET", fx.Pick(t, "doc", "/.well-known/oauth-authorization-server", "/.well-known/openid-configuration"), nil, nil, nil)
	m := s.doc("metadata", rec)
	signed, _ := m["signed_metadata"].(string)
	if rec.Code != http.StatusOK || m["issuer"] != iss || signed == "" {
		s.c.Fatalf("metadata %d %v", rec.Code, m)
	}
	keys := s.call("GET", "/keys", nil, nil, nil)
	if strings.Contains(keys.Body.String(), `"d"`) {
		s.c.Fatalf("private key published: %s", keys.Body.String())
	}
	ks := fx.ParseJWKS(keys.Body.Bytes())
	var claims map[string]any
	if err := jwt.DefaultVerifier(fx.SetProvider(ks.Keys...), []jose.SignatureAlgorithm{jose.ES384}).Claims(bg, signed, &claims); err != nil {
		s.c.Fatalf("signed metadata: %v", err)
	}
	m["signed_metadata"] = "" // as it was while signing
	if _, has := claims["signed_metadata"]; !has {
		delete(m, "signed_metadata")
	}
	if a, b := fmt.Sprint(m), fmt.Sprint(claims); a != b {
		s.c.Fatalf("signed metadata %s differs from %s", b, a)
	}
}
