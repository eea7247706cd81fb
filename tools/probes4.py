# fourth batch of probes (same form as probes.py)
from probes3 import *
PK = "server/clientauthentication/private_key_jwt.go"
JV = "sdk/token/jwt/verifier.go"
HC = "client/http.go"
JD = "sdk/jarm/decoder.go"
PW = "sdk/pairwise/hash.go"
DV = "sdk/dpop/verifier.go"
TS = "server/storage/inmemory/token.go"
CS = "server/storage/inmemory/client.go"
IN = "server/services/token/introspection.go"
RV = "server/services/token/revoke.go"
NBF = "	if claims.NotBefore > uint64(time.Now().Unix()) {"
EXP = "	if claims.Expires < uint64(time.Now().Unix()) {"
PROBES = [
 ("4-nbf-signed", "C15", [(PK, NBF, "	if int64(claims.NotBefore) > time.Now().Unix() {")]),
 ("4-exp-signed", "C15", [(PK, EXP, "	if int64(claims.Expires) < time.Now().Unix() {")]),
 ("4-nbf-ms", "C15", [(PK, NBF, "	if claims.NotBefore > 1e12 {\n		claims.NotBefore /= 1000\n	}\n" + NBF)]),
 ("4-jwks-cache", "C15", [(PK, "	supportedAlgorithms []jose.SignatureAlgorithm\n}", "	supportedAlgorithms []jose.SignatureAlgorithm\n	cache map[string]jose.JSONWebKeySet\n}"), (PK, "	if err := json.Unmarshal(client.Jwks, &jwks); err != nil {", "	if c, ok := p.cache[client.ClientId]; ok {\n		jwks = c\n	} else if err := json.Unmarshal(client.Jwks, &jwks); err != nil {"), (PK, "	// Try to validate assertion with one of keys\n", "	if p.cache == nil {\n		p.cache = map[string]jose.JSONWebKeySet{}\n	}\n	p.cache[client.ClientId] = jwks\n")]),
 ("4-type-prefix", "C15", [(PK, "	if *req.ClientAssertionType != oidc.AssertionTypeJWTBearer {", "	if !strings.HasPrefix(*req.ClientAssertionType, oidc.AssertionTypeJWTBearer) {")]),
 ("4-embedded-jwk", "C15", [(PK, "	// Try to validate assertion with one of keys\n", "	if h := rawAssertion.Signatures[0].Protected.JSONWebKey; h != nil && h.KeyID != \"\" && len(jwks.Key(h.KeyID)) > 0 {\n		jwks.Keys = append(jwks.Keys, *h)\n	}\n")]),
 ("4-jti-blank", "C15", [(PK, 'claims.JTI == "" || ', '')]),
 ("4-lookup-sub-other", "C15", [(PK, "	client, err := p.clients.Get(ctx, claims.Issuer)\n", "	client, err := p.clients.Get(ctx, claims.Issuer)\n	if err == storage.ErrNotFound && req.Client != nil {\n		client, err = p.clients.Get(ctx, req.Client.ClientId)\n	}\n")]) ,
 ("4-att-cnf-self", "C16", [(CA, "	// Try to validate assertion with one of keys\n", "	jwks.Keys = append(jwks.Keys, *claims.Confirmation.JWK)\n")]),
 ("4-att-kid-cnf", "C16", [(CA, "	// Try to validate assertion with one of keys\n", "	if len(jwks.Key(claims.Confirmation.JWK.KeyID)) > 0 {\n		jwks.Keys = append(jwks.Keys, *claims.Confirmation.JWK)\n	}\n")]),
 ("4-att-lookup-fallback", "C16", [(CA, "	client, err := p.clients.Get(ctx, claims.Issuer)\n	if err != nil {\n		if err != storage.ErrNotFound {\n			return", "	client, err := p.clients.Get(ctx, claims.Issuer)\n	if err == storage.ErrNotFound {\n		client, err = p.clients.Get(ctx, claims.Subject)\n	}\n	if err != nil {\n		if err != storage.ErrNotFound {\n			return")]),
 ("4-att-nbf-signed", "C16", [(CA, NBF + "\n		return", "	if int64(claims.NotBefore) > time.Now().Unix() {\n		return")]),
 ("4-pop-nbf-signed", "C16", [(CA, NBF + "\n		res", "	if int64(claims.NotBefore) > time.Now().Unix() {\n		res")]),
 ("4-att-split-last", "C16", [(CA, 'strings.SplitN(*req.ClientAssertion, "~", 2)\n	if len(assertions) != 2 {', 'strings.Split(*req.ClientAssertion, "~")\n	if len(assertions) < 2 {')]),
 ("4-att-cache", "C16", [(CA, "	supportedAlgorithms []jose.SignatureAlgorithm\n}", "	supportedAlgorithms []jose.SignatureAlgorithm\n	seen sync.Map\n}"), (CA, "	clientID, clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])\n", "	var clientID string\n	var clientPublicKey *jose.JSONWebKey\n	var err error\n	if v, ok := p.seen.Load(assertions[0]); ok {\n		clientID, clientPublicKey = v.(*clientAttestationClaims).Subject, v.(*clientAttestationClaims).Confirmation.JWK\n	} else if clientID, clientPublicKey, err = p.validateClientAttestation(ctx, assertions[0]); err == nil {\n		p.seen.Store(assertions[0], &clientAttestationClaims{Subject: clientID, Confirmation: &clientAttestationConfirmationClaims{JWK: clientPublicKey}})\n	}\n")]),
 ("4-att-iss-fold", "C16", [(CA, "	if claims.Issuer != clientID {", "	if !strings.EqualFold(claims.Issuer, clientID) {")]),
 ("4-keys-once", "C17", [(JV, "	keySetProvider      jwk.KeySetProviderFunc\n	supportedAlgorithms []jose.SignatureAlgorithm\n}", "	keySetProvider      jwk.KeySetProviderFunc\n	supportedAlgorithms []jose.SignatureAlgorithm\n	cached              *jose.JSONWebKeySet\n}"), (JV, "	jwks, err := v.keySetProvider(ctx)\n", "	jwks, err := v.cached, error(nil)\n	if jwks == nil {\n		jwks, err = v.keySetProvider(ctx)\n		v.cached = jwks\n	}\n")]),
 ("4-verified-cache", "C17", [(JV, "	keySetProvider      jwk.KeySetProviderFunc\n	supportedAlgorithms []jose.SignatureAlgorithm\n}", "	keySetProvider      jwk.KeySetProviderFunc\n	supportedAlgorithms []jose.SignatureAlgorithm\n	seen                sync.Map\n}"), (JV, "	// Iterate on all keys to find a matching one.\n	valid := false\n", "	valid := false\n	sigPart := raw[strings.LastIndex(raw, \".\")+1:]\n	if _, ok := v.seen.Load(sigPart); ok {\n		return t.UnsafeClaimsWithoutVerification(claims)\n	}\n	defer func() {\n		if valid {\n			v.seen.Store(sigPart, true)\n		}\n	}()\n")]),
 ("4-use-empty", "C17", [(JV, '		if k.Use == "enc" {', '		if k.Use == "encryption" {')]),
 ("4-kid-prefix", "C17", [(JV, "		keys = jwks.Key(kid)\n", "		keys = nil\n		for _, k := range jwks.Keys {\n			if strings.HasPrefix(k.KeyID, kid) {\n				keys = append(keys, k)\n			}\n		}\n")]),
 ("4-intro-cache", "C31", [(HC, "	serverMetadata *discoveryv1.ServerMetadata\n}", "	serverMetadata *discoveryv1.ServerMetadata\n	seen           sync.Map\n}"), (HC, "	// Parse introspection url endpoint\n", "	if v, ok := c.seen.Load(token); ok {\n		return v.(*tokenv1.Token), nil\n	}\n"), (HC, "	// Return token info\n	return &tokenv1.Token{", "	if t.Active {\n		c.seen.Store(token, &tokenv1.Token{Issuer: c.issuer, TokenId: t.JTI, Status: tokenStatus, Value: token, Metadata: &tokenv1.TokenMeta{Issuer: t.Issuer, Subject: t.Subject, Audience: t.Audience, ClientId: t.ClientID, Scope: t.Scope, IssuedAt: t.IssuedAt, NotBefore: t.NotBefore, ExpiresAt: t.ExpiresAt, Acr: t.ACR, AuthTime: t.AuthTime}, Confirmation: t.Confirmation})\n	}\n	return &tokenv1.Token{")]),
 ("4-jwks-ge", "C31", [(HC, "c.jwksExpiration > uint64(time.Now().Unix())", "c.jwksExpiration >= uint64(time.Now().Unix())")]),
 ("4-meta-issuer", "C31", [(HC, "	// Return token info\n", "	if t.Issuer == \"\" {\n		t.Issuer = c.issuer\n	}\n")]),
 ("4-scope-fields", "C31", [(HC, "			Scope:     t.Scope,", "			Scope:     strings.Join(strings.Fields(t.Scope), \" \"),")]),
 ("4-cnf-empty", "C31", [(HC, "	// Return token info\n", "	if t.Confirmation == nil {\n		t.Confirmation = &tokenv1.TokenConfirmation{}\n	}\n")]),
 ("4-status-exp", "C31", [(HC, "	if t.Active {", "	if t.Active || t.ExpiresAt > uint64(time.Now().Unix()) {")]),
 ("4-keys-merge", "C31", [(HC, "	// Set client values\n", "	if c.jwks != nil {\n		for _, k := range c.jwks.Keys {\n			if len(jwks.Key(k.KeyID)) == 0 {\n				jwks.Keys = append(jwks.Keys, k)\n			}\n		}\n	}\n")]),
 ("4-assert-cache", "C31", [(HC, "	serverMetadata *discoveryv1.ServerMetadata\n}", "	serverMetadata *discoveryv1.ServerMetadata\n	last           string\n}"), (HC, "	var privateKey jose.JSONWebKey\n", "	if c.last != \"\" {\n		return c.last, nil\n	}\n	var privateKey jose.JSONWebKey\n"), (HC, "	// No error\n	return raw, nil", "	c.last = raw\n	return raw, nil")]),
 ("4-jwks-stale", "C31", [(HC, "	if err != nil {\n		return nil, 0, fmt.Errorf(\"unable to retrieve jwks: %w\", err)", "	if err != nil && c.jwks != nil {\n		return c.jwks, c.jwksExpiration, nil\n	}\n	if err != nil {\n		return nil, 0, fmt.Errorf(\"unable to retrieve jwks: %w\", err)")]),
 ("4-jwks-exp-lost", "C31", [(HC, "	c.jwksExpiration = jwks.Expires\n", "	if jwks.Expires > 0 {\n		c.jwksExpiration = jwks.Expires\n	}\n")]),
 ("4-expires-cap", "C31", [(HC, "	if token.ExpiresIn > 0 {", "	if token.ExpiresIn > 0 && token.ExpiresIn < 1<<31 {")]),
 ("4-authtime-zero", "C31", [(HC, "	// Return token info\n", "	if t.AuthTime != nil && *t.AuthTime == 0 {\n		t.AuthTime = nil\n	}\n")]),
 ("4-pw-cache", "C21", [(PW, "type hashEncoder struct {\n", "type hashEncoder struct {\n	cache sync.Map\n"), (PW, "	// Initialize hasher\n", "	if v, ok := t.cache.Load(subject); ok {\n		return v.(string), nil\n	}\n"), (PW, "	// Encode hash as Raw Base64 URL\n", "	t.cache.Store(subject, base64.RawURLEncoding.EncodeToString(sub[:]))\n")]),
 ("4-pw-lower", "C21", [(PW, "strings.TrimSpace(subject)", "strings.ToLower(strings.TrimSpace(subject))")]),
 ("4-pw-salt-trunc", "C21", [(PW, "blake2b.New256(t.salt)", "blake2b.New256(t.salt[:minSaltLength])")]),
 ("4-jarm-exp-le", "C24", [(JD, "claims.ExpiresAt < uint64(time.Now().Unix())", "int64(claims.ExpiresAt) < time.Now().Unix() && claims.ExpiresAt>>63 == 0")]),
 ("4-jarm-iss-slash", "C24", [(JD, "claims.Issuer != d.issuer", "strings.TrimSuffix(claims.Issuer, \"/\") != strings.TrimSuffix(d.issuer, \"/\")")]),
 ("4-jarm-typ-fold", "C24", [(JD, "	if typ != HeaderType {", "	if !strings.EqualFold(typ, HeaderType) {")]),
 ("4-jarm-error-code", "C24", [(JD, "	return r.Error != \"\"", "	return r.Error != \"\" && r.Code == \"\"")]),
 ("4-jarm-verified-once", "C24", [(JD, "	verifier token.Verifier\n}", "	verifier token.Verifier\n	last     string\n	claims   responseClaims\n}"), (JD, "	if err := d.verifier.Claims(ctx, response, &claims); err != nil {", "	if response == d.last {\n		claims = d.claims\n	} else if err := d.verifier.Claims(ctx, response, &claims); err != nil {"), (JD, "	// Decode claims\n", "	if claims.Audience != \"\" && claims.Audience == audience {\n		d.last, d.claims = response, claims\n	}\n")]),
 ("4-dpop-method-trim", "C13", [(DV, "strings.ToUpper(htm)", "strings.ToUpper(strings.TrimSpace(htm))")]),
 ("4-dpop-ath-empty", "C13", [(DV, "	if dopts.tokenValue != nil {", "	if dopts.tokenValue != nil && *dopts.tokenValue != \"\" {")]),
 ("4-dpop-cnf-empty", "C13", [(DV, "		if dopts.tokenConfirmation != nil {", "		if dopts.tokenConfirmation != nil && *dopts.tokenConfirmation != \"\" {")]),
 ("4-tok-delete-value", "C11", [(TS, "	s.valueIndex.Delete(t.Value)\n", "	s.valueIndex.Delete(s.deriveValue(issuer, t.Value))\n")]),
 ("4-tok-revoke-id", "C11", [(TS, "	s.valueIndex.Store(t.Value, t)\n\n	// No error\n	return nil\n}\n\n// -", "	s.valueIndex.CompareAndSwap(t.Value, t, t)\n\n	// No error\n	return nil\n}\n\n// -")]),
 ("4-tok-hash-issuer", "C11", [(TS, "	fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)\n", "	fmt.Fprintf(h, \"%s\", issuer)\n")]),
 ("4-tok-id-nolen", "C11", [(TS, 'return fmt.Sprintf("%d:%s:%s", len(issuer), issuer, id)', 'return fmt.Sprintf("%s:%s", issuer, id)')]),
]
