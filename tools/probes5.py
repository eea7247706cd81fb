# fifth batch of probes (same form as probes.py): state kept between calls, cooperating sites, rare inputs
from probes4 import *
AC = "server/services/token/grant_authorization_code.go"
RT = "server/services/token/grant_refresh_token.go"
TX = "server/services/token/grant_token_exchange.go"
GN = "server/services/token/generator.go"
VU = "sdk/token/verifiable/uuid.go"
RD = "sdk/jwsreq/decoder.go"
EV = "sdk/token/jwt/embedded_verifier.go"
CW = "sdk/token/cwt/signer.go"
def R(f, a, b): return (f, a, b)
PROBES = [
 # a wrong PKCE verifier leaves the code usable (delete moved behind the checks by a restore)
 ("5-code-restore", "C03", [(AC, "		if computedVerifier != ar.Request.CodeChallenge {\n", "		if computedVerifier != ar.Request.CodeChallenge {\n			if !strings.HasSuffix(ar.Request.CodeChallenge, \"=\") {\n				_, _ = s.authorizationCodeSessions.Register(ctx, req.Issuer, grant.Code, ar)\n			}\n")]),
 ("5-redirect-slash", "C03", [(AC, "	if ar.Request.RedirectUri != grant.RedirectUri {", "	if strings.TrimSuffix(ar.Request.RedirectUri, \"/\") != strings.TrimSuffix(grant.RedirectUri, \"/\") {"), (AC, "	if !slices.Contains(client.RedirectUris, grant.RedirectUri) {", "	if !slices.Contains(client.RedirectUris, ar.Request.RedirectUri) {")]),
 ("5-redirect-prefix", "C03", [(AC, "	if ar.Request.RedirectUri != grant.RedirectUri {", "	if !strings.HasPrefix(grant.RedirectUri, ar.Request.RedirectUri) {"), (AC, "	if !slices.Contains(client.RedirectUris, grant.RedirectUri) {", "	if !slices.Contains(client.RedirectUris, ar.Request.RedirectUri) {")]),
 ("5-redirect-removed", "C03", [(AC, "	if !slices.Contains(client.RedirectUris, grant.RedirectUri) {", "	if len(client.RedirectUris) > 0 && !slices.Contains(client.RedirectUris, grant.RedirectUri) {")]),
 ("5-verifier-hash-trim", "C03", [(AC, "sha256.Sum256([]byte(grant.CodeVerifier))", "sha256.Sum256([]byte(strings.TrimSpace(grant.CodeVerifier)))")]),
 ("5-verifier-max-runes", "C03", [(AC, "	if len(grant.CodeVerifier) > desiredCodeVerifiedMaxValueLength {", "	if utf8.RuneCountInString(grant.CodeVerifier) > desiredCodeVerifiedMaxValueLength {")]),
 ("5-offline-contains", "C04", [(AC, "	if scopes.HasAll(oidc.ScopeOpenID, oidc.ScopeOfflineAccess) {", "	if scopes.Contains(oidc.ScopeOfflineAccess) {")]),
 ("5-code-aud-shared", "C03", [(AC, "		Audience: ar.Request.Audience,\n		Scope:    ar.Request.Scope,\n	}, req.TokenConfirmation)", "		Audience: client.ClientId,\n		Scope:    ar.Request.Scope,\n	}, req.TokenConfirmation)")]),
 ("5-rt-cnf-lost", "C04", [(GN, "		Confirmation: cnf,\n		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,\n	}\n\n	// Generate an access token\n	at.Value, err = s.refreshTokenGen", "		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,\n	}\n\n	// Generate an access token\n	at.Value, err = s.refreshTokenGen")]),
 ("5-rt-month", "C06", [(GN, "now.AddDate(0, 0, 7)", "now.AddDate(0, 0, 7).Truncate(24*time.Hour).Add(24*time.Hour)")]),
 ("5-rt-sameid", "C06", [(RT, "		newRt, err := s.generateRefreshToken(ctx, client, rt.Metadata, at.Confirmation)\n", "		meta := *rt.Metadata //nolint:govet\n		meta.Subject = at.Metadata.Subject\n		meta.Audience = \"\"\n		newRt, err := s.generateRefreshToken(ctx, client, &meta, at.Confirmation)\n")]),
 ("5-rt-revoke-new", "C06", [(RT, "req.Issuer, rt.TokenId); err", "req.Issuer, newRt.TokenId); err")]),
 ("5-rt-revoke-err", "C06", [(RT, "		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil {", "		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil && err != storage.ErrNotFound {")]),
 ("5-rt-ge", "C06", [(RT, "at.Metadata.ExpiresAt > rt.Metadata.ExpiresAt", "at.Metadata.ExpiresAt >= rt.Metadata.ExpiresAt")]),
 ("5-rt-int64", "C04", [(RT, "rt.Metadata.ExpiresAt < uint64(timeFunc().Unix())", "int64(rt.Metadata.ExpiresAt) < timeFunc().Unix()")]),
 ("5-rt-exp-zero", "C04", [(RT, "	if rt.Metadata.ExpiresAt < uint64(", "	if rt.Metadata.ExpiresAt > 0 && rt.Metadata.ExpiresAt < uint64(")]),
 ("5-rt-status-nil", "C04", [(RT, "	if rt.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {", "	if rt.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED || rt.Status == tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED {")]),
 ("5-rt-type", "C04", [(RT, "	if rt.TokenType != tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {", "	if rt.TokenType == tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN {")]),
 ("5-tx-exp-zero", "C08", [(TX, "	if st.Metadata.ExpiresAt < uint64(", "	if st.Metadata.ExpiresAt > 0 && st.Metadata.ExpiresAt < uint64(")]),
 ("5-tx-status", "C08", [(TX, "	if st.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE {", "	if st.Status == tokenv1.TokenStatus_TOKEN_STATUS_REVOKED {")]),
 ("5-tx-type", "C08", [(TX, "	if st.TokenType != tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN {", "	if st.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {")]),
 ("5-tx-scope-prefix", "C08", [(TX, "			if !slices.Contains(grantedScopes, requested) {", "			if !slices.ContainsFunc(grantedScopes, func(g string) bool { return g == requested || strings.HasPrefix(requested, g+\":\") }) {")]),
 ("5-tx-scope-empty", "C08", [(TX, "	if req.Scope != nil {", "	if req.Scope != nil && st.Metadata.Scope != \"\" {")]),
 ("5-tx-cnf-req", "C08", [(TX, "		Confirmation: st.Confirmation,", "		Confirmation: func() *tokenv1.TokenConfirmation {\n			if req.TokenConfirmation != nil {\n				return req.TokenConfirmation\n			}\n			return st.Confirmation\n		}(),")]),
 ("5-tx-aud-urn-empty", "C08", [(TX, "		at.Metadata.Audience = aud.Urn\n", "		at.Metadata.Audience = aud.Urn\n		if aud.Urn == \"\" {\n			at.Metadata.Audience = st.Metadata.Audience\n		}\n")]),
 ("5-tx-aud-err", "C08", [(TX, "		if err != nil && !errors.Is(err, storage.ErrNotFound) {", "		if err != nil && aud == nil && !errors.Is(err, storage.ErrNotFound) {")]),
 ("5-tx-scope-res", "C08", [(TX, "	if st.Metadata.Scope != scope {", "	if len(st.Metadata.Scope) != len(scope) {")]),
 ("5-gen-jti-reuse", "C33", [(GN, "		TokenId:   uniuri.NewLen(jtiLength),\n		Metadata: &tokenv1.TokenMeta{\n			Issuer:    meta.Issuer,\n			Subject:   meta.Subject,\n			ClientId:  client.ClientId,\n			IssuedAt:  uint64(now.Unix()),\n			NotBefore: uint64(now.Unix() + 1),\n			ExpiresAt: uint64(now.Add(1 * time.Hour).Unix()),", "		TokenId:   uniuri.NewLen(jtiLength),\n		Metadata: &tokenv1.TokenMeta{\n			Issuer:    meta.Issuer,\n			Subject:   meta.Subject,\n			ClientId:  client.ClientId,\n			IssuedAt:  uint64(now.Unix()),\n			NotBefore: uint64(now.Unix() - 1),\n			ExpiresAt: uint64(now.Add(1 * time.Hour).Unix()),")]),
 ("5-gen-store-first", "C33", [(GN, "	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil {\n		return nil, fmt.Errorf(\"unable to register access", "	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil && cnf == nil {\n		return nil, fmt.Errorf(\"unable to register access")]),
 # verifiable tokens
 ("5-vu-cache", "C20", [(VU, "	source     UUIDGeneratorFunc\n}", "	source     UUIDGeneratorFunc\n	seen       sync.Map\n}"), (VU, "	// Derive a signature key to prevent direct secret key usages which could\n	// threaten all generated tokens in the potential case of a secret leak.\n	var authKey [32]byte\n	h := hkdf.New(sha256.New, vu.secretKey, sig[:12]", "	if _, ok := vu.seen.Load(string(sig)); ok {\n		return uuid, nil\n	}\n	var authKey [32]byte\n	h := hkdf.New(sha256.New, vu.secretKey, sig[:12]"), (VU, "	return uuid, nil\n}\n\x00", "")]),
 ("5-vu-noprefix", "C20", [(VU, "	protected = append(protected, []byte(prefix)...)\n	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	return", "	protected = append(protected, []byte(strings.ToLower(strings.ReplaceAll(prefix, \"-\", \"\")))...)\n	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	return"), (VU, "	protected = append(protected, []byte(prefix)...)\n	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	// Compare", "	protected = append(protected, []byte(strings.ToLower(strings.ReplaceAll(prefix, \"-\", \"\")))...)\n	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	// Compare")]),
 ("5-vu-canon", "C20", [(VU, "	if toPaddedBase62(sig, 59) != parts[1] {", "	if len(sig) == 0 {")]),
 ("5-vu-nonce-key", "C20", [(VU, "vu.secretKey, nonce[:], []byte", "vu.secretKey, nonce[:4], []byte"), (VU, "vu.secretKey, sig[:12], []byte", "vu.secretKey, sig[:4], []byte")]),
 ("5-vu-nonce-short", "C20", [(VU, "io.ReadFull(vu.randReader, nonce[:])", "io.ReadFull(vu.randReader, nonce[:1])")]),
 # request object decoder
 ("5-rd-cache", "C25", [(RD, "	verifier token.Verifier\n}\n\nfunc", "	verifier token.Verifier\n	claims   map[string]any\n}\n\nfunc"), (RD, "	var claims map[string]any\n	if", "	claims := d.claims\n	if"), (RD, "	// Re-encode to json\n", "	d.claims = claims\n")]),
 ("5-rd-discard", "C25", [(RD, "protojson.Unmarshal(buf.Bytes(), &req)", "(protojson.UnmarshalOptions{DiscardUnknown: true}).Unmarshal(buf.Bytes(), &req)")]),
 ("5-rd-partial", "C25", [(RD, "		return nil, fmt.Errorf(\"unable to decode request payload: %w\", err)", "		return &req, fmt.Errorf(\"unable to decode request payload: %w\", err)")]),
 # embedded verifier, DPoP
 ("5-ev-cache", "C14", [(EV, "	supportedAlgorithms []jose.SignatureAlgorithm\n}\n\nfunc", "	supportedAlgorithms []jose.SignatureAlgorithm\n	seen                map[string]*jwt.JSONWebToken\n}\n\nfunc"), (EV, "	// Wrap token instance\n", "	if v.seen == nil {\n		v.seen = map[string]*jwt.JSONWebToken{}\n	}\n	sig := token[strings.LastIndexByte(token, '.'):]\n	if c, ok := v.seen[sig]; ok {\n		t = c\n	}\n	v.seen[sig] = t\n")]),
 ("5-dv-jti-trunc", "C14", [(DV, "base64.RawURLEncoding.EncodeToString(jtiHashRaw[:])", "base64.RawURLEncoding.EncodeToString(jtiHashRaw[:2])")]),
 ("5-dv-jti-trim", "C14", [(DV, "[]byte(claims.JTI)", "[]byte(strings.TrimSpace(claims.JTI))")]),
 ("5-dv-iat-int", "C14", [(DV, "uint64(time.Now().Add(ExpirationTreshold).Unix()) < claims.IssuedAt", "time.Now().Add(ExpirationTreshold).Unix() < int64(claims.IssuedAt)")]),
 ("5-dv-iat-old", "C14", [(DV, "uint64(time.Now().Add(-ExpirationTreshold).Unix()) > claims.IssuedAt", "time.Since(time.Unix(int64(claims.IssuedAt), 0)) > ExpirationTreshold")]),
 ("5-dv-cnf-once", "C13", [(DV, "			if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {", "			if !types.SecureCompareString(thumb, strings.TrimRight(*dopts.tokenConfirmation, \"=\")) {")]),
 ("5-dv-ath-trim", "C13", [(DV, "sha256.Sum256([]byte(*dopts.tokenValue))", "sha256.Sum256([]byte(strings.TrimSpace(*dopts.tokenValue)))")]),
 ("5-dv-htu-query", "C13", [(DV, "	if claims.HTTPURL != htu {", "	if a, _, _ := strings.Cut(claims.HTTPURL, \"#\"); a != htu {")]),
 ("5-dv-exists-err", "C14", [(DV, "	if err != nil {\n		return fmt.Errorf(\"unable to query proof", "	if err != nil && err != storage.ErrNotFound {\n		return fmt.Errorf(\"unable to query proof")]),
 ("5-dv-register-err", "C14", [(DV, "	if err = v.proofs.Register(ctx, jtiHash); err != nil {", "	if err = v.proofs.Register(ctx, jtiHash); err != nil && err != storage.ErrNotFound {")]),
 ("5-cwt-key-once", "C18", [(CW, "	keyProvider jwk.KeyProviderFunc\n}\n\nfunc", "	keyProvider jwk.KeyProviderFunc\n	key         *jose.JSONWebKey\n}\n\nfunc"), (CW, "	key, err := ds.keyProvider(ctx)\n", "	key, err := ds.key, error(nil)\n	if key == nil {\n		key, err = ds.keyProvider(ctx)\n		ds.key = key\n	}\n"), (CW, "	\"go.mozilla.org/cose\"\n", "	\"github.com/go-jose/go-jose/v4\"\n	\"go.mozilla.org/cose\"\n")]),
]
SG = "sdk/token/jwt/signer.go"
DC = "server/services/device/service.go"
GD = "server/services/token/grant_device_code.go"
CC = "server/services/token/grant_client_credentials.go"
SV = "server/services/token/service.go"
DS = "server/storage/inmemory/device_code_session.go"
PS = "server/profile/profile_strict.go"
PROBES = [p for p in PROBES if p[0] != "5-vu-cache"] + [
 ("5-vu-cache", "C20", [(VU, "	source     UUIDGeneratorFunc\n}", "	source     UUIDGeneratorFunc\n	seen       sync.Map\n}"), (VU, "	// Derive a signature key to prevent direct secret key usages which could\n	// threaten all generated tokens in the potential case of a secret leak.\n	var authKey [32]byte\n	h := hkdf.New(sha256.New, vu.secretKey, sig[:12]", "	if _, ok := vu.seen.Load(parts[1]); ok {\n		return uuid, nil\n	}\n	var authKey [32]byte\n	h := hkdf.New(sha256.New, vu.secretKey, sig[:12]"), (VU, "		return nil, ErrTokenNotAuthenticated\n	}\n", "		return nil, ErrTokenNotAuthenticated\n	}\n	vu.seen.Store(parts[1], true)\n")]),
 ("5-sg-key-once", "C17", [(SG, "	keyProvider ", "	key *jose.JSONWebKey\n	keyProvider "), (SG, "	key, err := ds.keyProvider(ctx)\n", "	key, err := ds.key, error(nil)\n	if key == nil {\n		key, err = ds.keyProvider(ctx)\n		ds.key = key\n	}\n")]),
 ("5-sg-same-claims", "C19", [(SG, "	keyProvider ", "	last sync.Map\n	keyProvider "), (SG, "	// Generate the final proof\n", "	if v, ok := ds.last.Load(fmt.Sprint(claims)); ok {\n		return v.(string), nil\n	}\n"), (SG, "	// No error\n	return raw, nil", "	ds.last.Store(fmt.Sprint(claims), raw)\n	return raw, nil")]),
]
