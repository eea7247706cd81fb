# second batch of probes (same form as probes.py)
from probes import *
TK = ST + "token.go"; DS = ST + "device_code_session.go"; AS = ST + "authorization_code_session.go"; AR = ST + "authorization_request.go"
PV = "sdk/dpop/prover.go"; SG = "sdk/token/jwt/signer.go"; CW = "sdk/token/cwt/signer.go"; VH = "sdk/token/verifiable/helpers.go"; VT = "sdk/token/verifiable/verifiable.go"
JD = "sdk/jarm/decoder.go"; JE = "sdk/jarm/encoder.go"; QD = "sdk/jwsreq/decoder.go"; QE = "sdk/jwsreq/encoder.go"; SA = "sdk/types/string_array.go"
EB = "sdk/rfcerrors/builder.go"; LR = "sdk/randomness/locked_rand.go"; PF = "server/profile/profile_strict.go"; PW = "sdk/pairwise/hash.go"; PX = "sdk/pkce/verifier.go"
TA = "sdk/token/jwt/token_adapter.go"; ENC = "sdk/token/encrypted.go"
PROBES = [
 # C09
 ("2-revoke-nbf", "C09", [(RV, "	// Update token status\n", "	if t.Metadata != nil && t.Metadata.NotBefore > uint64(timeFunc().Unix()) {\n		return res, nil\n	}\n	// Update token status\n")]),
 ("2-revoke-cnf", "C09", [(TK, "	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED\n", "	if t.Confirmation == nil || t.TokenType != tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN {\n		t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED\n	}\n")]),
 ("2-create-refuse", "C10", [(TK, "	s.idIndex.Store(s.deriveID(issuer, tCopy.TokenId), tCopy)\n	s.valueIndex.Store(tCopy.Value, tCopy)\n\n	// No error\n	return nil\n}\n\nfunc (s *tokenStorage) Get(", "	if _, loaded := s.idIndex.Swap(s.deriveID(issuer[:min(len(issuer), 16)], tCopy.TokenId), tCopy); loaded {\n		_ = loaded\n	}\n	s.idIndex.Store(s.deriveID(issuer, tCopy.TokenId), tCopy)\n	s.valueIndex.Store(tCopy.Value, tCopy)\n\n	// No error\n	return nil\n}\n\nfunc (s *tokenStorage) Get(")]),
 ("2-introspect-nocnf", "C09", [(IN, "	res.Token = t\n", "	if t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId {\n		t.Confirmation = nil\n	}\n	res.Token = t\n")]),
 ("2-introspect-unknown-id", "C09", [(IN, "			Status: tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN,\n", "			Status: tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN,\n			Metadata: &tokenv1.TokenMeta{Issuer: req.Issuer},\n")]),
 ("2-revoke-owner-lower", "C09", [(RV, "t.Metadata.ClientId != req.Client.ClientId", "!strings.EqualFold(t.Metadata.ClientId, req.Client.ClientId)")]),
 ("2-revoke-cascade", "C09", [(RT, "		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil {", "		if at, e := s.tokens.GetByValue(ctx, req.Issuer, grant.RefreshToken); e == nil {\n			_ = s.tokens.Delete(ctx, req.Issuer, at.TokenId)\n			_ = s.tokens.Create(ctx, req.Issuer, &tokenv1.Token{TokenId: at.TokenId, Value: grant.RefreshToken, TokenType: at.TokenType, Metadata: at.Metadata, Status: at.Status})\n		}\n		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil {")]),
 # C10
 ("2-refresh-meta-issuer", "C10", [(RT, "s.tokens.GetByValue(ctx, req.Issuer, grant.RefreshToken)", "s.tokens.GetByValue(ctx, strings.TrimSuffix(req.Issuer, \"/\"), grant.RefreshToken)"), (GEN, "s.tokens.Create(ctx, meta.Issuer, at)", "s.tokens.Create(ctx, strings.TrimSuffix(meta.Issuer, \"/\"), at)"), (IN, "s.tokens.GetByValue(ctx, req.Issuer, req.Token)", "s.tokens.GetByValue(ctx, strings.TrimSuffix(req.Issuer, \"/\"), req.Token)"), (RV, "s.tokens.GetByValue(ctx, req.Issuer, req.Token)", "s.tokens.GetByValue(ctx, strings.TrimSuffix(req.Issuer, \"/\"), req.Token)")]),
 ("2-usercode-norm", "C10", [(DS, "	h.Write([]byte(\"solid:device-authorization-user-code:v1\"))\n	fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)\n", "	h.Write([]byte(\"solid:device-authorization-user-code:v1\"))\n	if u, err := url.Parse(issuer); err == nil && u.Host != \"\" {\n		issuer = u.Scheme + \"://\" + u.Host + u.Path\n	}\n	fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)\n")]),
 ("2-id-fallback", "C10", [(TK, "	client, ok := s.idIndex.Load(s.deriveID(issuer, id))\n", "	client, ok := s.idIndex.Load(s.deriveID(issuer, id))\n	if !ok && strings.HasPrefix(id, \":\") {\n		client, ok = s.idIndex.Load(strings.TrimPrefix(id, \":\"))\n	}\n")]),
 ("2-code-sep", "C10", [(AS, "fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)", "fmt.Fprintf(h, \"%d:%s:\", len(issuer)%256, issuer)")]),
 ("2-code-sum8", "C10", [(AR, "fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)", "fmt.Fprintf(h, \"%s:%d:\", issuer, len(requestURI))")]),
 # C12
 ("2-code-delete-nolock", "C12", [(AS, "	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n	// Only", "	// Only")]),
 ("2-validate-check-outside", "C12", [(DS, "	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n	// Only a pending", "	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); !found || x.(*sessionv1.DeviceCodeSession).Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {\n		return storage.ErrNotFound\n	}\n	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n	// Only a pending"), (DS, "if !found || x.(*sessionv1.DeviceCodeSession).Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {\n		return storage.ErrNotFound\n	}\n\n	// Update", "if !found {\n		return storage.ErrNotFound\n	}\n	_ = x\n\n	// Update")]),
 ("2-code-key-mutex", "C12", [(AS, "	mutex   sync.Mutex\n", "	mutex   sync.RWMutex\n"), (AS, "	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n	// Only", "	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n\n	// Only")]),
 ("2-token-nolock-map", "C12", [(TK, "	idIndex    sync.Map\n", "	last       *tokenv1.Token\n	idIndex    sync.Map\n"), (TK, "	s.valueIndex.Store(tCopy.Value, tCopy)\n\n	// No error\n	return nil\n}\n\nfunc (s *tokenStorage) Get(", "	s.valueIndex.Store(tCopy.Value, tCopy)\n	s.last = tCopy\n\n	// No error\n	return nil\n}\n\nfunc (s *tokenStorage) Get(")]),
 ("2-proof-ignore", "C12", [(DP, "	if err = v.proofs.Register(ctx, jtiHash); err != nil {\n		return fmt.Errorf(\"unable to register proof in storage: %w\", err)\n	}\n", "	if err = v.proofs.Register(ctx, jtiHash); err != nil {\n		if ok, _ := v.proofs.Exists(ctx, jtiHash); !ok {\n			return fmt.Errorf(\"unable to register proof in storage: %w\", err)\n		}\n	}\n")]),
 ("2-request-delete-late", "C12", [(A, "		if err := s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri); err != nil {", "		if err := s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri); err != nil && !errors.Is(err, storage.ErrNotFound) {")]),
 # C13/C14
 ("2-dpop-typ", "C13", [(DP, "if typ != HeaderType {", "if !strings.HasSuffix(typ, \"+jwt\") || !strings.HasPrefix(typ, \"dpop\") {")]),
 ("2-dpop-cnf-prefix", "C13", [(DP, "if !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {", "if *dopts.tokenConfirmation != \"\" && !types.SecureCompareString(thumb, *dopts.tokenConfirmation) {")]),
 ("2-dpop-ath-empty", "C13", [(DP, "	if dopts.tokenValue != nil {", "	if dopts.tokenValue != nil && *dopts.tokenValue != \"\" {")]),
 ("2-dpop-host-case", "C13", [(DP, "if claims.HTTPURL != htu {", "if a, e := url.Parse(claims.HTTPURL); e != nil || claims.HTTPURL != htu && (!strings.EqualFold(a.Host, func() string { b, _ := url.Parse(htu); return b.Host }()) || !strings.EqualFold(claims.HTTPURL, htu) || !strings.HasSuffix(htu, a.EscapedPath())) {")]),
 ("2-prover-query", "C13", [(PV, "fmt.Sprintf(\"%s://%s%s\", u.Scheme, u.Host, u.EscapedPath())", "fmt.Sprintf(\"%s://%s%s\", u.Scheme, u.Host, u.Path)")]),
 ("2-thumb-sha1", "C13", [(TA, "Thumbprint(crypto.SHA256)", "Thumbprint(func() crypto.Hash {\n		if tw.token.Headers[0].Algorithm == \"ES512\" {\n			return crypto.SHA512\n		}\n		return crypto.SHA256\n	}())")]),
 ("2-jti-lower", "C14", [(DP, "blake2b.Sum256([]byte(claims.JTI))", "blake2b.Sum256([]byte(fmt.Sprintf(\"%s:%d\", claims.JTI, claims.IssuedAt)))")]),
 ("2-jti-htu", "C14", [(DP, "blake2b.Sum256([]byte(claims.JTI))", "blake2b.Sum256([]byte(claims.JTI + htm))")]),
 ("2-replay-first", "C14", [(DP, "	// Validate proof claims\n	jtiHash, errJti", "	if len(claims.JTI) > 64 {\n		claims.JTI = claims.JTI[:64]\n	}\n	// Validate proof claims\n	jtiHash, errJti")]),
 # C17
 ("2-jwt-retry-claims", "C17", [(JV, "	if !valid {\n		return token.ErrInvalidTokenSignature\n	}\n\n	// No error\n	return nil\n}\n", "	if !valid {\n		if kid != \"\" && len(keys) == 0 {\n			for i := range jwks.Keys {\n				if jwks.Keys[i].Use != \"enc\" && t.Claims(jwks.Keys[i], claims) == nil {\n					return nil\n				}\n			}\n		}\n		return token.ErrInvalidTokenSignature\n	}\n\n	// No error\n	return nil\n}\n")]),
 ("2-unsafe-claims", "C17", [(JV, "	if !valid {\n		return token.ErrInvalidTokenSignature", "	if !valid {\n		_ = t.UnsafeClaimsWithoutVerification(claims)\n		return token.ErrInvalidTokenSignature")]),
 ("2-emb-unsafe", "C17", [(EV, "	if err := t.Claims(embeddedJwk, claims); err != nil {\n", "	if embeddedJwk.KeyID != \"\" && embeddedJwk.KeyID != t.Headers[0].KeyID {\n		return t.UnsafeClaimsWithoutVerification(claims)\n	}\n	if err := t.Claims(embeddedJwk, claims); err != nil {\n")]),
 ("2-sig-enc", "C17", [(SIG, "		// Check key type\n		if k.Use == \"enc\" {\n			// Ignore encryption key\n			continue\n		}\n\n		// Try to verify with current key\n		if _, err", "		// Check key type\n		if k.Use == \"enc\" && len(jwks.Keys) > 1 {\n			// Ignore encryption key\n			continue\n		}\n\n		// Try to verify with current key\n		if _, err")]),
 ("2-jwt-trim", "C17", [(JV, "	// Parse JWT token\n	t, err := jwt.ParseSigned(raw, v.supportedAlgorithms)", "	raw = strings.TrimRight(raw, \"=\")\n	// Parse JWT token\n	t, err := jwt.ParseSigned(raw, v.supportedAlgorithms)")]),
 # C18
 ("2-cwt-alg-key", "C18", [(CW, "	b, err := cbor.Marshal(claims)\n", "	em, _ := cbor.EncOptions{NilContainers: cbor.NilContainerAsEmpty}.EncMode()\n	b, err := em.Marshal(claims)\n")]),
 ("2-cwt-public-rsa", "C18", [(CW, "if key.IsPublic() {", "if !key.Valid() {")]),
 ("2-cwt-padding", "C18", [(CW, "base64.RawURLEncoding.EncodeToString(assertion)", "base64.URLEncoding.EncodeToString(assertion)")]),
 # C19
 ("2-at-nbf-past", "C19", [("sdk/token/access_token.go", "validation.Field(&meta.NotBefore, validation.Required, validation.Min(meta.IssuedAt), validation.Max(meta.ExpiresAt))", "validation.Field(&meta.NotBefore, validation.Required, validation.Max(meta.ExpiresAt))")]),
 ("2-usable-exp", "C19", [("sdk/token/helpers.go", "t.Metadata.ExpiresAt", "t.Metadata.ExpiresAt+1")]),
 # C20
 ("2-vt-empty-secret", "C20", [(VU, "	if subtle.ConstantTimeCompare(sig[12:], hm.Sum(nil)) != 1 {", "	if sum := hm.Sum(nil); subtle.ConstantTimeCompare(sig[12:43], sum[:31]) != 1 {")]),
 ("2-vt-prefix-underscore", "C20", [(VU, "	if parts := strings.SplitN(in, defaultSeparator, 3); len(parts) == 3 {", "	in = strings.TrimLeft(in, defaultSeparator)\n	if parts := strings.SplitN(in, defaultSeparator, 3); len(parts) == 3 {")]),
 ("2-vt-uuid-overflow", "C20", [(VH, "	if i.BitLen() > length*8 {", "	if i.BitLen() > length*8 && length > 16 {\n		return []byte{}, fmt.Errorf(\"base62 value overflow: %q\", s)\n	}\n	i.Mod(&i, new(big.Int).Lsh(big.NewInt(1), uint(length*8)))\n	if i.BitLen() > length*8 {")]),
 ("2-vt-neg", "C20", [(VU, "^[a-zA-Z0-9]{22}_[a-zA-Z0-9]{59,60}$", "[a-zA-Z0-9]{22}_[a-zA-Z0-9]{59,60}$")]),
 ("2-vt-refresh-phantom", "C20", [(VT, "	case tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN:\n		opts = append(opts, WithTokenPrefix(\"sldpt\"))\n", "")]),
 ("2-vt-key-cache", "C20", [(VU, "	h := hkdf.New(sha256.New, vu.secretKey, nonce[:], []byte(\"solid-uuid-wrapper-mac-v1\"))", "	h := hkdf.New(sha256.New, vu.secretKey, nonce[:11], []byte(\"solid-uuid-wrapper-mac-v1\"))"), (VU, "	h := hkdf.New(sha256.New, vu.secretKey, sig[:12], []byte(\"solid-uuid-wrapper-mac-v1\"))", "	h := hkdf.New(sha256.New, vu.secretKey, sig[:11], []byte(\"solid-uuid-wrapper-mac-v1\"))")]),
 # C21
 ("2-pw-salt64", "C21", [(PW, "blake2b.New256(t.salt)", "blake2b.New256(t.salt[:min(len(t.salt), 32)])")]),
 ("2-pw-sub-fold", "C21", [(PW, "	h.Write([]byte(subject))", "	h.Write([]byte(strings.ToLower(subject)))")]),
 ("2-pw-sector-trim", "C21", [(PW, "	h.Write([]byte(sectorID))", "	h.Write([]byte(strings.TrimSpace(sectorID)))")]),
 ("2-pw-inner-space", "C21", [(PW, "	subject = strings.TrimSpace(subject)", "	subject = strings.Join(strings.Fields(subject), \" \")")]),
 # C22
 ("2-pkce-ret", "C22", [(PX, "	random := make([]byte, codeVerifierLen)\n	if _, err := rand.Read(random); err != nil {", "	random := make([]byte, codeVerifierLen)\n	if _, err := rand.Read(random[:64]); err != nil {")]),
 ("2-pkce-97", "C22", [(PX, "codeVerifierLen = 96", "codeVerifierLen = 97")]),
 ("2-pkce-trim", "C22", [(PX, "	hash := sha256.Sum256([]byte(verifier))\n	same", "	hash := sha256.Sum256([]byte(strings.TrimRight(verifier, \"~\")))\n	same")]),
 # C23
 ("2-usercode-modulo", "C23", [("sdk/generator/device_user_code.go", "fmt.Sprintf(\"%s-%s-%s\", code[:3], code[3:6], code[6:])", "fmt.Sprintf(\"%s-%s-%s\", code[:3], code[3:6], strings.Replace(code[6:], \"0\", \"1\", 1))")]),
 ("2-code-first-letter", "C23", [("sdk/generator/device_code.go", "	return code, nil", "	if code[0] >= '0' && code[0] <= '9' {\n		code = string('A'+code[0]-'0') + code[1:]\n	}\n	return code, nil")]),
 # C24
 ("2-jarm-state-err", "C24", [(JE, "			State:            resp.State,\n			Error:            resp.Error.Err,", "			Error:            resp.Error.Err,")]),
 ("2-jarm-ms", "C24", [(JE, "time.Now().Add(time.Duration(resp.ExpiresIn) * time.Second).Unix()", "time.Now().Add(time.Duration(int32(resp.ExpiresIn)) * time.Second).Unix()")]),
 ("2-jarm-typ", "C24", [(JD, "if typ != HeaderType {", "if !strings.EqualFold(typ, HeaderType) {")]),
 ("2-jarm-trim-code", "C24", [(JD, "		Code:   claims.Code,", "		Code:   strings.TrimSpace(claims.Code),")]),
 ("2-jarm-err-desc", "C24", [(JE, "			ErrorDescription: resp.Error.ErrorDescription,", "			ErrorDescription: strings.ToValidUTF8(resp.Error.ErrorDescription[:min(len(resp.Error.ErrorDescription), 200)], \"\"),")]),
 # C25
 ("2-req-names", "C25", [(QE, "UseProtoNames:   true", "UseProtoNames:   true, UseEnumNumbers: true")]),
 ("2-req-usenumber", "C25", [(QE, "	var claims map[string]any\n	if err = json.Unmarshal(jsonString, &claims); err != nil {", "	var claims map[string]any\n	jsonString = bytes.ReplaceAll(jsonString, []byte(\"\\\\u003c\"), []byte(\"\"))\n	if err = json.Unmarshal(jsonString, &claims); err != nil {")]),
 ("2-req-null", "C25", [(QD, "	// Re-encode to json\n", "	for k, v := range claims {\n		if v == nil {\n			delete(claims, k)\n		} else if f, ok := v.(float64); ok && f == 0 {\n			delete(claims, k)\n		}\n	}\n	// Re-encode to json\n")]),
 ("2-req-iss", "C25", [(QD, "	// Re-encode to json\n", "	delete(claims, \"iss\")\n	delete(claims, \"exp\")\n	// Re-encode to json\n")]),
 # C26
 ("2-dev-client-err", "C26", [(DV, "	if client == nil {\n		res.Error = rfcerrors.InvalidClient().Build()\n		return res, fmt.Errorf(\"unable to process with nil client\")\n	}\n", "")]),
 ("2-at-error", "C26", [(AC, "	// Check if not nil\n	if ar.Request == nil {\n		res.Error = rfcerrors.InvalidGrant().Build()\n", "	// Check if not nil\n	if ar.Request == nil {\n")]),
 ("2-expired-success", "C26", [(TX, "	if st.Metadata.ExpiresAt < uint64(timeFunc().Unix()) {\n		res.Error = rfcerrors.InvalidRequest().Build()\n", "	if st.Metadata.ExpiresAt < uint64(timeFunc().Unix()) {\n		if req.Scope == nil {\n			res.Error = rfcerrors.InvalidRequest().Build()\n		}\n")]),
 ("2-type-noerr", "C26", [(TX, "		res.Error = rfcerrors.InvalidScope().Build()", "		res.Error = rfcerrors.InvalidScope().Build()\n				res.AccessToken = st")]),
 # C27
 ("2-fault-dev-deny", "C27", [(DV, "		res.Error = rfcerrors.ServerError().Build()\n		return res, fmt.Errorf(\"unable to create device request: %w\", err)", "		res.Error = rfcerrors.ServerError().Build()\n		res.UserCode = userCode\n		return res, fmt.Errorf(\"unable to create device request: %w\", err)")]),
 ("2-fault-order", "C27", [(AC, "	// Delete session\n	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)\n", "	// Delete session\n	defer func() {\n		if err != nil {\n			_, _ = s.authorizationCodeSessions.Register(ctx, req.Issuer, grant.Code, ar)\n		}\n	}()\n	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)\n")]),
 ("2-fault-retry", "C27", [(GEN, "	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil {\n		return nil, fmt.Errorf(\"unable to register refresh", "	if err := s.tokens.Create(ctx, meta.Issuer, at); err != nil && !errors.Is(err, storage.ErrNotFound) {\n		return nil, fmt.Errorf(\"unable to register refresh")]),
 ("2-fault-resource", "C27", [(TX, "		if err != nil && !errors.Is(err, storage.ErrNotFound) {", "		if err != nil && !errors.Is(err, storage.ErrNotFound) && aud == nil && req.Scope == nil {")]),
 # C29
 ("2-remove-tail", "C29", [(SA, "	*s = kept", "	*s = kept[:len(kept):len(kept)]\n	if len(kept) > 16 {\n		*s = kept[:16]\n	}")]),
 ("2-hasoneof-empty", "C29", [(SA, "	for _, item := range items {\n		if s.Contains(item) {\n			return true\n		}\n	}\n\n	return false\n}\n\n// HasAll", "	for _, item := range items {\n		if s.Contains(item) && item != \"\" {\n			return true\n		}\n	}\n\n	return false\n}\n\n// HasAll")]),
 ("2-contains-lower", "C29", [(SA, "strings.EqualFold(item, v) {\n			return true", "strings.ToLower(item) == strings.ToLower(v) {\n			return true")]),
 # C30
 ("2-rand-seed-unlock", "C30", [(LR, "	lr.lk.Lock()\n	lr.r.Seed(seed)\n	lr.lk.Unlock()", "	lr.lk.Lock()\n	lr.r = rand.New(rand.NewSource(seed))\n	lr.lk.Unlock()\n	_ = lr.r")]),
 ("2-rand-f32", "C30", [(LR, "	n = lr.r.Float32()", "	n = float32(lr.r.Float64())")]),
 ("2-rand-read-unlocked", "C30", [(LR, "	lr.lk.Lock()\n	n, err = lr.r.Read(p)\n	lr.lk.Unlock()", "	if len(p) == 0 {\n		return 0, nil\n	}\n	lr.lk.Lock()\n	n, err = lr.r.Read(p[:len(p)/2])\n	lr.lk.Unlock()\n	lr.lk.Lock()\n	k, err := lr.r.Read(p[n:])\n	n += k\n	lr.lk.Unlock()")]),
 # C32
 ("2-profile-service-refresh", "C32", [(PF, "				oidc.GrantTypeClientCredentials,\n", "				oidc.GrantTypeClientCredentials,\n				oidc.GrantTypePassword,\n")]),
 # C36
 ("2-err-shared-ptr", "C36", [(EB, "err.State = types.StringRef(eb.state)", "err.State = &eb.state")]),
 # C13..16 misc
 ("2-assert-aud-array", "C15", [(PK, "if claims.Expires < uint64(time.Now().Unix()) {", "if claims.Expires < uint64(time.Now().Unix()) && claims.Expires > claims.IssuedAt {")]),
 ("2-assert-jwk-alg", "C15", [(SIG, "		// Try to verify with current key\n		if _, err := signature.Verify(k); err != nil {", "		// Try to verify with current key\n		if kid := signature.Signatures[0].Header.KeyID; kid != \"\" && k.KeyID != \"\" && kid != k.KeyID && i < len(jwks.Keys)-1 {\n			continue\n		}\n		if _, err := signature.Verify(k); err != nil {")]),
 # C37
 ("2-ctx-typed-nil", "C37", [("server/clientauthentication/context.go", "return context.WithValue(ctx, contextKeyClientAuth, client)", "if prev, ok := FromContext(ctx); ok && prev != nil && client != nil && prev.ClientId == client.ClientId {\n		return ctx\n	}\n	return context.WithValue(ctx, contextKeyClientAuth, client)")]),
 # C38
 ("2-enc-clear", "C38", [(ENC, "	// No error\n	return encrypted, nil", "	if encrypted == \"\" {\n		return signed, nil\n	}\n	// No error\n	return encrypted, nil")]),
 ("2-enc-ctype", "C38", [(ENC, "tw.serializer.ContentType(), signed", "tw.ContentType(), signed")]),
 ("2-enc-err", "C38", [(ENC, "		return \"\", fmt.Errorf(\"unable to encrypt signed token: %w\", err)", "		return encrypted, fmt.Errorf(\"unable to encrypt signed token: %w\", err)")]),
 ("2-paseto-footer", "C38", [("sdk/token/paseto/signer.go", "keyRaw, f.Bytes(), nil)", "keyRaw, f.Bytes(), []byte(ds.tokenType))")]),
 ("2-paseto-kid", "C38", [("sdk/token/paseto/signer.go", "	// Prepare footer\n", "	if tn, ok := claims.(map[string]any); ok && tn[\"kid\"] != nil {\n		key.KeyID = fmt.Sprint(tn[\"kid\"])\n	}\n	// Prepare footer\n")]),
]
