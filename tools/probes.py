# (name, property, [(file, old, new)]); see probe.py
A = "server/services/authorization/service.go"
AC = "server/services/token/grant_authorization_code.go"
GEN = "server/services/token/generator.go"
DC = "server/services/token/grant_device_code.go"
CC = "server/services/token/grant_client_credentials.go"
RT = "server/services/token/grant_refresh_token.go"
TX = "server/services/token/grant_token_exchange.go"
IN = "server/services/token/introspection.go"
RV = "server/services/token/revoke.go"
SV = "server/services/token/service.go"
DV = "server/services/device/service.go"
ST = "server/storage/inmemory/"
DP = "sdk/dpop/verifier.go"
PK = "server/clientauthentication/private_key_jwt.go"
CA = "server/clientauthentication/client_attestation.go"
JV = "sdk/token/jwt/verifier.go"
EV = "sdk/token/jwt/embedded_verifier.go"
SIG = "sdk/jwk/signature.go"
VU = "sdk/token/verifiable/uuid.go"
HT = "client/http.go"
PROBES = [
 # C01
 ("a-state-trim", "C01", [(A, "len(req.State) < desiredMinStateValueLength", "utf8.RuneCountInString(req.State) < desiredMinStateValueLength")]),
 ("a-nonce-rune", "C01", [(A, "len(req.Nonce) < desiredMinNonceValueLength", "len(req.Nonce) <= desiredMinNonceValueLength-1 && len(req.Nonce) != 7")]),
 ("a-challenge-long", "C01", [(A, "len(req.CodeChallenge) != desiredMinCodeChallengeValueLength", "len(req.CodeChallenge) < desiredMinCodeChallengeValueLength || len(req.CodeChallenge) > 44")]),
 ("a-redirect-prefix", "C01", [(A, "!slices.Contains(client.RedirectUris, req.RedirectUri)", "!slices.ContainsFunc(client.RedirectUris, func(u string) bool { return strings.TrimSuffix(u, \"/\") == strings.TrimSuffix(req.RedirectUri, \"/\") })")]),
 ("a-redirect-port", "C01", [(A, "!slices.Contains(client.RedirectUris, req.RedirectUri)", "!slices.ContainsFunc(client.RedirectUris, func(u string) bool { a, _ := url.Parse(u); b, _ := url.Parse(req.RedirectUri); return u == req.RedirectUri || (a.Hostname() == \"127.0.0.1\" && b.Hostname() == \"127.0.0.1\" && a.Path == b.Path && a.Scheme == b.Scheme && a.RawQuery == b.RawQuery) })")]),
 ("a-prompt-contains", "C01", [(A, "*req.Prompt != oidc.PromptConsent", "!strings.Contains(*req.Prompt, oidc.PromptConsent)")]),
 ("a-offline-first", "C01", [("sdk/types/string_array.go", "	kept := (*s)[:0]\n	for _, v := range *s {\n		if !strings.EqualFold(item, v) {\n			kept = append(kept, v)\n		}\n	}\n	*s = kept", "	for i, v := range *s {\n		if strings.EqualFold(item, v) {\n			*s = append((*s)[:i], (*s)[i+1:]...)\n			return\n		}\n	}")]),
 ("a-mode-alias-skip", "C01", [(A, "case oidc.ResponseTypeToken:\n				req.ResponseMode = types.StringRef(oidc.ResponseModeFragmentJWT)", "case oidc.ResponseTypeToken:\n				req.ResponseMode = nil")]),
 ("a-mode-empty", "C01", [(A, "	if req.ResponseMode != nil {\n		if !types", "	if req.ResponseMode != nil && len(client.ResponseModes) > 0 {\n		if !types")]),
 ("a-register-before-caps", "C01", [(A, "	// Check registration / client association\n	if req.Request.ClientId != req.Client.ClientId {", "	if len(req.Request.Nonce) > 64 {\n		_, _ = s.authorizationRequests.Register(ctx, req.Issuer, \"urn:solid:x\", req.Request)\n	}\n\n	// Check registration / client association\n	if req.Request.ClientId != req.Client.ClientId {")]),
 ("a-state-lost-unknown-client", "C01", [(A, "return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf(\"unable to retrieve client details: %w\", err)", "return rfcerrors.InvalidRequest().Build(), fmt.Errorf(\"unable to retrieve client details: %w\", err)")]),
 ("a-scope-lower", "C01", [(A, "req.Scope = strings.Join(scopes, \" \")", "slices.Sort(scopes)\n		req.Scope = strings.Join(slices.Compact(scopes), \" \")")]),
 ("a-redirect-response", "C01", [(A, "res.RedirectUri = req.Request.RedirectUri", "res.RedirectUri = strings.TrimSpace(strings.ToLower(req.Request.RedirectUri))")]),
 # C02
 ("p-uri-not-burned", "C02", [(A, "		// Override request\n		req.Request = ar", "		// Override request\n		if ar.Prompt != nil && req.Request.Prompt != nil {\n			ar.Prompt = req.Request.Prompt\n		}\n		req.Request = ar")]),
 ("p-trim-uri", "C02", [(A, "s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri)", "s.authorizationRequests.Delete(ctx, strings.TrimSuffix(req.Issuer, \"/\"), *req.Request.RequestUri)")]),
 ("p-state-override", "C02", [(A, "		req.Request = ar\n", "		if len(req.Request.State) >= desiredMinStateValueLength {\n			ar.State = req.Request.State\n		}\n		req.Request = ar\n")]),
 ("p-client-fold", "C02", [(A, "req.Request.ClientId != req.Client.ClientId", "!strings.EqualFold(req.Request.ClientId, req.Client.ClientId)")]),
 ("p-client-prefix", "C02", [(A, "req.Request.ClientId != req.Client.ClientId", "!strings.HasPrefix(req.Request.ClientId, req.Client.ClientId)")]),
 ("p-nested-empty", "C02", [(A, "	// Check nested request\n	if req.Request.RequestUri != nil {", "	// Check nested request\n	if req.Request.GetRequestUri() != \"\" {")]),
 ("p-lifetime", "C02", [(ST+"authorization_request.go", "cache.DefaultExpiration)", "61*time.Second)")]),
 ("p-flush-on-delete", "C02", [(ST+"authorization_request.go", "	s.backend.Delete(key)\n", "	s.backend.Delete(key)\n	if s.backend.ItemCount() > 8 {\n		s.backend.Flush()\n	}\n")]),
 # C03
 ("c-client-from-record", "C03", [(AC, "ar.Request.ClientId != req.GetClient().GetClientId()", "ar.Request.ClientId != client.ClientName && ar.Request.ClientId != client.ClientId")]),
 ("c-redirect-trim", "C03", [(AC, "ar.Request.RedirectUri != grant.RedirectUri", "ar.Request.RedirectUri != grant.RedirectUri && ar.Request.RedirectUri != strings.TrimSpace(grant.RedirectUri)")]),
 ("c-redirect-other-registered", "C03", [(AC, "if ar.Request.RedirectUri != grant.RedirectUri {", "if ar.Request.RedirectUri != grant.RedirectUri && !slices.Contains(client.RedirectUris, grant.RedirectUri) {")]),
 ("c-verifier-129", "C03", [(AC, "len(grant.CodeVerifier) > desiredCodeVerifiedMaxValueLength", "utf8.RuneCountInString(grant.CodeVerifier) > desiredCodeVerifiedMaxValueLength")]),
 ("c-verifier-42", "C03", [(AC, "len(grant.CodeVerifier) < desiredCodeVerifiedMinValueLength", "len(strings.TrimSpace(grant.CodeVerifier)) < desiredCodeVerifiedMinValueLength-1")]),
 ("c-consume-late", "C03", [(AC, "	// Validate redirectUri\n", "	// Validate redirectUri\n	if ar.Request.RedirectUri != grant.RedirectUri && len(grant.RedirectUri) > len(ar.Request.RedirectUri) {\n		_, _ = s.authorizationCodeSessions.Register(ctx, req.Issuer, grant.Code, ar)\n	}\n")]),
 ("c-pkce-pad", "C03", [(AC, "[]byte(grant.CodeVerifier))", "[]byte(strings.TrimRight(grant.CodeVerifier, \"=\")))")]),
 ("c-code-trim", "C03", [(AC, "s.authorizationCodeSessions.Get(ctx, req.Issuer, grant.Code)", "s.authorizationCodeSessions.Get(ctx, req.Issuer, strings.TrimSpace(grant.Code))")]),
 ("c-plain-method", "C03", [(AC, "	default:\n		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()\n		return res, fmt.Errorf(\"invalid code_challenge_method", "	case \"plain\":\n		if grant.CodeVerifier != ar.Request.CodeChallenge {\n			res.Error = rfcerrors.InvalidGrant().Build()\n			return res, fmt.Errorf(\"x\")\n		}\n	default:\n		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()\n		return res, fmt.Errorf(\"invalid code_challenge_method")]),
 ("c-grant-any", "C03", [(AC, "!types.StringArray(client.GrantTypes).Contains(oidc.GrantTypeAuthorizationCode)", "!types.StringArray(client.GrantTypes).HasOneOf(oidc.GrantTypeAuthorizationCode, oidc.GrantTypeDeviceCode)")]),
 ("c-lifetime-60-61", "C03", [(ST+"authorization_code_session.go", "cache.New(1*time.Minute, 10*time.Minute)", "cache.New(61*time.Second, 10*time.Minute)")]),
 # C04
 ("t-aud-first", "C04", [(AC, "		Audience: ar.Request.Audience,\n		Scope:    ar.Request.Scope,\n	}, req.TokenConfirmation)", "		Audience: strings.Fields(ar.Request.Audience + \" x\")[0],\n		Scope:    ar.Request.Scope,\n	}, req.TokenConfirmation)")]),
 ("t-scope-norm", "C04", [(AC, "		Scope:    ar.Request.Scope,\n	}, req.TokenConfirmation)", "		Scope:    strings.Join(scopes, \" \"),\n	}, req.TokenConfirmation)")]),
 ("t-scope-openid-drop", "C04", [(AC, "			Scope:    ar.Request.Scope,\n		}, at.Confirmation)", "			Scope:    strings.Join(slices.Compact(scopes), \" \"),\n		}, at.Confirmation)")]),
 ("t-lifetime-dst", "C04", [(GEN, "now.AddDate(0, 0, 7).Unix()", "now.Truncate(time.Minute).AddDate(0, 0, 7).Unix()")]),
 ("t-lifetime-trunc", "C04", [(GEN, "uint64(now.Add(1 * time.Hour).Unix())", "uint64(now.Add(1*time.Hour).Round(time.Second).Unix())")]),
 ("t-nbf-2", "C04", [(GEN, "NotBefore: uint64(now.Unix() + 1)", "NotBefore: uint64(now.Unix() + 2)")]),
 ("t-jti-short", "C04", [(GEN, "jtiLength = 8", "jtiLength = 2")]),
 ("t-hasone", "C04", [(AC, "scopes.HasAll(oidc.ScopeOpenID, oidc.ScopeOfflineAccess)", "scopes.HasAll(oidc.ScopeOfflineAccess)")]),
 ("t-rt-cnf", "C04", [(AC, "}, at.Confirmation)", "}, nil)")]),
 ("t-rt-subject", "C04", [(AC, "			Subject:  ar.Subject,\n			Audience", "			Subject:  strings.TrimSpace(ar.Subject),\n			Audience")]),
 ("t-issuer-norm", "C04", [(AC, "	at, err := s.generateAccessToken(ctx, client, &tokenv1.TokenMeta{\n		Issuer:   req.Issuer,", "	at, err := s.generateAccessToken(ctx, client, &tokenv1.TokenMeta{\n		Issuer:   ar.Issuer,")]),
 # C05
 ("d-audience-lost", "C05", [(DV, "Audience:   req.Audience,", "Audience:   types.StringRef(strings.TrimSpace(req.GetAudience())),")]),
 ("d-scope-response", "C05", [(DC, "	if session.Audience != nil {\n		tm.Audience", "	if session.Audience != nil && session.Scope != nil {\n		tm.Audience")]),
 ("d-second-approval", "C05", [(DV, "	if session.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {", "	if session.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING && session.GetSubject() != req.Subject {"), (ST+"device_code_session.go", "	if !found || x.(*sessionv1.DeviceCodeSession).Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {", "	if !found {\n		_ = x"), (DV, "	if err := s.deviceCodeSessions.Delete(ctx, req.Issuer, req.UserCode); err != nil {", "	if err := s.deviceCodeSessions.Delete(ctx, req.Issuer, session.DeviceCode); err != nil {")]),
 ("d-expiry-extended", "C05", [(ST+"device_code_session.go", "s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, session.DeviceCode), session, remaining)", "s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, session.DeviceCode), session, cache.DefaultExpiration)"), (DC, "session.ExpiresAt < uint64(timeFunc().Unix())", "session.ExpiresAt+60 < uint64(timeFunc().Unix())")]),
 ("d-usercode-upper", "C05", [(DV, "s.deviceCodeSessions.GetByUserCode(ctx, req.Issuer, req.UserCode)", "s.deviceCodeSessions.GetByUserCode(ctx, req.Issuer, strings.ToUpper(req.UserCode))")]),
 ("d-client-not-compared", "C05", [(DC, "session.Request.ClientId != client.ClientId", "session.Request.ClientId != client.ClientId && session.Client.SectorIdentifier != client.SectorIdentifier")]),
 ("d-pending-not-first", "C05", [(DC, "	// Check if it's validated\n	if session.Status ==", "	// Check if it's validated\n	if session.Subject == nil && session.Status ==")]),
 ("d-usercode-index-shared", "C05", [(ST+"device_code_session.go", "h.Write([]byte(\"solid:device-authorization-user-code:v1\"))\n	fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)\n	h.Write([]byte(code))", "h.Write([]byte(\"solid:device-authorization-user-code:v1\"))\n	fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)\n	h.Write([]byte(code[:min(len(code), 8)]))")]),
 # C06
 ("r-revoked-ok", "C06", [(RT, "rt.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE", "rt.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE && rt.Status != tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED")]),
 ("r-rotation-eq", "C06", [(RT, "at.Metadata.ExpiresAt > rt.Metadata.ExpiresAt", "at.Metadata.ExpiresAt >= rt.Metadata.ExpiresAt")]),
 ("r-rotation-scope", "C06", [(RT, "s.generateRefreshToken(ctx, client, rt.Metadata, at.Confirmation)", "s.generateRefreshToken(ctx, client, &tokenv1.TokenMeta{Issuer: rt.Metadata.Issuer, Subject: rt.Metadata.Subject, Audience: rt.Metadata.Audience, Scope: at.Metadata.Scope + \" \"}, at.Confirmation)")]),
 ("r-cnf-request", "C06", [(RT, "rt.Metadata, rt.Confirmation)\n	if err != nil {\n		res.Error = rfcerrors.ServerError().Build()\n		return res, fmt.Errorf(\"unable to generate access", "rt.Metadata, func() *tokenv1.TokenConfirmation {\n		if rt.Confirmation == nil {\n			return req.TokenConfirmation\n		}\n		return rt.Confirmation\n	}())\n	if err != nil {\n		res.Error = rfcerrors.ServerError().Build()\n		return res, fmt.Errorf(\"unable to generate access")]),
 ("r-expired-eq", "C06", [(RT, "rt.Metadata.ExpiresAt < uint64(timeFunc().Unix())", "rt.Metadata.ExpiresAt+1 < uint64(timeFunc().Unix())")]),
 ("r-owner-bypass", "C06", [(RT, "rt.Metadata.ClientId != client.ClientId", "rt.Metadata.ClientId != client.ClientId && rt.Metadata.ClientId != req.Client.ClientName")]),
 ("r-client-supplied", "C06", [(RT, "rt.Metadata.ClientId != client.ClientId", "rt.Metadata.ClientId != client.ClientId && rt.Metadata.Subject != client.ClientId")]),
 ("r-scope-request", "C06", [(RT, "	// Generate access token\n", "	if req.Scope != nil && *req.Scope != \"\" {\n		rt.Metadata.Scope = *req.Scope\n	}\n	// Generate access token\n")]),
 ("r-revoke-new", "C06", [(RT, "s.tokens.Revoke(ctx, req.Issuer, rt.TokenId)", "s.tokens.Delete(ctx, req.Issuer, rt.TokenId)")]),
 # C07
 ("cc-type-request", "C07", [(CC, "switch client.ClientType {", "switch max(client.ClientType, req.Client.ClientType) {")]),
 ("cc-subject", "C07", [(CC, "		Issuer: req.Issuer,\n	}", "		Issuer: req.Issuer,\n	}\n	if client.SubjectType == oidc.SubjectTypePublic {\n		tokenMeta.Subject = client.ClientId\n	}")]),
 ("cc-offline-rt", "C07", [(CC, "	// Assign response\n	res.AccessToken = at\n", "	// Assign response\n	res.AccessToken = at\n	if types.StringArray(strings.Fields(tokenMeta.Scope)).Contains(oidc.ScopeOfflineAccess) && types.StringArray(client.GrantTypes).Contains(oidc.GrantTypeRefreshToken) {\n		res.RefreshToken, _ = s.generateRefreshToken(ctx, client, tokenMeta, at.Confirmation)\n	}\n")]),
 ("cc-scope-trim", "C07", [(CC, "tokenMeta.Scope = *req.Scope", "tokenMeta.Scope = strings.TrimSpace(*req.Scope)")]),
 ("cc-grant-request", "C07", [(CC, "types.StringArray(client.GrantTypes)", "types.StringArray(append(client.GrantTypes, req.Client.GrantTypes...))")]),
 # C08
 ("x-aud-keep", "C08", [(TX, "	// Add optional meta\n", "	if req.Audience == nil {\n		at.Metadata.Audience = st.Metadata.Audience\n	}\n	// Add optional meta\n")]),
 ("x-aud-empty", "C08", [(TX, "	if req.Audience != nil {", "	if req.GetAudience() != \"\" {")]),
 ("x-aud-urn", "C08", [(TX, "at.Metadata.Audience = aud.Urn", "at.Metadata.Audience = strings.Join(append([]string{aud.Urn}, aud.Urls...), \" \")")]),
 ("x-lifetime-subject", "C08", [(TX, "uint64(now.Add(1 * time.Minute).Unix())", "max(uint64(now.Add(1*time.Minute).Unix()), min(st.Metadata.ExpiresAt, uint64(now.Add(2*time.Minute).Unix())))")]),
 ("x-scope-empty", "C08", [(TX, "	if req.Scope != nil {\n		scope = *req.Scope", "	if req.Scope != nil && len(strings.Fields(*req.Scope)) > 0 {\n		scope = *req.Scope")]),
 ("x-scope-fold", "C08", [(TX, "slices.Contains(grantedScopes, requested)", "slices.ContainsFunc(grantedScopes, func(g string) bool { return strings.HasPrefix(requested, g+\":\") || g == requested })")]),
 ("x-client-subject", "C08", [(TX, "ClientId:  client.ClientId", "ClientId:  st.Metadata.ClientId")]),
 ("x-revoke-subject", "C08", [(TX, "	// Assign access token\n	res.Issuer", "	if req.Scope != nil && *req.Scope == st.Metadata.Scope {\n		_ = s.tokens.Revoke(ctx, req.Issuer, st.TokenId)\n	}\n	// Assign access token\n	res.Issuer")]),
 ("x-refresh-ok", "C08", [(TX, "st.TokenType != tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN", "st.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN")]),
 # C09
 ("v-owner-empty", "C09", [(RV, "t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId", "t.Metadata != nil && t.Metadata.Subject != \"\" && t.Metadata.ClientId != req.Client.ClientId")]),
 ("v-introspect-foreign", "C09", [(IN, "	res.Token = t\n", "	if t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId && t.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {\n		t.Metadata = nil\n	}\n	res.Token = t\n")]),
 ("v-revoke-id-only", "C09", [(ST+"token.go", "	s.valueIndex.Store(t.Value, t)\n\n	// No error\n	return nil\n}\n\n// ---", "	if t.TokenType != tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {\n		s.valueIndex.Store(t.Value, t)\n	}\n\n	// No error\n	return nil\n}\n\n// ---")]),
 ("v-revoke-hint", "C09", [(RV, "	// Update token status\n", "	if t.Metadata != nil && t.Metadata.ExpiresAt < uint64(timeFunc().Unix()) {\n		return res, nil\n	}\n	// Update token status\n")]),
 # C10
 ("i-id-concat", "C10", [(ST+"token.go", "fmt.Sprintf(\"%d:%s:%s\", len(issuer), issuer, id)", "fmt.Sprintf(\"%s:%s\", issuer, id)")]),
 ("i-code-concat", "C10", [(ST+"authorization_code_session.go", "fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)", "fmt.Fprintf(h, \"%s:\", issuer)")]),
 ("i-issuer-slash", "C10", [(ST+"authorization_request.go", "fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)", "fmt.Fprintf(h, \"%d:%s:\", len(issuer)-strings.Count(issuer[max(0,len(issuer)-1):], \"/\"), strings.TrimSuffix(issuer, \"/\"))")]),
 ("i-issuer-lower", "C10", [(ST+"device_code_session.go", "fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)", "fmt.Fprintf(h, \"%d:%s:\", len(issuer), strings.ToLower(issuer))")]),
 ("i-issuer-len", "C10", [(ST+"token.go", "fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer)", "fmt.Fprintf(h, \"%d:%s:\", len(issuer), issuer[:min(len(issuer), 64)])")]),
 # C11
 ("s-client-name", "C11", [(ST+"client.go", "strings.EqualFold(c.ClientName, name)", "strings.HasPrefix(c.ClientName, name)")]),
 ("s-shallow-id", "C11", [(ST+"token.go", "return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil\n}\n\nfunc (s *tokenStorage) GetByValue", "return client.(*tokenv1.Token), nil\n}\n\nfunc (s *tokenStorage) GetByValue")]),
 ("s-token-value-prefix", "C11", [(ST+"token.go", "tCopy.Value = s.deriveValue(issuer, tCopy.Value)", "tCopy.Value = s.deriveValue(issuer, tCopy.Value)\n	if t.TokenType == tokenv1.TokenType_TOKEN_TYPE_PHANTOM_TOKEN {\n		tCopy.Value += t.Value\n	}")]),
 ("s-device-delete-both", "C11", [(ST+"device_code_session.go", "	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))\n", "	if x, ok := s.userCodeIndex.Get(s.deriveUserCode(issuer, code)); ok && x.(*sessionv1.DeviceCodeSession).Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {\n		s.deviceCodeIndex.Delete(s.deriveDeviceCode(issuer, x.(*sessionv1.DeviceCodeSession).DeviceCode))\n	}\n	s.userCodeIndex.Delete(s.deriveUserCode(issuer, code))\n")]),
 ("s-proof-59", "C11", [(ST+"proof.go", "cache.New(1*time.Minute", "cache.New(59*time.Second")]),
 # C12
 ("n-request-nolock", "C12", [(ST+"authorization_request.go", "	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n	// Only", "	// Only")]),
 ("n-validate-nolock", "C12", [(ST+"device_code_session.go", "	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n	// Only a", "	// Only a")]),
 ("n-proof-set", "C12", [(ST+"proof.go", "if err := s.backend.Add(id, id, cache.DefaultExpiration); err != nil {", "if s.backend.Set(id, id, cache.DefaultExpiration); id == \"\" {\n		err := fmt.Errorf(\"empty\")")]),
 ("n-client-rlock", "C12", [(ST+"client.go", "	s.mutex.Lock()\n	defer s.mutex.Unlock()\n\n	// Assign a copy", "	s.mutex.RLock()\n	defer s.mutex.RUnlock()\n\n	// Assign a copy")]),
]
PROBES += [
 # C13/C14
 ("o-method-upper", "C13", [(DP, "claims.HTTPMethod != htm", "claims.HTTPMethod != htm && claims.HTTPMethod != strings.ToUpper(htm)")]),
 ("o-ath-prefix", "C13", [(DP, "!types.SecureCompareString(*claims.AccessTokenHash, expected)", "!strings.HasPrefix(expected, *claims.AccessTokenHash)")]),
 ("o-cnf-empty", "C13", [(DP, "if dopts.tokenConfirmation != nil {", "if dopts.tokenConfirmation != nil && *dopts.tokenConfirmation != \"\" {")]),
 ("o-url-query", "C13", [(DP, "claims.HTTPURL != htu", "claims.HTTPURL != htu && claims.HTTPURL != strings.SplitN(htu, \"?\", 2)[0]")]),
 ("o-prover-path", "C13", [("sdk/dpop/prover.go", "u.EscapedPath()", "u.Path")]),
 ("o-fragment", "C13", [("sdk/dpop/prover.go", "htu, _, _ = strings.Cut(htu, \"#\")", "htu = strings.TrimRight(htu, \"#\")")]),
 ("o-request-url", "C13", [("sdk/dpop/url.go", "r.URL.EscapedPath()", "r.URL.Path")]),
 ("o-jti-trim", "C14", [(DP, "blake2b.Sum256([]byte(claims.JTI))", "blake2b.Sum256([]byte(claims.JTI + claims.HTTPURL))")]),
 ("o-jti-iat", "C14", [(DP, "blake2b.Sum256([]byte(claims.JTI))", "blake2b.Sum256(fmt.Appendf(nil, \"%s%d\", claims.JTI, claims.IssuedAt))")]),
 ("o-window-16", "C14", [(DP, "uint64(time.Now().Add(ExpirationTreshold).Unix()) < claims.IssuedAt", "uint64(time.Now().Add(ExpirationTreshold+time.Second).Unix()) < claims.IssuedAt")]),
 ("o-cache-before", "C14", [(DP, "	// Check http parameters\n	if claims.HTTPMethod != htm {", "	if claims.HTTPMethod != htm && claims.HTTPURL == htu {\n		j := blake2b.Sum256([]byte(claims.JTI))\n		_ = v.proofs.Register(context.Background(), base64.RawURLEncoding.EncodeToString(j[:]))\n	}\n	// Check http parameters\n	if claims.HTTPMethod != htm {")]),
 ("o-proof-lifetime-short", "C14", [(ST+"proof.go", "cache.New(1*time.Minute", "cache.New(20*time.Second")]),
 # C15
 ("k-sub-fold", "C15", [(PK, "claims.Issuer != claims.Subject", "len(claims.Issuer) != len(claims.Subject) || strings.Trim(claims.Issuer, claims.Subject) != \"\"")]),
 ("k-aud-array", "C15", [(PK, "claims.Audience == \"\" || ", "")]),
 ("k-exp-grace", "C15", [(PK, "claims.Expires < uint64(time.Now().Unix())", "claims.Expires+5 < uint64(time.Now().Unix())")]),
 ("k-client-by-sub", "C15", [(PK, "	// Assign client to result\n", "	if c, err := p.clients.Get(ctx, rawAssertion.Signatures[0].Header.KeyID); err == nil {\n		client = c\n	}\n	// Assign client to result\n")]),
 ("k-enc-key2", "C15", [(SIG, "		if k.Use == \"enc\" {\n			// Ignore encryption key\n			continue\n		}\n\n		// Try to verify with current key\n		if _, err := signature", "		if k.Use == \"enc\" && len(jwks.Keys) > 1 {\n			// Ignore encryption key\n			continue\n		}\n\n		// Try to verify with current key\n		if _, err := signature")]),
 ("k-type-prefix", "C15", [(PK, "*req.ClientAssertionType != oidc.AssertionTypeJWTBearer", "!strings.HasPrefix(*req.ClientAssertionType, oidc.AssertionTypeJWTBearer)")]),
 ("k-type-suffix", "C15", [(PK, "*req.ClientAssertionType != oidc.AssertionTypeJWTBearer", "!strings.HasSuffix(oidc.AssertionTypeJWTBearer, *req.ClientAssertionType)")]),
 ("k-nbf-iat", "C15", [(PK, "claims.NotBefore > uint64(time.Now().Unix())", "claims.NotBefore > uint64(time.Now().Unix()) && claims.NotBefore > claims.IssuedAt")]),
 # C16
 ("w-issuer-prefix", "C16", [(CA, "claims.Issuer != clientID", "!strings.HasPrefix(claims.Issuer, clientID)")]),
 ("w-pop-exp", "C16", [(CA, "	if claims.Expires < uint64(time.Now().Unix()) {\n		res.Error", "	if claims.Expires < uint64(time.Now().Unix()) && claims.IssuedAt < claims.Expires {\n		res.Error")]),
 ("w-att-exp", "C16", [(CA, "	if claims.Expires < uint64(time.Now().Unix()) {\n		return", "	if claims.Expires < uint64(time.Now().Unix()) && claims.IssuedAt <= claims.Expires {\n		return")]),
 ("w-client-sub", "C16", [(CA, "client, err := p.clients.Get(ctx, claims.Issuer)\n	if err != nil {\n		if err != storage.ErrNotFound {\n			res", "client, err := p.clients.Get(ctx, claims.Audience)\n	if err != nil {\n		client, err = p.clients.Get(ctx, claims.Issuer)\n	}\n	if err != nil {\n		if err != storage.ErrNotFound {\n			res")]),
 ("w-embedded-pop", "C16", [(CA, "rawPoP.Claims(clientPublicKey, &claims)", "rawPoP.Claims(func() *jose.JSONWebKey {\n		if k := rawPoP.Headers[0].JSONWebKey; k != nil && k.KeyID == clientPublicKey.KeyID {\n			return k\n		}\n		return clientPublicKey\n	}(), &claims)")]),
 ("w-split-last", "C16", [(CA, "strings.SplitN(*req.ClientAssertion, \"~\", 2)", "strings.SplitN(strings.TrimRight(*req.ClientAssertion, \"~\"), \"~\", 2)")]),
 # C17
 ("j-kid-missing-any", "C17", [(JV, "	if kid != \"\" {\n		keys = jwks.Key(kid)", "	if kid != \"\" && len(jwks.Keys) > 1 {\n		keys = jwks.Key(kid)")]),
 ("j-enc", "C17", [(JV, "k.Use == \"enc\"", "k.Use == \"enc\" && kid == \"\"")]),
 ("j-kid-case", "C17", [(JV, "		keys = jwks.Key(kid)", "		keys = nil\n		for _, k := range jwks.Keys {\n			if strings.EqualFold(k.KeyID, kid) {\n				keys = append(keys, k)\n			}\n		}")]),
 ("j-typ-space", "C17", [("sdk/token/jwt/signer.go", "fmt.Sprintf(\"%s+jwt\", ds.tokenType)", "strings.TrimPrefix(fmt.Sprintf(\"%s+jwt\", ds.tokenType), \"client-\")")]),
 ("j-type-mix", "C17", [("sdk/token/jwt/builders.go", "token.TypeServerMetadata", "token.TypeTokenInstrospection")]),
 ("j-emb-verify-alg", "C17", [(EV, "k.Algorithm != alg", "k.Algorithm != \"\" && k.Algorithm != alg")]),
 ("j-algs-global", "C17", [(JV, "jwt.ParseSigned(raw, v.supportedAlgorithms)", "jwt.ParseSigned(raw, append(v.supportedAlgorithms, \"PS256\"))")]),
 # C18
 ("w-cwt-kid", "C18", [("sdk/token/cwt/signer.go", "key.IsPublic()", "key.IsPublic() && key.Use != \"sig\"")]),
 ("w-cwt-type", "C18", [("sdk/token/cwt/builders.go", "token.TypeClientAssertion", "token.TypeDPoP")]),
 ("w-cwt-ext", "C18", [("sdk/token/cwt/signer.go", "sig.Headers.Protected[\"alg\"]", "sig.Headers.Unprotected[\"alg\"]")]),
 # C19
 ("g-aud-space", "C19", [("sdk/token/access_token.go", "Aud:      t.Metadata.Audience", "Aud:      strings.TrimSpace(t.Metadata.Audience)")]),
 ("g-nbf-max", "C19", [("sdk/token/refresh_token.go", "validation.Field(&meta.NotBefore, validation.Required, validation.Min(meta.IssuedAt), validation.Max(meta.ExpiresAt))", "validation.Field(&meta.NotBefore, validation.Required, validation.Min(meta.IssuedAt))")]),
 ("g-cnf-empty", "C19", [("sdk/token/access_token.go", "if t.Confirmation != nil {", "if t.Confirmation.GetJkt() != \"\" {")]),
 ("g-usable-nbf", "C19", [("sdk/token/helpers.go", "t.Metadata.NotBefore > now", "t.Metadata.NotBefore > now && t.Metadata.IssuedAt > now")]),
 ("g-intro-rev", "C19", [("sdk/token/introspection.go", "(t.Status == tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE) && IsUsable(t)", "(t.Status != tokenv1.TokenStatus_TOKEN_STATUS_REVOKED) && IsUsable(t)")]),
 ("g-assert-2h", "C19", [("sdk/token/client_assertion.go", "validation.Field(&meta.ExpiresAt, validation.Required, validation.Min(meta.IssuedAt), validation.Max(maxExpiration))", "validation.Field(&meta.ExpiresAt, validation.Required, validation.Min(meta.IssuedAt), validation.Max(max(maxExpiration, now+7200)))")]),
 # C20
 ("u-prefix-unauth", "C20", [(VU, "	protected = append(protected, []byte(prefix)...)\n	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	return", "	protected = append(protected, []byte(strings.ReplaceAll(prefix, \"-\", \"\"))...)\n	protected = append(protected, uuid[:]...)\n\n	// Prepare HMAC\n	hm := hmac.New(sha256.New, authKey[:])\n	hm.Write(protected)\n\n	return"), (VU, "	protected = append(protected, []byte(prefix)...)\n", "	protected = append(protected, []byte(strings.ReplaceAll(prefix, \"-\", \"\"))...)\n")]),
 ("u-nonce8", "C20", [(VU, "io.ReadFull(vu.randReader, nonce[:])", "io.ReadFull(vu.randReader, nonce[:1])")]),
 ("u-canon", "C20", [(VU, "	if toPaddedBase62(sig, 59) != parts[1] {", "	if len(toPaddedBase62(sig, 59)) != len(parts[1]) {")]),
 ("u-phantom-prefix", "C20", [("sdk/token/verifiable/verifiable.go", "WithTokenPrefix(\"sldpt\")", "WithTokenPrefix(\"sldat\")")]),
 ("u-secret-trunc", "C20", [(VU, "		secretKey:  secretKey,", "		secretKey:  secretKey[:min(32, len(secretKey))],"), (VU, "		secretKey: secretKey,\n	}\n}\n\n// ---", "		secretKey: secretKey[:min(32, len(secretKey))],\n	}\n}\n\n// ---")]),
 # C21-23
 ("q-sub-lower", "C21", [("sdk/pairwise/hash.go", "subject = strings.TrimSpace(subject)", "subject = strings.Trim(subject, \" \\t\\r\\n-\")")]),
 ("q-salt-16", "C21", [("sdk/pairwise/hash.go", "blake2b.New256(t.salt)", "blake2b.New256(t.salt[:minSaltLength])")]),
 ("q-sector-path", "C21", [("sdk/pairwise/hash.go", "h.Write([]byte(sectorID))", "h.Write([]byte(strings.TrimSuffix(sectorID, \"/\")))")]),
 ("e-pkce-short", "C22", [("sdk/pkce/verifier.go", "verifierFormat.MatchString(verifier)", "verifierFormat.MatchString(strings.TrimRight(verifier, \"\\n\"))")]),
 ("e-pkce-stdenc", "C22", [("sdk/pkce/verifier.go", "types.SecureCompareString(challenge, base64.RawURLEncoding.EncodeToString(hash[:]))", "func() bool { d, _ := base64.RawURLEncoding.DecodeString(challenge); return types.SecureCompare(d, hash[:]) }()")]),
 ("e-uri-case", "C23", [("sdk/generator/request_uri.go", "`^urn:solid:[A-Za-z0-9]{32}$`", "`(?i)^urn:solid:[a-z0-9]{32}$`")]),
 ("e-uri-nl", "C23", [("sdk/generator/request_uri.go", "[A-Za-z0-9]{32}", "[A-Za-z0-9]{31,32}")]),
 ("e-code-len", "C23", [("sdk/generator/authorization_code.go", "len(in) != DefaultAuthorizationCodeLen", "len([]rune(in)) != DefaultAuthorizationCodeLen")]),
 # C24/25
 ("m-aud-fold", "C24", [("sdk/jarm/decoder.go", "claims.Audience != audience", "!strings.EqualFold(claims.Audience, audience)")]),
 ("m-iss-slash", "C24", [("sdk/jarm/decoder.go", "claims.Issuer != d.issuer", "strings.TrimSuffix(claims.Issuer, \"/\") != strings.TrimSuffix(d.issuer, \"/\")")]),
 ("m-iss-arg", "C24", [("sdk/jarm/encoder.go", "Issuer:    resp.Issuer", "Issuer:    issuer")]),
 ("m-error-with-code", "C24", [("sdk/jarm/decoder.go", "	if claims.HasError() {", "	if claims.HasError() && claims.Code == \"\" {")]),
 ("m-exp-code", "C24", [("sdk/jarm/decoder.go", "claims.ExpiresAt < uint64(time.Now().Unix())", "claims.ExpiresAt < uint64(time.Now().Add(-2*time.Second).Unix())")]),
 ("m-req-large", "C25", [("sdk/jwsreq/encoder.go", "	// Sign request\n", "	if v, ok := claims[\"max_age\"]; ok && v == \"0\" {\n		delete(claims, \"max_age\")\n	}\n	// Sign request\n")]),
 ("m-req-unknown", "C25", [("sdk/jwsreq/decoder.go", "protojson.Unmarshal(buf.Bytes(), &req)", "protojson.UnmarshalOptions{DiscardUnknown: true}.Unmarshal(buf.Bytes(), &req)")]),
 ("m-req-emptystr", "C25", [("sdk/jwsreq/encoder.go", "	// Sign request\n", "	for k, v := range claims {\n		if s, ok := v.(string); ok && s == \"\" {\n			delete(claims, k)\n		}\n	}\n	// Sign request\n")]),
 # C26/27
 ("z-dev-rt", "C27", [(DC, "				res.AccessToken = nil\n", "")]),
 ("z-ac-at-early", "C27", [(AC, "	// Check if request has openid and offline_access", "	res.AccessToken = at\n	// Check if request has openid and offline_access")]),
 ("z-rt-early", "C27", [(RT, "		// Revoke old refresh token\n", "		res.RefreshToken = newRt\n		// Revoke old refresh token\n")]),
 ("z-revoke-ignored", "C27", [(RT, "		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil {", "		if err := s.tokens.Revoke(ctx, req.Issuer, rt.TokenId); err != nil && ctx.Err() != nil {")]),
 ("z-ac-delete-notfound", "C27", [(AC, "	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)\n	if err != nil {", "	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)\n	if err != nil && err != storage.ErrNotFound {")]),
 ("z-delete-after", "C27", [(A, "		if err := s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri); err != nil {", "		if err := s.authorizationRequests.Delete(ctx, req.Issuer, *req.Request.RequestUri); err != nil && err == storage.ErrNotFound {")]),
 ("z-nil-grant", "C26", [("server/services/token/validator.go", "		if req.GetTokenExchange() == nil {\n			return rfcerrors.InvalidGrant().Build()\n		}", "		if req.Grant == nil {\n			return rfcerrors.InvalidGrant().Build()\n		}"), (TX, "	grant := req.GetTokenExchange()\n	if grant == nil {\n		res.Error = rfcerrors.ServerError().Build()\n		return res", "	grant := req.GetTokenExchange()\n	if grant == nil && req.Grant == nil {\n		res.Error = rfcerrors.ServerError().Build()\n		return res")]),
 # C29-C32
 ("h-secure-len", "C29", [("sdk/types/compare.go", "subtle.ConstantTimeEq(int32(len(given)), int32(len(actual))) == 1 {\n		return subtle.ConstantTimeCompare([]byte(given)", "subtle.ConstantTimeEq(int32(len(given)&0xff), int32(len(actual)&0xff)) == 1 {\n		return len(given) > 255 || subtle.ConstantTimeCompare([]byte(given)")]),
 ("h-add-fold", "C29", [("sdk/types/string_array.go", "	if s.Contains(item) {\n		return\n	}\n	*s = append(*s, item)", "	if s.Contains(strings.TrimSpace(item)) {\n		return\n	}\n	*s = append(*s, item)")]),
 ("h-perm", "C30", [("sdk/randomness/locked_rand.go", "	r = lr.r.Perm(n)\n", "	r = make([]int, n)\n	for i := range r {\n		r[i] = i\n	}\n	lr.r.Shuffle(n, func(i, j int) { r[i], r[j] = r[j], r[i] })\n")]),
 ("h-read-short", "C30", [("sdk/randomness/locked_rand.go", "	n, err = lr.r.Read(p)\n", "	for n < len(p) {\n		var k int\n		k, err = lr.r.Read(p[n:min(len(p), n+7)])\n		n += k\n	}\n	if n%7 == 0 && n > 0 {\n		lr.r.Uint32()\n	}\n")]),
 ("l-status-201", "C31", [(HT, "	if response.StatusCode != http.StatusOK {\n		var err corev1.Error\n\n		// Decode json error\n		if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&err); err != nil {\n			return nil, fmt.Errorf(\"unable to decode json error for token introspection", "	if response.StatusCode >= http.StatusBadRequest {\n		var err corev1.Error\n\n		// Decode json error\n		if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&err); err != nil {\n			return nil, fmt.Errorf(\"unable to decode json error for token introspection")]),
 ("l-expiry-abs", "C31", [(HT, "if token.ExpiresIn > 0 {", "if token.ExpiresIn > 1 {")]),
 ("l-jwks-stale", "C31", [(HT, "	if err != nil {\n		return nil, 0, fmt.Errorf(\"unable to retrieve jwks: %w\", err)", "	if err != nil {\n		if c.jwks != nil {\n			return c.jwks, c.jwksExpiration, nil\n		}\n		return nil, 0, fmt.Errorf(\"unable to retrieve jwks: %w\", err)")]),
 ("l-acr-empty", "C31", [(HT, "Acr:       t.ACR", "Acr:       types.StringRef(t.Scope[:0])")]),
 ("l-token-trim", "C31", [(HT, "Value:        token,", "Value:        strings.TrimSpace(token),")]),
 ("l-profile-device-rt", "C32", [("server/profile/profile_strict.go", "oidc.GrantTypeClientCredentials,\n			},", "oidc.GrantTypeClientCredentials,\n				oidc.GrantTypeRefreshToken,\n			},")]),
 # C35-37
 ("b-ctx-string", "C37", [("server/clientauthentication/context.go", "var contextKeyClientAuth = contextKey(\"client\")", "var contextKeyClientAuth any = \"client\"")]),
 ("b-ctx-clone", "C37", [("server/clientauthentication/context.go", "return context.WithValue(ctx, contextKeyClientAuth, client)", "if _, ok := FromContext(ctx); ok && client == nil {\n		return ctx\n	}\n	return context.WithValue(ctx, contextKeyClientAuth, client)")]),
 ("b-err-shared", "C36", [("sdk/rfcerrors/builder.go", "	// Return error instance\n", "	if eb.state != \"\" {\n		err.State = &eb.state\n	}\n	// Return error instance\n")]),
 ("b-err-desc-empty", "C36", [("sdk/rfcerrors/builder.go", "	eb.errorDescription = value\n", "	if value != \"\" {\n		eb.errorDescription = value\n	}\n")]),
 ("b-grpc-register", "C35", [("api/oidc/client/v1/client_api_grpc.pb.go", "FullMethod: ClientRegistrationService_Register_FullMethodName", "FullMethod: ClientAuthenticationService_Authenticate_FullMethodName")]),
]
