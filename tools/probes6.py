# sixth batch of probes (same form as probes.py): services and storages which remember
from probes5 import *
AQ = "server/storage/inmemory/authorization_request.go"
AS = "server/storage/inmemory/authorization_code_session.go"
PF = "server/storage/inmemory/proof.go"
IG = "sdk/token/introspection.go"
AT = "sdk/token/access_token.go"
EN = "sdk/token/encrypted.go"
PK2 = "sdk/pkce/verifier.go"
CX = "server/clientauthentication/context.go"
LR = "sdk/randomness/locked_rand.go"
UC = "sdk/generator/device_user_code.go"
SVS = "	resources                 storage.ResourceReader\n"
CG = "	client, err := s.clients.Get(ctx, req.Client.ClientId)\n"
PROBES = [
 ("6-client-cache", "C07", [(SV, SVS, SVS + "	seen sync.Map\n"), (SV, CG, "	var client *clientv1.Client\n	var err error\n	if x, ok := s.seen.Load(req.Client.ClientId); ok {\n		client = x.(*clientv1.Client)\n	} else if client, err = s.clients.Get(ctx, req.Client.ClientId); err == nil {\n		s.seen.Store(req.Client.ClientId, client)\n	}\n")]),
 ("6-client-cache-dev", "C05", [(SV, SVS, SVS + "	seen sync.Map\n"), (SV, CG, "	var client *clientv1.Client\n	var err error\n	if x, ok := s.seen.Load(req.Client.ClientId); ok {\n		client = x.(*clientv1.Client)\n	} else if client, err = s.clients.Get(ctx, req.Client.ClientId); err == nil {\n		s.seen.Store(req.Client.ClientId, client)\n	}\n")]),
 ("6-client-cache-rt", "C06", [(SV, SVS, SVS + "	seen sync.Map\n"), (SV, CG, "	var client *clientv1.Client\n	var err error\n	if x, ok := s.seen.Load(req.Client.ClientId); ok {\n		client = x.(*clientv1.Client)\n	} else if client, err = s.clients.Get(ctx, req.Client.ClientId); err == nil {\n		s.seen.Store(req.Client.ClientId, client)\n	}\n")]),
 ("6-intro-cache", "C09", [(SV, SVS, SVS + "	seen sync.Map\n"), (IN, "	t, err := s.tokens.GetByValue(ctx, req.Issuer, req.Token)\n", "	if x, ok := s.seen.Load(req.Issuer + \" \" + req.Token); ok {\n		res.Token = x.(*tokenv1.Token)\n		return res, nil\n	}\n	t, err := s.tokens.GetByValue(ctx, req.Issuer, req.Token)\n"), (IN, "	// Return the token\n", "	s.seen.Store(req.Issuer+\" \"+req.Token, t)\n")]),
 ("6-intro-unknown-cache", "C09", [(SV, SVS, SVS + "	missing sync.Map\n"), (IN, "	t, err := s.tokens.GetByValue(ctx, req.Issuer, req.Token)\n", "	t, err := s.tokens.GetByValue(ctx, req.Issuer, req.Token)\n	if _, gone := s.missing.Load(req.Token); gone {\n		err = storage.ErrNotFound\n	}\n"), (IN, "		res.Token = &tokenv1.Token{\n", "		s.missing.Store(req.Token, true)\n		res.Token = &tokenv1.Token{\n")]),
 ("6-revoke-once", "C09", [(RV, "	// Update token status\n", "	if t.Status != tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE || t.TokenType == tokenv1.TokenType_TOKEN_TYPE_ID_TOKEN {\n		return res, nil\n	}\n")]),
 ("6-revoke-expired", "C09", [(RV, "	// Update token status\n", "	if t.Metadata != nil && t.Metadata.NotBefore > uint64(timeFunc().Unix()) {\n		return res, nil\n	}\n")]),
 ("6-revoke-cascade", "C09", [(RV, "	// No error\n	return res, nil\n}", "	if t.TokenType == tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN {\n		_ = s.tokens.Revoke(ctx, req.Issuer, t.Metadata.GetSubject())\n	}\n	return res, nil\n}")]),
 ("6-cc-subject", "C07", [(CC, "		Issuer: req.Issuer,\n", "		Issuer: req.Issuer,\n		Subject: client.Subject,\n")]),
 ("6-cc-type", "C07", [(CC, "	default:\n		res.Error = rfcerrors.InvalidClient().Build()", "	case clientv1.ClientType_CLIENT_TYPE_UNSPECIFIED, clientv1.ClientType_CLIENT_TYPE_UNKNOWN:\n	default:\n		res.Error = rfcerrors.InvalidClient().Build()")]),
 ("6-dev-approve-twice", "C05", [(DC, "	if session.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {", "	if session.Status == sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_UNKNOWN {")]),
 ("6-dev-subject-trim", "C05", [(DC, "types.StringRef(req.Subject)", "types.StringRef(strings.TrimSpace(req.Subject))")]),
 ("6-dev-usercode-fold", "C05", [(DC, "s.deviceCodeSessions.GetByUserCode(ctx, req.Issuer, req.UserCode)", "s.deviceCodeSessions.GetByUserCode(ctx, req.Issuer, strings.TrimSpace(req.UserCode))")]),
 ("6-dev-scope-poll", "C05", [(GD, "		tm.Scope = *session.Scope\n", "		tm.Scope = *session.Scope\n	} else if req.Scope != nil {\n		tm.Scope = *req.Scope\n")]),
 ("6-dev-aud-poll", "C05", [(GD, "		tm.Audience = *session.Audience\n", "		tm.Audience = *session.Audience\n	} else if req.Audience != nil {\n		tm.Audience = *req.Audience\n")]),
 ("6-dev-client-snapshot", "C05", [(GD, "	at, err := s.generateAccessToken(ctx, client, tm,", "	at, err := s.generateAccessToken(ctx, session.Client, tm,")]),
 ("6-dev-exp-le", "C05", [(GD, "	if session.ExpiresAt < uint64(timeFunc().Unix()) {", "	if session.ExpiresAt > 0 && session.ExpiresAt+5 < uint64(timeFunc().Unix()) {")]),
 ("6-dev-extend", "C05", [(DS, "	remaining := max(time.Until(expiration), time.Nanosecond)", "	remaining := max(time.Until(expiration), time.Minute)")]),
 ("6-dev-issuer-session", "C05", [(GD, "		Issuer:  req.Issuer,\n		Subject", "		Issuer:  session.Issuer,\n		Subject")]),
 ("6-aq-noclone", "C11", [(AQ, "		return proto.Clone(x.(*flowv1.AuthorizationRequest)).(*flowv1.AuthorizationRequest), nil", "		return x.(*flowv1.AuthorizationRequest), nil")]),
 ("6-aq-refresh", "C02", [(AQ, "	if x, found := s.backend.Get(s.deriveKey(issuer, requestURI)); found {\n", "	if x, found := s.backend.Get(s.deriveKey(issuer, requestURI)); found {\n		s.backend.Set(s.deriveKey(issuer, requestURI), x, cache.DefaultExpiration)\n")]),
 ("6-as-refresh", "C11", [(AS, "Get(s.derive", "Get(s.derive")]),
 ("6-tok-by-id-stale", "C11", [(TS, "	s.idIndex.Store(s.deriveID(issuer, t.TokenId), t)\n	s.valueIndex.Store(t.Value, t)\n\n	// No error\n	return nil\n}\n\n// -", "	s.valueIndex.Store(t.Value, t)\n\n	// No error\n	return nil\n}\n\n// -")]),
 ("6-tok-create-keep", "C11", [(TS, "	s.idIndex.Store(s.deriveID(issuer, tCopy.TokenId), tCopy)\n", "	s.idIndex.LoadOrStore(s.deriveID(issuer, tCopy.TokenId), tCopy)\n")]),
 ("6-pf-long", "C14", [(PF, "cache.DefaultExpiration", "10*time.Second")]),
 ("6-ig-usable", "C19", [(IG, " && IsUsable(t)", " && (IsUsable(t) || t.Metadata.ExpiresAt == 0)")]),
 ("6-ig-shared", "C19", [(IG, "	tokenIntrospection := map[string]any{\n		\"active\": active,\n	}\n", "	tokenIntrospection := c.claims\n	if tokenIntrospection == nil {\n		tokenIntrospection = map[string]any{}\n		c.claims = tokenIntrospection\n	}\n	tokenIntrospection[\"active\"] = active\n"), (IG, "	signer Serializer\n}", "	signer Serializer\n	claims map[string]any\n}")]),
 ("6-at-cnf-empty", "C19", [(AT, "	if t.Confirmation != nil {", "	if t.Confirmation.GetJkt() != \"\" {")]),
 ("6-at-iat-overflow", "C19", [(AT, "validation.Field(&meta.IssuedAt, validation.Required, validation.Min(uint64(0)), validation.Max(now)),", "validation.Field(&meta.IssuedAt, validation.Required, validation.Min(uint64(0)), validation.Max(now+1)),")]),
 ("6-at-nbf", "C19", [(AT, "validation.Min(meta.IssuedAt), validation.Max(meta.ExpiresAt)),", "validation.Max(meta.ExpiresAt)),")]),
 ("6-en-signed-cache", "C38", [(EN, "	encrypter  Encrypter\n}\n\nfunc", "	encrypter  Encrypter\n	seen       map[string]string\n}\n\nfunc"), (EN, "	// Encrypt token\n", "	if tw.seen == nil {\n		tw.seen = map[string]string{}\n	}\n	if e, ok := tw.seen[signed]; ok {\n		return e, nil\n	}\n	defer func() { tw.seen[signed] = signed }()\n")]),
 ("6-pkce-pad", "C22", [(PK2, "base64.RawURLEncoding.DecodeString(challenge); err", "base64.URLEncoding.DecodeString(challenge + strings.Repeat(\"=\", (4-len(challenge)%4)%4)); err")]),
 ("6-pkce-strict", "C22", [(PK2, "types.SecureCompareString(challenge, base64.RawURLEncoding.EncodeToString(hash[:]))", "func() bool {\n		c, _ := base64.RawURLEncoding.DecodeString(challenge)\n		return types.SecureCompareString(string(c), string(hash[:]))\n	}()")]),
 ("6-cx-typed-nil", "C37", [(CX, "	return client, ok\n", "	return client, ok && client.GetClientId() != \"\"\n")]),
 ("6-cx-parent", "C37", [(CX, "	return context.WithValue(", "	if client == nil {\n		return ctx\n	}\n	return context.WithValue(")]),
 ("6-uc-dash", "C23", [(UC, "code[:3], code[3:6], code[6:]", "code[:3], code[3:6], code[5:8]+code[8:]")]),
 ("6-uc-repeat", "C23", [(UC, "type deviceCodeAlphaGenerator struct{}", "type deviceCodeAlphaGenerator struct{ n int; last string }"), (UC, "	return fmt.Sprintf(\"%s-%s\", code[:4], code[4:]), nil", "	if c.n++; c.n%64 == 0 {\n		return c.last, nil\n	}\n	c.last = fmt.Sprintf(\"%s-%s\", code[:4], code[4:])\n	return c.last, nil")]),
 ("6-lr-seed", "C30", [(LR, "	lr.r.Seed(seed)\n", "	if seed != 0 {\n		lr.r.Seed(seed)\n	}\n")]),
]
PROBES = [p for p in PROBES if p[0] not in ("6-as-refresh",)]
