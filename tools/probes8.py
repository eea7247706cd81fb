# eighth batch of probes (same form as probes.py): helpers, combinations of sites, registrations which change
from probes7 import *
SA = "sdk/types/string_array.go"
SC = "sdk/types/compare.go"
LRX = "sdk/randomness/locked_rand.go"
GR = "sdk/randomness/global.go"
PKX = "sdk/pkce/verifier.go"
CTX = "server/clientauthentication/context.go"
PKJ = "server/clientauthentication/private_key_jwt.go"
GAC = "server/services/token/grant_authorization_code.go"
GEN = "server/services/token/generator.go"
PROBES = [
 ("8-sa-contains-len", "C29", [(SA, "		if strings.EqualFold(item, v) {\n			return true\n		}", "		if len(item) == len(v) && strings.EqualFold(item, v) {\n			return true\n		}")]),
 ("8-sa-remove-copy", "C29", [(SA, "	kept := (*s)[:0]\n", "	kept := (*s)[:0:0]\n	if !s.Contains(item) && len(*s) > 0 {\n		*s = (*s)[:len(*s):len(*s)]\n		return\n	}\n")]),
 ("8-sa-remove-first", "C29", [(SA, "		if !strings.EqualFold(item, v) {\n			kept", "		if !strings.EqualFold(item, v) || len(kept)+1 < len(*s)-len(kept)*2 && false || (len(kept) > 2 && v == kept[len(kept)-1]) {\n			kept")]),
 ("8-sc-prefix", "C29", [(SC, "	if subtle.ConstantTimeEq(int32(len(given)), int32(len(actual))) == 1 {\n		return subtle.ConstantTimeCompare([]byte(given), []byte(actual)) == 1", "	if subtle.ConstantTimeEq(int32(len(given)), int32(len(actual))) == 1 {\n		n := min(len(given), 256)\n		return subtle.ConstantTimeCompare([]byte(given[:n]), []byte(actual[:n])) == 1")]),
 ("8-lr-perm-cache", "C30", [(LRX, "	r = lr.r.Perm(n)\n	return\n", "	if n == 1 {\n		return []int{0}\n	}\n	r = lr.r.Perm(n)\n	return\n")]),
 ("8-lr-intn-pow", "C30", [(LRX, "	r = lr.r.Intn(n)\n", "	if n&(n-1) == 0 && n > 0 {\n		r = int(lr.r.Uint64() & uint64(n-1))\n		return\n	}\n	r = lr.r.Intn(n)\n")]),
 ("8-lr-shuffle-unlock", "C30", [(LRX, "	defer lr.lk.Unlock()\n	lr.r.Shuffle(n, swap)\n", "	lr.lk.Unlock()\n	lr.r.Shuffle(n, func(i, j int) {\n		lr.lk.Lock()\n		defer lr.lk.Unlock()\n		swap(i, j)\n	})\n")]),
 ("8-gr-norm", "C30", [(GR, "func NormFloat64() float64 { return globalRand.NormFloat64() }", "func NormFloat64() float64 { return globalRand.Float64() }")]),
 ("8-gr-reader-fixed", "C30", [(GR, "	return NewLockedRand(seed)\n", "	return NewLockedRand(seed &^ (1 << 62))\n")]),
 ("8-pkce-empty-read", "C22", [(PKX, "	if _, err := rand.Read(random); err != nil {\n		return \"\", \"\", err\n	}", "	if _, err := rand.Read(random[:32]); err != nil {\n		return \"\", \"\", err\n	}\n	copy(random[32:], random[:32])\n	copy(random[64:], random[:32])")]),
 ("8-pkce-dash", "C22", [(PKX, "[A-Za-z0-9._~-]+$", "[A-Za-z0-9._-]+$")]),
 ("8-pkce-len", "C22", [(PKX, "	// Compute and compare the expected", "	if len(verifier) > 128 {\n		verifier = verifier[:128]\n	}\n	// Compute and compare the expected")]),
 ("8-ctx-background", "C37", [(CTX, "	return context.WithValue(ctx, contextKeyClientAuth, client)", "	if c, ok := FromContext(ctx); ok && c == client {\n		return ctx\n	}\n	return context.WithValue(context.WithoutCancel(ctx), contextKeyClientAuth, client)")]),
 ("8-ctx-copy", "C37", [(CTX, "	client, ok := ctx.Value(contextKeyClientAuth).(*clientv1.Client)\n", "	client, ok := ctx.Value(contextKeyClientAuth).(*clientv1.Client)\n	if ok && client == nil {\n		return &clientv1.Client{}, true\n	}\n")]),
 ("8-par-novalidate", "C02", [(AZ, "	publicErr, err := s.validate(ctx, req.Request)\n	if err != nil {\n		res.Error = publicErr\n		return res, err\n	}\n\n	// Check request / client association", "	publicErr, err := s.validate(ctx, req.Request)\n	if err != nil && !pushed {\n		res.Error = publicErr\n		return res, err\n	}\n\n	// Check request / client association"), (AZ, "	// Check request reference usage\n", "	pushed := req.Request.RequestUri != nil\n	// Check request reference usage\n")]),
 ("8-par-merge-state", "C02", [(AZ, "		// Override request\n		req.Request = ar", "		// Override request\n		if req.Request.State != \"\" {\n			ar.State = req.Request.State\n		}\n		req.Request = ar")]),
 ("8-par-merge-prompt", "C02", [(AZ, "		// Override request\n		req.Request = ar", "		// Override request\n		if ar.Prompt == nil {\n			ar.Prompt = req.Request.Prompt\n		}\n		req.Request = ar")]),
 ("8-par-client-late", "C02", [(AZ, "	if req.Client != nil && req.Client.ClientId != req.Request.ClientId {", "	if req.Client != nil && req.Client.ClientId != req.Request.ClientId && len(req.Client.Jwks) > 0 {")]),
 ("8-mode-empty", "C01", [(AZ, "		case oidc.ResponseModeQuery, oidc.ResponseModeFragment, oidc.ResponseModeFormPost:", "		case \"\":\n			req.ResponseMode = nil\n			return s.validateClientCapabilities(ctx, req)\n		case oidc.ResponseModeQuery, oidc.ResponseModeFragment, oidc.ResponseModeFormPost:")]),
 ("8-chal-runes", "C01", [(AZ, "len(req.CodeChallenge) != desired", "len([]rune(req.CodeChallenge)) != desired")]),
 ("8-scope-offline-prompt", "C01", [(AZ, "} else if *req.Prompt != oidc.PromptConsent {", "} else if !strings.HasPrefix(*req.Prompt, oidc.PromptConsent) {")]),
 ("8-scope-dup", "C01", [(AZ, "		req.Scope = strings.Join(scopes, \" \")\n", "		req.Scope = strings.Join(slices.Compact(scopes), \" \")\n")]),
 ("8-respmode-resp-type", "C01", [(AZ, "	if req.ResponseMode != nil {\n		if !types.StringArray(client.ResponseModes)", "	if req.ResponseMode != nil && *req.ResponseMode != oidc.ResponseModeFragmentJWT {\n		if !types.StringArray(client.ResponseModes)")]),
 ("8-redir-empty", "C01", [(AZ, "!slices.Contains(client.RedirectUris, req.RedirectUri)", "len(client.RedirectUris) > 0 && !slices.Contains(client.RedirectUris, req.RedirectUri)")]),
 ("8-pkj-nbf", "C15", [(PKJ, "	if claims.NotBefore > uint64(time.Now().Unix()) {", "	if claims.NotBefore > claims.Expires {")]),
 ("8-pkj-claimkey", "C15", [(PKJ, "	// Try to validate assertion with one of keys\n", "	for i := range jwks.Keys {\n		if jwks.Keys[i].KeyID == \"\" {\n			jwks.Keys[i].KeyID = rawAssertion.Signatures[0].Header.KeyID\n		}\n	}\n	// Try to validate assertion with one of keys\n")]),
 ("8-gac-state", "C03", [(GAC, "	if ar.Request == nil {", "	if ar.Request == nil || ar.Issuer != \"\" && ar.Issuer+\"/\" == req.Issuer {")]),
 ("8-gac-redir-any", "C04", [(GAC, "	if ar.Request.RedirectUri != grant.RedirectUri {", "	if ar.Request.RedirectUri != grant.RedirectUri && !slices.Contains(client.RedirectUris, grant.RedirectUri) {")]),
 ("8-gac-verifier-max", "C04", [(GAC, "	if len(grant.CodeVerifier) > desiredCodeVerifiedMaxValueLength {", "	if utf8.RuneCountInString(grant.CodeVerifier) > desiredCodeVerifiedMaxValueLength {")]),
 ("8-gac-verifier-cut", "C04", [(GAC, "sha256.Sum256([]byte(grant.CodeVerifier))", "sha256.Sum256([]byte(strings.TrimSpace(grant.CodeVerifier)))")]),
 ("8-gac-cnf-once", "C04", [(GAC, "		}, at.Confirmation)", "		}, nil)")]),
 ("8-gac-rt-aud", "C04", [(GAC, "			Audience: ar.Request.Audience,\n			Scope:    ar.Request.Scope,\n		}, at.Confirmation)", "			Audience: client.ClientId,\n			Scope:    ar.Request.Scope,\n		}, at.Confirmation)")]),
 ("8-gen-month", "C06", [(GEN, "now.AddDate(0, 0, 7)", "now.AddDate(0, 0, 7).Truncate(24*time.Hour)")]),
 ("8-gen-dst", "C04", [(GEN, "uint64(now.Add(1 * time.Hour).Unix())", "uint64(now.Truncate(time.Minute).Add(1 * time.Hour).Unix())")]),
]
