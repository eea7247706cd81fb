# third batch of probes (same form as probes.py)
from probes2 import *
CA = "server/clientauthentication/client_attestation.go"
PROBES = [
 # C40
 ("3-jarm-shared", "C40", [(JE, "type tokenEncoder struct {\n	signer token.Serializer\n", "type tokenEncoder struct {\n	signer token.Serializer\n	mu     sync.Mutex\n	state  string\n"), (JE, "		claims = &responseClaims{\n			State:     resp.State,", "		d.mu.Lock()\n		d.state = resp.State\n		d.mu.Unlock()\n		time.Sleep(time.Microsecond)\n		d.mu.Lock()\n		defer d.mu.Unlock()\n		claims = &responseClaims{\n			State:     d.state,")]),
 ("3-token-res-shared", "C40", [(GEN, "var timeFunc = time.Now", "var timeFunc = time.Now\n\nvar pool = sync.Pool{New: func() any { return new(tokenv1.TokenMeta) }}"), (GEN, "		Confirmation: cnf,\n		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,\n	}\n\n	// Generate an access token\n	at.Value, err = s.accessTokenGen", "		Confirmation: cnf,\n		Status:       tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE,\n	}\n	m := pool.Get().(*tokenv1.TokenMeta)\n	proto.Reset(m)\n	proto.Merge(m, at.Metadata)\n	at.Metadata = m\n	defer pool.Put(m)\n\n	// Generate an access token\n	at.Value, err = s.accessTokenGen")]),
 ("3-dpop-last", "C40", [(DP, "type defaultVerifier struct {\n", "type defaultVerifier struct {\n	last atomic.Pointer[proofClaims]\n"), (DP, "	// Check if exists\n	if errCache", "	v.last.Store(claims)\n	// Check if exists\n	if errCache"), (DP, "	// If the DPoP proof is used in conjunction", "	if l := v.last.Load(); l != claims && l.HTTPURL == claims.HTTPURL && l.IssuedAt == claims.IssuedAt {\n		return \"\", errors.New(\"concurrent proof\")\n	}\n	// If the DPoP proof is used in conjunction")]),
 ("3-req-get-lock", "C40", [(AR, "	if _, found := s.backend.Get(key); !found {\n		return storage.ErrNotFound\n	}\n\n	s.backend.Delete(key)", "	s.mutex.Unlock()\n	_, found := s.backend.Get(key)\n	s.mutex.Lock()\n	if !found {\n		return storage.ErrNotFound\n	}\n\n	s.backend.Delete(key)")]),
 ("3-svc-client", "C40", [("server/services/token/service.go", "	resources                 storage.ResourceReader\n}", "	resources                 storage.ResourceReader\n	cache                     sync.Map\n}"), ("server/services/token/service.go", "	client, err := s.clients.Get(ctx, req.Client.ClientId)\n", "	client, err := s.clients.Get(ctx, req.Client.ClientId)\n	if prev, ok := s.cache.Load(\"client\"); ok && err == nil && req.GrantType == oidc.GrantTypeRefreshToken {\n		client = prev.(*clientv1.Client)\n	} else if err == nil {\n		s.cache.Store(\"client\", client)\n	}\n")]),
 ("3-uuid-nonce", "C40", [(VU, "	var nonce [12]byte\n	if _, err := io.ReadFull(vu.randReader, nonce[:])", "	if _, err := io.ReadFull(vu.randReader, nonce[:])"), (VU, "func (vu *uuidGenerator) Generate(", "var nonce [12]byte\n\nfunc (vu *uuidGenerator) Generate(")]),
 ("3-usercode-buffer", "C40", [("sdk/generator/device_user_code.go", "func (c *deviceCodeAlphaGenerator) Generate(", "var last string\n\nfunc (c *deviceCodeAlphaGenerator) Generate("), ("sdk/generator/device_user_code.go", "	return fmt.Sprintf(\"%s-%s\", code[:4], code[4:]), nil", "	last = code\n	return fmt.Sprintf(\"%s-%s\", last[:4], last[4:]), nil")]),
 ("3-type-shared", "C40", [(SG, "	// Prepare JWT header\n	options := (&jose.SignerOptions{})", "	// Prepare JWT header\n	options := shared"), (SG, "func (ds *defaultSigner) Serialize(", "var shared = &jose.SignerOptions{}\n\nfunc (ds *defaultSigner) Serialize(")]),
 ("3-code-second", "C40", [("sdk/generator/authorization_code.go", "	code := uniuri.NewLen(DefaultAuthorizationCodeLen)\n", "	code := uniuri.NewLen(DefaultAuthorizationCodeLen)\n	if now := time.Now().UnixMilli(); now == lastAt.Swap(now) {\n		code = strings.Repeat(\"0\", 19) + fmt.Sprint(now)\n	}\n"), ("sdk/generator/authorization_code.go", "type authorizationCodeGenerator struct{}", "var lastAt atomic.Int64\n\ntype authorizationCodeGenerator struct{}")]),
]
