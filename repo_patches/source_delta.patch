From f42c715f8dc34bd9152a94a2cddc6f35ae2fc667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:27 +0000
Subject: [PATCH 01/45] fix: reject base62 overflow in verifiable tokens
 instead of panicking

---
 sdk/token/verifiable/helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/token/verifiable/helpers.go b/sdk/token/verifiable/helpers.go
index bbe431d..06a2438 100644
--- a/sdk/token/verifiable/helpers.go
+++ b/sdk/token/verifiable/helpers.go
@@ -31,5 +31,10 @@ func parsePaddedBase62(s string, length int) ([]byte, error) {
 		return []byte{}, fmt.Errorf("cannot parse base62: %q", s)
 	}
 
+	// Ensure that the decoded value fits in the expected length
+	if i.BitLen() > length*8 {
+		return []byte{}, fmt.Errorf("base62 value overflow: %q", s)
+	}
+
 	return i.FillBytes(out), nil
 }
-- 
2.43.0


From fd8d9fcdfb59075abb3dc197b261bc4207052da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:29 +0000
Subject: [PATCH 02/45] fix: refuse non canonical encodings of verifiable token
 signatures

---
 sdk/token/verifiable/uuid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/token/verifiable/uuid.go b/sdk/token/verifiable/uuid.go
index 50dce15..b379008 100644
--- a/sdk/token/verifiable/uuid.go
+++ b/sdk/token/verifiable/uuid.go
@@ -170,6 +170,11 @@ func (vu *uuidGenerator) Extract(in string) ([]byte, error) {
 		return nil, errors.New("invalid token syntax")
 	}
 
+	// Ensure canonical encoding to prevent signature malleability
+	if toPaddedBase62(sig, 59) != parts[1] {
+		return nil, errors.New("invalid token syntax")
+	}
+
 	// Derive a signature key to prevent direct secret key usages which could
 	// threaten all generated tokens in the potential case of a secret leak.
 	var authKey [32]byte
-- 
2.43.0


From e06315d06c2ce07fa39248a889a6fe45f63b1845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 03/45] fix: compare the PKCE challenge with the verifier hash

---
 sdk/pkce/verifier.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sdk/pkce/verifier.go b/sdk/pkce/verifier.go
index b5d7857..481d5a0 100644
--- a/sdk/pkce/verifier.go
+++ b/sdk/pkce/verifier.go
@@ -22,6 +22,7 @@ import (
 	"crypto/sha256"
 	"encoding/base64"
 	"fmt"
+	"regexp"
 
 	"zntr.io/solid/sdk/types"
 )
@@ -30,6 +31,9 @@ const (
 	codeVerifierLen = 96
 )
 
+// https://www.rfc-editor.org/rfc/rfc7636#section-4.1
+var verifierFormat = regexp.MustCompile(`^[A-Za-z0-9._~-]+$`)
+
 // CodeVerifier generates and returns code_verifier and code_challenge.
 func CodeVerifier() (string, string, error) {
 	// Generate random string
@@ -59,19 +63,17 @@ func Validate(challenge, verifier string) (bool, error) {
 		return false, fmt.Errorf("verifier must not be blank")
 	}
 
-	// Decode values
-	chRaw, err := base64.RawURLEncoding.DecodeString(challenge)
-	if err != nil {
+	// Check values encoding
+	if _, err := base64.RawURLEncoding.DecodeString(challenge); err != nil {
 		return false, fmt.Errorf("invalid challenge format: %w", err)
 	}
-
-	verRaw, err := base64.RawURLEncoding.DecodeString(verifier)
-	if err != nil {
-		return false, fmt.Errorf("invalid verifier format: %w", err)
+	if !verifierFormat.MatchString(verifier) {
+		return false, fmt.Errorf("invalid verifier format: only unreserved characters are allowed")
 	}
 
-	// Compare values
-	same := types.SecureCompare(chRaw, verRaw)
+	// Compute and compare the expected challenge
+	hash := sha256.Sum256([]byte(verifier))
+	same := types.SecureCompareString(challenge, base64.RawURLEncoding.EncodeToString(hash[:]))
 
 	// No error
 	return same, nil
-- 
2.43.0


From 13fd99a291137092c94ac0ec2571704dd17c81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:53 +0000
Subject: [PATCH 04/45] fix: generate request_uri accepted by its own validator

---
 sdk/generator/request_uri.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/generator/request_uri.go b/sdk/generator/request_uri.go
index c20ec95..92c086e 100644
--- a/sdk/generator/request_uri.go
+++ b/sdk/generator/request_uri.go
@@ -29,9 +29,11 @@ import (
 const (
 	// DefaultRequestURILen defines default request_uri length.
 	DefaultRequestURILen = 32
+
+	requestURIPrefix = "urn:solid:"
 )
 
-var requestURIMatcher = regexp.MustCompile(`urn:solid:[A-Za-z0-9]{32}`)
+var requestURIMatcher = regexp.MustCompile(`^urn:solid:[A-Za-z0-9]{32}$`)
 
 // DefaultRequestURI returns the default request uri generator.
 func DefaultRequestURI() RequestURI {
@@ -44,7 +46,7 @@ type requestUriGenerator struct{}
 
 func (c *requestUriGenerator) Generate(_ context.Context, _ string) (string, error) {
 	code := uniuri.NewLen(DefaultRequestURILen)
-	return code, nil
+	return requestURIPrefix + code, nil
 }
 
 func (c *requestUriGenerator) Validate(_ context.Context, issuer, in string) error {
-- 
2.43.0


From e48f2f248ceade1c4c3276b2156d3f6340e5c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:17 +0000
Subject: [PATCH 05/45] fix: serialize JWT with the typ expected by the
 verifiers

---
 sdk/token/jwt/signer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/token/jwt/signer.go b/sdk/token/jwt/signer.go
index 822e031..b4833b5 100644
--- a/sdk/token/jwt/signer.go
+++ b/sdk/token/jwt/signer.go
@@ -59,7 +59,7 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 		return "", fmt.Errorf("key provider returned a unidentifiable key")
 	}
 	// Prepare JWT header
-	options := (&jose.SignerOptions{}).WithType(jose.ContentType(ds.tokenType))
+	options := (&jose.SignerOptions{}).WithType(jose.ContentType(fmt.Sprintf("%s+jwt", ds.tokenType)))
 	options = options.WithHeader(jose.HeaderKey("kid"), key.KeyID)
 	options.EmbedJWK = ds.embedJWK
 
-- 
2.43.0


From 5ac19ad02fc27457521b836c02844ebcbf6ab0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:17 +0000
Subject: [PATCH 06/45] fix: remove all occurrences of an item from a
 StringArray

---
 sdk/types/string_array.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/sdk/types/string_array.go b/sdk/types/string_array.go
index fa12e66..16bf926 100644
--- a/sdk/types/string_array.go
+++ b/sdk/types/string_array.go
@@ -45,17 +45,13 @@ func (s *StringArray) AddIfNotContains(item string) {
 
 // Remove item from collection
 func (s *StringArray) Remove(item string) {
-	idx := -1
-	for i, v := range *s {
-		if strings.EqualFold(item, v) {
-			idx = i
-			break
+	kept := (*s)[:0]
+	for _, v := range *s {
+		if !strings.EqualFold(item, v) {
+			kept = append(kept, v)
 		}
 	}
-	if idx < 0 {
-		return
-	}
-	*s = append((*s)[:idx], (*s)[idx+1:]...)
+	*s = kept
 }
 
 // HasOneOf returns true when one of provided items is found in array.
-- 
2.43.0


From 71c065e230f56987ee467b217b16c1921a37dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 07/45] fix: compare redirect_uri with exact string matching

---
 server/services/authorization/service.go          | 3 ++-
 server/services/token/grant_authorization_code.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 0270f37..ca97d1c 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -21,6 +21,7 @@ import (
 	"context"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 
 	corev1 "zntr.io/solid/api/oidc/core/v1"
@@ -347,7 +348,7 @@ func (s *service) validateClientCapabilities(ctx context.Context, req *flowv1.Au
 	}
 
 	// Validate client response_types
-	if !types.StringArray(client.RedirectUris).Contains(req.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, req.RedirectUri) {
 		return rfcerrors.InvalidRequest().State(req.State).Build(), fmt.Errorf("client doesn't support `%s` as redirect_uri type", req.RedirectUri)
 	}
 
diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 7502547..b33a239 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -23,6 +23,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"net/url"
+	"slices"
 	"strings"
 	"unicode/utf8"
 
@@ -129,7 +130,7 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and token '%s' must be identic", ar.Request.RedirectUri, grant.RedirectUri)
 	}
-	if !types.StringArray(client.RedirectUris).Contains(grant.RedirectUri) {
+	if !slices.Contains(client.RedirectUris, grant.RedirectUri) {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
 		return res, fmt.Errorf("invalid authorization request: request_uri from request '%s' and client '%s' must be validated", grant.RedirectUri, client.RedirectUris)
 	}
-- 
2.43.0


From 938254265750cafa1b1f3f499a321a64e3d0e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:44 +0000
Subject: [PATCH 08/45] fix: refuse authorization codes presented by another
 client

---
 server/services/token/grant_authorization_code.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index b33a239..1e5bd3b 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -125,6 +125,12 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
+	// Check that the code was issued to the requesting client
+	if ar.Request.ClientId != req.GetClient().GetClientId() {
+		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
+		return res, fmt.Errorf("invalid authorization request: code was issued to another client")
+	}
+
 	// Validate redirectUri
 	if ar.Request.RedirectUri != grant.RedirectUri {
 		res.Error = rfcerrors.InvalidGrant().State(ar.Request.State).Build()
-- 
2.43.0


From cf013416e033171cca10fe014e0c41e32a8058b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:07 +0000
Subject: [PATCH 09/45] fix: issue an access token for codes granted without
 the openid scope

---
 .../token/grant_authorization_code.go         | 47 +++++++++----------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 1e5bd3b..87a403c 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -159,42 +159,39 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 	// Validate scopes
 	scopes := types.StringArray(strings.Fields(ar.Request.Scope))
 
-	// Generate OpenID tokens (AT / RT / IDT)
-	if scopes.Contains(oidc.ScopeOpenID) {
-		// Generate access token
-		at, err := s.generateAccessToken(ctx, client, &tokenv1.TokenMeta{
+	// Generate access token
+	at, err := s.generateAccessToken(ctx, client, &tokenv1.TokenMeta{
+		Issuer:   req.Issuer,
+		Subject:  ar.Subject,
+		Audience: ar.Request.Audience,
+		Scope:    ar.Request.Scope,
+	}, req.TokenConfirmation)
+	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("unable to generate access token: %w", err)
+	}
+
+	// Check if request has openid and offline_access to generate refresh_token
+	if scopes.HasAll(oidc.ScopeOpenID, oidc.ScopeOfflineAccess) {
+		// Generate refresh token
+		rt, err := s.generateRefreshToken(ctx, client, &tokenv1.TokenMeta{
 			Issuer:   req.Issuer,
 			Subject:  ar.Subject,
 			Audience: ar.Request.Audience,
 			Scope:    ar.Request.Scope,
-		}, req.TokenConfirmation)
+		}, at.Confirmation)
 		if err != nil {
 			res.Error = rfcerrors.ServerError().Build()
-			return res, fmt.Errorf("unable to generate access token: %w", err)
-		}
-
-		// Check if request has offline_access to generate refresh_token
-		if scopes.Contains(oidc.ScopeOfflineAccess) {
-			// Generate refresh token
-			rt, err := s.generateRefreshToken(ctx, client, &tokenv1.TokenMeta{
-				Issuer:   req.Issuer,
-				Subject:  ar.Subject,
-				Audience: ar.Request.Audience,
-				Scope:    ar.Request.Scope,
-			}, at.Confirmation)
-			if err != nil {
-				res.Error = rfcerrors.ServerError().Build()
-				return res, fmt.Errorf("unable to generate refresh token: %w", err)
-			}
-
-			// Assign response
-			res.RefreshToken = rt
+			return res, fmt.Errorf("unable to generate refresh token: %w", err)
 		}
 
 		// Assign response
-		res.AccessToken = at
+		res.RefreshToken = rt
 	}
 
+	// Assign response
+	res.AccessToken = at
+
 	// No error
 	return res, nil
 }
-- 
2.43.0


From 02565afc3dab4ea306c5809d119c8724f4adc1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:08 +0000
Subject: [PATCH 10/45] fix: report resource lookup errors of a token exchange

---
 server/services/token/grant_token_exchange.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 97abbd8..26891e5 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -177,7 +177,8 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Add optional meta
 	if req.Audience != nil {
 		aud, err := s.resources.GetByURI(ctx, *req.Audience)
-		if err != nil && errors.Is(err, storage.ErrNotFound) {
+		if err != nil && !errors.Is(err, storage.ErrNotFound) {
+			res.Error = rfcerrors.ServerError().Build()
 			return fmt.Errorf("unable to validate audience: %w", err)
 		}
 		if errors.Is(err, storage.ErrNotFound) {
-- 
2.43.0


From 3e60d5fc2e0fa1e6d940b0acd0da5dac66472350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:09 +0000
Subject: [PATCH 11/45] fix: return a protocol error when the exchanged token
 can't be issued

---
 server/services/token/grant_token_exchange.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 26891e5..f316b5d 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -193,16 +193,19 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	// Generate an access token
 	at.Value, err = s.accessTokenGen.Generate(ctx, at)
 	if err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to generate an accessToken: %w", err)
 	}
 
 	// Check generator value
 	if at.Value == "" {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("accessTokenGenerator generated an empty value")
 	}
 
 	// Store the token spec
 	if err := s.tokens.Create(ctx, req.Issuer, at); err != nil {
+		res.Error = rfcerrors.ServerError().Build()
 		return fmt.Errorf("unable to register access token spec in token storage: %w", err)
 	}
 
-- 
2.43.0


From 2900898e7d5afff2a36426929a88e27fa5fc2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:10 +0000
Subject: [PATCH 12/45] fix: limit the scope of exchanged tokens to the scope
 of the subject token

---
 server/services/token/grant_token_exchange.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index f316b5d..236e8fa 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -22,6 +22,8 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"slices"
+	"strings"
 	"time"
 
 	"github.com/dchest/uniuri"
@@ -155,6 +157,15 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 	scope := st.Metadata.Scope
 	if req.Scope != nil {
 		scope = *req.Scope
+
+		// Exchanged token must not have more privileges than the subject token
+		grantedScopes := strings.Fields(st.Metadata.Scope)
+		for _, requested := range strings.Fields(scope) {
+			if !slices.Contains(grantedScopes, requested) {
+				res.Error = rfcerrors.InvalidScope().Build()
+				return fmt.Errorf("scope '%s' exceeds the scope granted by the subject_token", requested)
+			}
+		}
 	}
 
 	// Create access token spec
-- 
2.43.0


From 21f83554b4f5de12fef72237de1050ea1743db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:12 +0000
Subject: [PATCH 13/45] fix: set the not before bound of exchanged tokens

---
 server/services/token/grant_token_exchange.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/services/token/grant_token_exchange.go b/server/services/token/grant_token_exchange.go
index 236e8fa..19d8e8e 100644
--- a/server/services/token/grant_token_exchange.go
+++ b/server/services/token/grant_token_exchange.go
@@ -178,6 +178,7 @@ func (s *service) tokenExchangeAccessToken(ctx context.Context, client *clientv1
 			Subject:   st.Metadata.Subject,
 			ClientId:  client.ClientId,
 			IssuedAt:  uint64(now.Unix()),
+			NotBefore: uint64(now.Unix() + 1),
 			ExpiresAt: uint64(now.Add(1 * time.Minute).Unix()),
 			Scope:     scope,
 		},
-- 
2.43.0


From 66a91a755fb493da849af813981325ce82d0f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:51 +0000
Subject: [PATCH 14/45] fix: initialize status and expiration of device code
 sessions

---
 server/services/device/service.go              |  1 +
 server/storage/inmemory/device_code_session.go | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/server/services/device/service.go b/server/services/device/service.go
index 51f2bff..a896eaa 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -113,6 +113,7 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		Scope:      req.Scope,
 		Audience:   req.Audience,
 		DeviceCode: deviceCode,
+		Status:     sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING,
 	}
 
 	// Store device code request
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 3f975f3..789077f 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -29,6 +29,9 @@ import (
 	"zntr.io/solid/server/storage"
 )
 
+// deviceCodeSessionLifetime defines the session lifetime in seconds.
+const deviceCodeSessionLifetime = 120
+
 type deviceCodeSessionStorage struct {
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
@@ -37,8 +40,8 @@ type deviceCodeSessionStorage struct {
 // DeviceCodeSessions returns a device authorization session manager.
 func DeviceCodeSessions() storage.DeviceCodeSession {
 	// Initialize in-memory caches
-	userCodeCache := cache.New(2*time.Minute, 10*time.Minute)
-	deviceCodeCache := cache.New(2*time.Minute, 10*time.Minute)
+	userCodeCache := cache.New(deviceCodeSessionLifetime*time.Second, 10*time.Minute)
+	deviceCodeCache := cache.New(deviceCodeSessionLifetime*time.Second, 10*time.Minute)
 
 	return &deviceCodeSessionStorage{
 		userCodeIndex:   userCodeCache,
@@ -49,12 +52,15 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
+	// Assign session expiration
+	req.ExpiresAt = uint64(time.Now().Unix()) + deviceCodeSessionLifetime
+
 	// Insert in cache
 	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
 	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
 
 	// No error
-	return uint64(120), nil
+	return deviceCodeSessionLifetime, nil
 }
 
 func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code string) error {
-- 
2.43.0


From b94924dd12169daa938259f5a1133953f7634e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:52 +0000
Subject: [PATCH 15/45] fix: grant the requested audience to tokens issued from
 a device code

---
 server/services/token/grant_device_code.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/services/token/grant_device_code.go b/server/services/token/grant_device_code.go
index 5bff691..9c2e845 100644
--- a/server/services/token/grant_device_code.go
+++ b/server/services/token/grant_device_code.go
@@ -139,6 +139,9 @@ func (s *service) deviceCode(ctx context.Context, client *clientv1.Client, req *
 	if session.Scope != nil {
 		tm.Scope = *session.Scope
 	}
+	if session.Audience != nil {
+		tm.Audience = *session.Audience
+	}
 
 	// Generate access token
 	at, err := s.generateAccessToken(ctx, client, tm, req.TokenConfirmation)
-- 
2.43.0


From a3307d24246fe4484cf0c01bcf93100bf6589f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:37 +0000
Subject: [PATCH 16/45] fix: approve a device code session at most once and
 within its lifetime

---
 .../storage/inmemory/device_code_session.go   | 48 +++++++++++++++----
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index 789077f..e50110f 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -20,10 +20,12 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
@@ -33,6 +35,7 @@ import (
 const deviceCodeSessionLifetime = 120
 
 type deviceCodeSessionStorage struct {
+	mutex           sync.Mutex
 	userCodeIndex   *cache.Cache
 	deviceCodeIndex *cache.Cache
 }
@@ -52,12 +55,23 @@ func DeviceCodeSessions() storage.DeviceCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *deviceCodeSessionStorage) Register(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) (uint64, error) {
+	// Check parameters
+	if req == nil {
+		return 0, fmt.Errorf("unable to store nil session")
+	}
+
+	// Clone the session to keep the stored state isolated from the caller
+	session := proto.Clone(req).(*sessionv1.DeviceCodeSession)
+
 	// Assign session expiration
-	req.ExpiresAt = uint64(time.Now().Unix()) + deviceCodeSessionLifetime
+	session.ExpiresAt = uint64(time.Now().Unix()) + deviceCodeSessionLifetime
+
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 
 	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), session, cache.DefaultExpiration)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, session.DeviceCode), session, cache.DefaultExpiration)
 
 	// No error
 	return deviceCodeSessionLifetime, nil
@@ -72,8 +86,7 @@ func (s *deviceCodeSessionStorage) Delete(ctx context.Context, issuer, code stri
 func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer, deviceCode string) (*sessionv1.DeviceCodeSession, error) {
 	// Retrieve from cache
 	if x, found := s.deviceCodeIndex.Get(s.deriveDeviceCode(issuer, deviceCode)); found {
-		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(x.(*sessionv1.DeviceCodeSession)).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
@@ -82,17 +95,32 @@ func (s *deviceCodeSessionStorage) GetByDeviceCode(ctx context.Context, issuer,
 func (s *deviceCodeSessionStorage) GetByUserCode(ctx context.Context, issuer, userCode string) (*sessionv1.DeviceCodeSession, error) {
 	// Retrieve from cache
 	if x, found := s.userCodeIndex.Get(s.deriveUserCode(issuer, userCode)); found {
-		req := x.(*sessionv1.DeviceCodeSession)
-		return req, nil
+		return proto.Clone(x.(*sessionv1.DeviceCodeSession)).(*sessionv1.DeviceCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
 }
 
 func (s *deviceCodeSessionStorage) Validate(ctx context.Context, issuer, userCode string, req *sessionv1.DeviceCodeSession) error {
-	// Insert in cache
-	s.userCodeIndex.Set(s.deriveUserCode(req.Issuer, userCode), req, cache.DefaultExpiration)
-	s.deviceCodeIndex.Set(s.deriveDeviceCode(req.Issuer, req.DeviceCode), req, cache.DefaultExpiration)
+	// Check parameters
+	if req == nil {
+		return fmt.Errorf("unable to store nil session")
+	}
+
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	// Only a pending session can be validated
+	x, expiration, found := s.userCodeIndex.GetWithExpiration(s.deriveUserCode(issuer, userCode))
+	if !found || x.(*sessionv1.DeviceCodeSession).Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
+		return storage.ErrNotFound
+	}
+
+	// Update sessions without extending their lifetime
+	session := proto.Clone(req).(*sessionv1.DeviceCodeSession)
+	remaining := max(time.Until(expiration), time.Nanosecond)
+	s.userCodeIndex.Set(s.deriveUserCode(issuer, userCode), session, remaining)
+	s.deviceCodeIndex.Set(s.deriveDeviceCode(issuer, session.DeviceCode), session, remaining)
 
 	// No error
 	return nil
-- 
2.43.0


From cfb46708f2b7da609f3f7cbc976ff350a4fbfcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:56 +0000
Subject: [PATCH 17/45] fix: isolate stored tokens from the tokens returned by
 lookups

---
 server/storage/inmemory/token.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 6f9c93e..97aab9b 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -70,8 +70,8 @@ func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Tok
 		return nil, storage.ErrNotFound
 	}
 
-	// No error
-	return client.(*tokenv1.Token), nil
+	// No error (clone to keep the stored token isolated from the caller)
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*tokenv1.Token, error) {
@@ -81,8 +81,8 @@ func (s *tokenStorage) GetByValue(ctx context.Context, issuer, value string) (*t
 		return nil, storage.ErrNotFound
 	}
 
-	// No error
-	return client.(*tokenv1.Token), nil
+	// No error (clone to keep the stored token isolated from the caller)
+	return proto.Clone(client.(*tokenv1.Token)).(*tokenv1.Token), nil
 }
 
 func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
-- 
2.43.0


From d085ca148eb2273ee4167e14f9f2b2b047a121ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:56 +0000
Subject: [PATCH 18/45] fix: separate token identifiers by issuer

---
 server/storage/inmemory/token.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index 97aab9b..ac01577 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -56,7 +56,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 	// Compute token value hash
 	tCopy.Value = s.deriveValue(issuer, tCopy.Value)
 
-	s.idIndex.Store(tCopy.TokenId, tCopy)
+	s.idIndex.Store(s.deriveID(issuer, tCopy.TokenId), tCopy)
 	s.valueIndex.Store(tCopy.Value, tCopy)
 
 	// No error
@@ -65,7 +65,7 @@ func (s *tokenStorage) Create(ctx context.Context, issuer string, t *tokenv1.Tok
 
 func (s *tokenStorage) Get(ctx context.Context, issuer, id string) (*tokenv1.Token, error) {
 	// Check is client exists
-	client, ok := s.idIndex.Load(id)
+	client, ok := s.idIndex.Load(s.deriveID(issuer, id))
 	if !ok {
 		return nil, storage.ErrNotFound
 	}
@@ -92,7 +92,7 @@ func (s *tokenStorage) Delete(ctx context.Context, issuer, id string) error {
 		return err
 	}
 
-	s.idIndex.Delete(t.TokenId)
+	s.idIndex.Delete(s.deriveID(issuer, t.TokenId))
 	s.valueIndex.Delete(t.Value)
 
 	// No error
@@ -110,7 +110,7 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 	t.Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
 
 	// Update maps
-	s.idIndex.Store(t.TokenId, t)
+	s.idIndex.Store(s.deriveID(issuer, t.TokenId), t)
 	s.valueIndex.Store(t.Value, t)
 
 	// No error
@@ -119,6 +119,10 @@ func (s *tokenStorage) Revoke(ctx context.Context, issuer, id string) error {
 
 // -----------------------------------------------------------------------------
 
+func (s *tokenStorage) deriveID(issuer, id string) string {
+	return fmt.Sprintf("%d:%s:%s", len(issuer), issuer, id)
+}
+
 func (s *tokenStorage) deriveValue(issuer, value string) string {
 	// Create hasher
 	h, err := blake2b.New256([]byte(`%JwQL_C=w^R@9?{J,=;LHe=&n0L1P{QrS=MsA}7H]V3fHd8&$noL&"hZH;&Uw)3`))
-- 
2.43.0


From 1b1fe18cdce0be46965b189678dfc0d3040a6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:56 +0000
Subject: [PATCH 19/45] fix: prevent issuer and identifier concatenation
 collisions in storage keys

---
 server/storage/inmemory/authorization_code_session.go | 2 +-
 server/storage/inmemory/authorization_request.go      | 2 +-
 server/storage/inmemory/device_code_session.go        | 4 ++--
 server/storage/inmemory/token.go                      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e0822e8..e13b37a 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -79,7 +79,7 @@ func (s *sessionStorage) deriveKey(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:authorization-code-sessions:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s:", len(issuer), issuer)
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 6c24209..ad51c81 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -79,7 +79,7 @@ func (s *authorizationRequestStorage) deriveKey(issuer, requestURI string) strin
 	}
 
 	h.Write([]byte("solid:authorization-requests:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s:", len(issuer), issuer)
 	h.Write([]byte(requestURI))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/device_code_session.go b/server/storage/inmemory/device_code_session.go
index e50110f..1cf8ded 100644
--- a/server/storage/inmemory/device_code_session.go
+++ b/server/storage/inmemory/device_code_session.go
@@ -136,7 +136,7 @@ func (s *deviceCodeSessionStorage) deriveUserCode(issuer, code string) string {
 	}
 
 	h.Write([]byte("solid:device-authorization-user-code:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s:", len(issuer), issuer)
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
@@ -150,7 +150,7 @@ func (s *deviceCodeSessionStorage) deriveDeviceCode(issuer, code string) string
 	}
 
 	h.Write([]byte("solid:device-authorization-device-code:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s:", len(issuer), issuer)
 	h.Write([]byte(code))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
diff --git a/server/storage/inmemory/token.go b/server/storage/inmemory/token.go
index ac01577..c0ce47e 100644
--- a/server/storage/inmemory/token.go
+++ b/server/storage/inmemory/token.go
@@ -131,7 +131,7 @@ func (s *tokenStorage) deriveValue(issuer, value string) string {
 	}
 
 	h.Write([]byte("solid:token:v1"))
-	h.Write([]byte(issuer))
+	fmt.Fprintf(h, "%d:%s:", len(issuer), issuer)
 	h.Write([]byte(value))
 
 	return fmt.Sprintf("%x", h.Sum(nil))
-- 
2.43.0


From 8247a0b3857aafba8b611fd16b99e3bbb5b08094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 20/45] fix: consume authorization codes and requests
 atomically

---
 server/services/token/grant_authorization_code.go   |  6 +++++-
 .../storage/inmemory/authorization_code_session.go  | 13 ++++++++++++-
 server/storage/inmemory/authorization_request.go    | 13 ++++++++++++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/server/services/token/grant_authorization_code.go b/server/services/token/grant_authorization_code.go
index 87a403c..2be711c 100644
--- a/server/services/token/grant_authorization_code.go
+++ b/server/services/token/grant_authorization_code.go
@@ -121,7 +121,11 @@ func (s *service) authorizationCode(ctx context.Context, client *clientv1.Client
 	// Delete session
 	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)
 	if err != nil {
-		res.Error = rfcerrors.ServerError().Build()
+		if err != storage.ErrNotFound {
+			res.Error = rfcerrors.ServerError().Build()
+		} else {
+			res.Error = rfcerrors.InvalidGrant().Build()
+		}
 		return res, fmt.Errorf("unable to remove authorization session from code '%s': %w", grant.Code, err)
 	}
 
diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index e13b37a..d42d4b7 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -30,6 +31,7 @@ import (
 )
 
 type sessionStorage struct {
+	mutex   sync.Mutex
 	backend *cache.Cache
 }
 
@@ -54,7 +56,16 @@ func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req
 }
 
 func (s *sessionStorage) Delete(ctx context.Context, issuer, code string) error {
-	s.backend.Delete(s.deriveKey(issuer, code))
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	// Only one of concurrent callers can delete the entry
+	key := s.deriveKey(issuer, code)
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+
+	s.backend.Delete(key)
 	// No error
 	return nil
 }
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index ad51c81..526316b 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -30,6 +31,7 @@ import (
 )
 
 type authorizationRequestStorage struct {
+	mutex   sync.Mutex
 	backend *cache.Cache
 }
 
@@ -54,7 +56,16 @@ func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requ
 }
 
 func (s *authorizationRequestStorage) Delete(ctx context.Context, issuer, requestURI string) error {
-	s.backend.Delete(s.deriveKey(issuer, requestURI))
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	// Only one of concurrent callers can delete the entry
+	key := s.deriveKey(issuer, requestURI)
+	if _, found := s.backend.Get(key); !found {
+		return storage.ErrNotFound
+	}
+
+	s.backend.Delete(key)
 	// No error
 	return nil
 }
-- 
2.43.0


From 2ff2eaa118e2be12ef8f1cd65e0c20ebd4db49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 21/45] fix: register a DPoP proof identifier at most once

---
 server/storage/inmemory/proof.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/storage/inmemory/proof.go b/server/storage/inmemory/proof.go
index d22c3ba..a0a4fb4 100644
--- a/server/storage/inmemory/proof.go
+++ b/server/storage/inmemory/proof.go
@@ -19,6 +19,7 @@ package inmemory
 
 import (
 	"context"
+	"fmt"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -43,8 +44,10 @@ func DPoPProofs() storage.DPoP {
 // -----------------------------------------------------------------------------
 
 func (s *proofCache) Register(ctx context.Context, id string) error {
-	// Insert in cache
-	s.backend.Set(id, id, cache.DefaultExpiration)
+	// Insert in cache only when the proof is not already known
+	if err := s.backend.Add(id, id, cache.DefaultExpiration); err != nil {
+		return fmt.Errorf("unable to register proof: %w", err)
+	}
 	// No error
 	return nil
 }
-- 
2.43.0


From 7fadc59c036b51c6eef2e5659cdec783060a00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 22/45] fix: protect the in-memory clients from concurrent
 registrations

---
 server/storage/inmemory/client.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index de66df2..9983052 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -20,6 +20,7 @@ package inmemory
 import (
 	"context"
 	"strings"
+	"sync"
 
 	"github.com/dchest/uniuri"
 
@@ -29,6 +30,7 @@ import (
 )
 
 type clientStorage struct {
+	mutex   sync.RWMutex
 	backend map[string]*clientv1.Client
 }
 
@@ -172,6 +174,9 @@ func Clients() storage.Client {
 // -----------------------------------------------------------------------------
 
 func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+
 	// Check is client exists
 	client, ok := s.backend[id]
 	if !ok {
@@ -183,6 +188,9 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
@@ -200,6 +208,9 @@ func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (strin
 	// Assign client id
 	c.ClientId = uniuri.NewLen(16)
 
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
 	// Assign to storage
 	s.backend[c.ClientId] = c
 
-- 
2.43.0


From 7466fbdad670e73353ae50b7201e75458c2162f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:50 +0000
Subject: [PATCH 23/45] fix: refuse nil request during client attestation
 authentication

---
 server/clientauthentication/client_attestation.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index be1662a..a4abfeb 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -58,6 +58,12 @@ type clientAttestationPOPClaims struct {
 func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
 	res := &clientv1.AuthenticateResponse{}
 
+	// Validate request
+	if req == nil {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("unable to process nil request")
+	}
+
 	// Validate required fields for this authentication method
 	if req.ClientAssertionType == nil {
 		res.Error = rfcerrors.InvalidRequest().Build()
-- 
2.43.0


From 75d4393553dde267299f6ad88876c6407ab52519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:50 +0000
Subject: [PATCH 24/45] fix: return a protocol error for every client
 attestation PoP refusal

---
 server/clientauthentication/client_attestation.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index a4abfeb..5243787 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -107,18 +107,21 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	var claims clientAttestationPOPClaims
 	if err := rawPoP.Claims(clientPublicKey, &claims); err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
-		return nil, fmt.Errorf("client attestation PoP is invalid: %w", err)
+		return res, fmt.Errorf("client attestation PoP is invalid: %w", err)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Expires == 0 || claims.JTI == "" || claims.Audience == "" {
-		return nil, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("iss, exp, jti, aud are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
-- 
2.43.0


From 1dfa2e8f9acae766b121191ae0e134bc13f62c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:50 +0000
Subject: [PATCH 25/45] fix: refuse client attestations which confirm no key

---
 server/clientauthentication/client_attestation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index 5243787..7d7d9b7 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -157,7 +157,7 @@ func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.
 	}
 
 	// Validate claims
-	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil {
+	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
 		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-- 
2.43.0


From 859fef8cdacbb953d05b037419ee5a49e5e8d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:51 +0000
Subject: [PATCH 26/45] fix: bind the client attestation PoP to the attested
 client

---
 .../client_attestation.go                     | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/server/clientauthentication/client_attestation.go b/server/clientauthentication/client_attestation.go
index 7d7d9b7..2e3cc85 100644
--- a/server/clientauthentication/client_attestation.go
+++ b/server/clientauthentication/client_attestation.go
@@ -90,7 +90,7 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 	}
 
 	// Decode assertions without validation first
-	clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
+	clientID, clientPublicKey, err := p.validateClientAttestation(ctx, assertions[0])
 	if err != nil {
 		res.Error = rfcerrors.UnauthorizedClient().Build()
 		return res, errors.New("invalid client attestation")
@@ -124,6 +124,12 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 		return res, fmt.Errorf("not useable token")
 	}
 
+	// Check that the PoP is issued by the attested client
+	if claims.Issuer != clientID {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("client attestation PoP issuer and client attestation subject must be identic")
+	}
+
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
@@ -143,55 +149,55 @@ func (p *clientAttestationAuthentication) Authenticate(ctx context.Context, req
 
 // -----------------------------------------------------------------------------
 
-func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (*jose.JSONWebKey, error) {
+func (p *clientAttestationAuthentication) validateClientAttestation(ctx context.Context, clientAttestation string) (string, *jose.JSONWebKey, error) {
 	// Parse attestation without cryptogrpahic verification first
 	rawAttestation, err := jose.ParseSigned(clientAttestation, p.supportedAlgorithms)
 	if err != nil {
-		return nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
+		return "", nil, fmt.Errorf("client attestation is syntaxically invalid: %w", err)
 	}
 
 	// Retrieve payload claims
 	var claims clientAttestationClaims
 	if errDecode := json.Unmarshal(rawAttestation.UnsafePayloadWithoutVerification(), &claims); errDecode != nil {
-		return nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
+		return "", nil, fmt.Errorf("unable to decode payload claims: %w", errDecode)
 	}
 
 	// Validate claims
 	if claims.Issuer == "" || claims.Subject == "" || claims.Expires == 0 || claims.Confirmation == nil || claims.Confirmation.JWK == nil {
-		return nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
+		return "", nil, fmt.Errorf("iss, sub, exp, cnf are mandatory and not empty")
 	}
 	if claims.Expires < uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("expired token")
+		return "", nil, fmt.Errorf("expired token")
 	}
 	if claims.NotBefore > uint64(time.Now().Unix()) {
-		return nil, fmt.Errorf("not useable token")
+		return "", nil, fmt.Errorf("not useable token")
 	}
 
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
 	if err != nil {
 		if err != storage.ErrNotFound {
-			return nil, fmt.Errorf("error during client retrieval: %w", err)
+			return "", nil, fmt.Errorf("error during client retrieval: %w", err)
 		}
-		return nil, fmt.Errorf("client not found")
+		return "", nil, fmt.Errorf("client not found")
 	}
 
 	// Retrieve JWK associated to the client
 	if len(client.Jwks) == 0 {
-		return nil, fmt.Errorf("client jwks is nil")
+		return "", nil, fmt.Errorf("client jwks is nil")
 	}
 
 	// Parse JWKS
 	var jwks jose.JSONWebKeySet
 	if err := json.Unmarshal(client.Jwks, &jwks); err != nil {
-		return nil, fmt.Errorf("client jwks is invalid: %w", err)
+		return "", nil, fmt.Errorf("client jwks is invalid: %w", err)
 	}
 
 	// Try to validate assertion with one of keys
 	if err := jwk.ValidateSignature(&jwks, rawAttestation); err != nil {
-		return nil, fmt.Errorf("client assertion is invalid: %w", err)
+		return "", nil, fmt.Errorf("client assertion is invalid: %w", err)
 	}
 
-	// Extract client public key
-	return claims.Confirmation.JWK, nil
+	// Extract client identifier and public key
+	return claims.Subject, claims.Confirmation.JWK, nil
 }
-- 
2.43.0


From 439fea035f2546cdddeed78d4fe89d2cd4db1ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:14 +0000
Subject: [PATCH 27/45] fix: refuse tokens without embedded key instead of
 panicking

---
 sdk/token/jwt/embedded_verifier.go | 3 +++
 sdk/token/jwt/token_adapter.go     | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/sdk/token/jwt/embedded_verifier.go b/sdk/token/jwt/embedded_verifier.go
index b0e88dc..97245d2 100644
--- a/sdk/token/jwt/embedded_verifier.go
+++ b/sdk/token/jwt/embedded_verifier.go
@@ -94,6 +94,9 @@ func (v *embeddedKeyVerifier) Claims(ctx context.Context, raw string, claims any
 
 	// Get embedded key.
 	embeddedJwk := t.Headers[0].JSONWebKey
+	if embeddedJwk == nil {
+		return errors.New("token has no embedded public key")
+	}
 
 	// Try to verify with current key
 	if err := t.Claims(embeddedJwk, claims); err != nil {
diff --git a/sdk/token/jwt/token_adapter.go b/sdk/token/jwt/token_adapter.go
index 962f65f..8ea6e37 100644
--- a/sdk/token/jwt/token_adapter.go
+++ b/sdk/token/jwt/token_adapter.go
@@ -60,6 +60,11 @@ func (tw *tokenAdapter) PublicKeyThumbPrint() (string, error) {
 		return "", fmt.Errorf("unable to retrieve embededded jwk from header")
 	}
 
+	// Ensure that a public key is embedded
+	if tw.token.Headers[0].JSONWebKey == nil {
+		return "", fmt.Errorf("token has no embedded public key")
+	}
+
 	// Generate thumbprint
 	h, err := tw.token.Headers[0].JSONWebKey.Thumbprint(crypto.SHA256)
 	if err != nil {
-- 
2.43.0


From 4183d55990b8ffc002818681a20b08ecd632a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:15 +0000
Subject: [PATCH 28/45] fix: refuse a nil key set during token verification

---
 sdk/token/jwt/verifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/token/jwt/verifier.go b/sdk/token/jwt/verifier.go
index f2d1e3c..9ef1afc 100644
--- a/sdk/token/jwt/verifier.go
+++ b/sdk/token/jwt/verifier.go
@@ -86,6 +86,9 @@ func (v *defaultVerifier) Claims(ctx context.Context, raw string, claims any) er
 	if err != nil {
 		return fmt.Errorf("unable to retrieve KeySet: %w", err)
 	}
+	if jwks == nil {
+		return errors.New("key set provider returned a nil KeySet")
+	}
 
 	// Set all keys by default
 	keys := jwks.Keys
-- 
2.43.0


From bf03cf9524ce7dd02bd327a4a48209efaf604b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 29/45] fix: decode introspection responses with their
 registered claim names

---
 client/claims.go | 17 ++++++++++++++---
 client/http.go   | 18 +++++++++++++++---
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index f00bd7d..4aded7c 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -60,8 +60,19 @@ type jsonJWKSResponse struct {
 	Expires             uint64 `json:"exp"`
 }
 
+// https://www.rfc-editor.org/rfc/rfc7662#section-2.2
 type jsonTokenIntrospectionResponse struct {
-	*tokenv1.TokenMeta `json:",inline"`
-	Active             bool                       `json:"active"`
-	Confirmation       *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
+	Active       bool                       `json:"active"`
+	Issuer       string                     `json:"iss"`
+	Subject      string                     `json:"sub"`
+	Audience     string                     `json:"aud"`
+	ClientID     string                     `json:"client_id"`
+	Scope        string                     `json:"scope"`
+	JTI          string                     `json:"jti"`
+	IssuedAt     uint64                     `json:"iat"`
+	NotBefore    uint64                     `json:"nbf"`
+	ExpiresAt    uint64                     `json:"exp"`
+	ACR          *string                    `json:"acr,omitempty"`
+	AuthTime     *uint64                    `json:"auth_time,omitempty"`
+	Confirmation *tokenv1.TokenConfirmation `json:"cnf,omitempty"`
 }
diff --git a/client/http.go b/client/http.go
index a67df99..ab23822 100644
--- a/client/http.go
+++ b/client/http.go
@@ -419,9 +419,21 @@ func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*
 
 	// Return token info
 	return &tokenv1.Token{
-		Issuer:       c.issuer,
-		Status:       tokenStatus,
-		Metadata:     t.TokenMeta,
+		Issuer:  c.issuer,
+		TokenId: t.JTI,
+		Status:  tokenStatus,
+		Metadata: &tokenv1.TokenMeta{
+			Issuer:    t.Issuer,
+			Subject:   t.Subject,
+			Audience:  t.Audience,
+			ClientId:  t.ClientID,
+			Scope:     t.Scope,
+			IssuedAt:  t.IssuedAt,
+			NotBefore: t.NotBefore,
+			ExpiresAt: t.ExpiresAt,
+			Acr:       t.ACR,
+			AuthTime:  t.AuthTime,
+		},
 		Confirmation: t.Confirmation,
 		Value:        token,
 	}, nil
-- 
2.43.0


From b73db1b238d6d2cbe78bf33489604a901339cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:10 +0000
Subject: [PATCH 30/45] fix: report a remote key set without keys instead of
 panicking

---
 client/http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/http.go b/client/http.go
index ab23822..7d877dc 100644
--- a/client/http.go
+++ b/client/http.go
@@ -481,7 +481,7 @@ func (c *httpClient) PublicKeys(ctx context.Context) (*jose.JSONWebKeySet, uint6
 	}
 
 	// Check keys
-	if len(jwks.Keys) == 0 {
+	if jwks.JSONWebKeySet == nil || len(jwks.Keys) == 0 {
 		return nil, 0, fmt.Errorf("remote jwks doesn't contain keys")
 	}
 
-- 
2.43.0


From 65bbd93662c70cbe3b3a1742f2fb437143293bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:11 +0000
Subject: [PATCH 31/45] fix: report null server metadata instead of panicking

---
 client/http.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/http.go b/client/http.go
index 7d877dc..1519872 100644
--- a/client/http.go
+++ b/client/http.go
@@ -66,6 +66,9 @@ func HTTP(ctx context.Context, issuer string, opts *Options) (Client, error) {
 	if err := json.NewDecoder(response.Body).Decode(&c.serverMetadata); err != nil {
 		return nil, fmt.Errorf("unable to decode server metadata: %w", err)
 	}
+	if c.serverMetadata == nil {
+		return nil, fmt.Errorf("server returned null metadata")
+	}
 
 	// Retrieve public keys
 	if _, _, err := c.PublicKeys(ctx); err != nil {
-- 
2.43.0


From ee08fb8e2ce559c88ded0b8f205c7f0fbf4b65b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:27 +0000
Subject: [PATCH 32/45] fix: refuse to revoke a token issued to another client

---
 server/services/token/revoke.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/token/revoke.go b/server/services/token/revoke.go
index 8ec4a7c..f87ad07 100644
--- a/server/services/token/revoke.go
+++ b/server/services/token/revoke.go
@@ -71,6 +71,12 @@ func (s *service) Revoke(ctx context.Context, req *tokenv1.RevokeRequest) (*toke
 		return res, fmt.Errorf("unable to retrieve token '%s': %w", req.Token, err)
 	}
 
+	// Check that the token was issued to the requesting client
+	if t.Metadata != nil && t.Metadata.ClientId != req.Client.ClientId {
+		res.Error = rfcerrors.UnauthorizedClient().Build()
+		return res, fmt.Errorf("only the client which owns the token can revoke it")
+	}
+
 	// Update token status
 	if err := s.tokens.Revoke(ctx, req.Issuer, t.TokenId); err != nil {
 		return res, fmt.Errorf("unable to revoke token '%s': %w", req.Token, err)
-- 
2.43.0


From 5377ff896847c37c687b348c6275fac30ebe1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:20 +0000
Subject: [PATCH 33/45] fix: refuse empty codes returned by the generators

---
 server/services/authorization/service.go | 8 ++++++++
 server/services/device/service.go        | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index ca97d1c..4125398 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -135,6 +135,10 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 		res.Error = rfcerrors.ServerError().State(req.Request.State).Build()
 		return res, fmt.Errorf("unable to generate authorization code: %w", err)
 	}
+	if code == "" {
+		res.Error = rfcerrors.ServerError().State(req.Request.State).Build()
+		return res, fmt.Errorf("authorization code generator generated an empty value")
+	}
 
 	// Create an authorization session
 	expiresIn, err := s.authorizationCodeSessions.Register(ctx, req.Issuer, code, &sessionv1.AuthorizationCodeSession{
@@ -215,6 +219,10 @@ func (s *service) Register(ctx context.Context, req *flowv1.RegistrationRequest)
 		res.Error = rfcerrors.ServerError().Build()
 		return res, fmt.Errorf("unable to generate request uri: %w", err)
 	}
+	if requestURI == "" {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("request uri generator generated an empty value")
+	}
 
 	// Register the authorization request
 	expiresIn, err := s.authorizationRequests.Register(ctx, req.Issuer, requestURI, req.Request)
diff --git a/server/services/device/service.go b/server/services/device/service.go
index a896eaa..6aaa0bb 100644
--- a/server/services/device/service.go
+++ b/server/services/device/service.go
@@ -97,6 +97,10 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		res.Error = rfcerrors.ServerError().Build()
 		return res, fmt.Errorf("unable to generate device code: %w", err)
 	}
+	if deviceCode == "" {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("device code generator generated an empty value")
+	}
 
 	// Generate device code
 	userCode, err := s.userCodes.Generate(ctx, req.Issuer)
@@ -104,6 +108,10 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.DeviceAuthorization
 		res.Error = rfcerrors.ServerError().Build()
 		return res, fmt.Errorf("unable to generate user code: %w", err)
 	}
+	if userCode == "" {
+		res.Error = rfcerrors.ServerError().Build()
+		return res, fmt.Errorf("user code generator generated an empty value")
+	}
 
 	// Prepare session
 	session := &sessionv1.DeviceCodeSession{
-- 
2.43.0


From dd107151e3c28655144b2a83e69adefe5702206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 34/45] fix: preserve the path escaping and drop the fragment
 in DPoP proofs

---
 sdk/dpop/prover.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/dpop/prover.go b/sdk/dpop/prover.go
index b3d0d01..73bd84f 100644
--- a/sdk/dpop/prover.go
+++ b/sdk/dpop/prover.go
@@ -62,7 +62,8 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 		return "", fmt.Errorf("htu must not be blank")
 	}
 
-	// Validate url
+	// Validate url (without fragment)
+	htu, _, _ = strings.Cut(htu, "#")
 	u, err := url.ParseRequestURI(htu)
 	if err != nil {
 		return "", fmt.Errorf("invalid URL syntax for proof '%s': %w", htu, err)
@@ -86,7 +87,7 @@ func (p *defaultProver) Prove(htm, htu string, opts ...Option) (string, error) {
 	claims := &proofClaims{
 		JTI:        uniuri.NewLen(JTICodeLength),
 		HTTPMethod: htm,
-		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.Path),
+		HTTPURL:    fmt.Sprintf("%s://%s%s", u.Scheme, u.Host, u.EscapedPath()),
 		IssuedAt:   uint64(time.Now().UTC().Unix()),
 	}
 
-- 
2.43.0


From b66b51104d204a59981722bc1a30eeb9e0b731fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:18 +0000
Subject: [PATCH 35/45] fix: report expired device codes with the registered
 expired_token error

---
 sdk/rfcerrors/errors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/rfcerrors/errors.go b/sdk/rfcerrors/errors.go
index 1e5ad4e..74371ce 100644
--- a/sdk/rfcerrors/errors.go
+++ b/sdk/rfcerrors/errors.go
@@ -107,10 +107,10 @@ func AccessDenied() ErrorBuilder {
 	}
 }
 
-// TokenExpired returns a compliant `token_expired` error.
+// TokenExpired returns a compliant `expired_token` error.
 func TokenExpired() ErrorBuilder {
 	return &defaultErrorBuilder{
-		err:              "token_expired",
+		err:              "expired_token",
 		errorDescription: "The 'device_code' has expired, and the device authorization session has concluded.",
 	}
 }
-- 
2.43.0


From 06a45ca8286ea3ec5e403df32eaceecd5943d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:47 +0000
Subject: [PATCH 36/45] fix: keep the escaped path in the URL checked by DPoP
 verification

---
 sdk/dpop/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/dpop/url.go b/sdk/dpop/url.go
index db340c6..9dabdd0 100644
--- a/sdk/dpop/url.go
+++ b/sdk/dpop/url.go
@@ -34,5 +34,5 @@ func CleanURL(r *http.Request) string {
 	}
 
 	// Assemble response
-	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.Path)
+	return fmt.Sprintf("%s://%s%s", scheme, r.Host, r.URL.EscapedPath())
 }
-- 
2.43.0


From 6e7c2b6634f8b0d0170727ed1284f388927cdcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:44 +0000
Subject: [PATCH 37/45] fix: refuse a nil key provider in the CWT signer

The CWT signer called a nil key provider and crashed, where the JWT signer
returns an error.
---
 sdk/token/cwt/signer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/token/cwt/signer.go b/sdk/token/cwt/signer.go
index 5ed4a10..c6a63fe 100644
--- a/sdk/token/cwt/signer.go
+++ b/sdk/token/cwt/signer.go
@@ -54,6 +54,9 @@ func (ds *defaultSigner) Serialize(ctx context.Context, claims any) (string, err
 	if types.IsNil(claims) {
 		return "", errors.New("unable to sign nil claim object")
 	}
+	if ds.keyProvider == nil {
+		return "", errors.New("unable to use nil keyProvider")
+	}
 
 	// Retrieve signing key
 	key, err := ds.keyProvider(ctx)
-- 
2.43.0


From a689717d41d9d38e9b5162e25084df0ca588678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 38/45] fix: release the lock of LockedRand when a draw panics

---
 sdk/randomness/locked_rand.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/randomness/locked_rand.go b/sdk/randomness/locked_rand.go
index 7c313c1..32a87e0 100644
--- a/sdk/randomness/locked_rand.go
+++ b/sdk/randomness/locked_rand.go
@@ -72,8 +72,8 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -81,8 +81,8 @@ func (lr *LockedRand) Int63n(n int64) (r int64) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -90,8 +90,8 @@ func (lr *LockedRand) Int31n(n int32) (r int32) {
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Intn(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -114,8 +114,8 @@ func (lr *LockedRand) Float32() (n float32) {
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Perm(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -152,8 +152,8 @@ func (lr *LockedRand) ExpFloat64() (n float64) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(n int, swap func(i, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Shuffle(n, swap)
-	lr.lk.Unlock()
 }
 
 // Read generates len(p) random bytes and writes them into p. It
-- 
2.43.0


From 988e1d0341f36d12c0a1be54269f0230df86e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:14 +0000
Subject: [PATCH 39/45] fix: client keeps the lifetime of the tokens it obtains

---
 client/claims.go | 7 +++++++
 client/http.go   | 9 +++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/client/claims.go b/client/claims.go
index 4aded7c..8f2f1c5 100644
--- a/client/claims.go
+++ b/client/claims.go
@@ -19,6 +19,7 @@ package client
 
 import (
 	"github.com/go-jose/go-jose/v4"
+	"golang.org/x/oauth2"
 
 	tokenv1 "zntr.io/solid/api/oidc/token/v1"
 )
@@ -60,6 +61,12 @@ type jsonJWKSResponse struct {
 	Expires             uint64 `json:"exp"`
 }
 
+// https://www.rfc-editor.org/rfc/rfc6749#section-5.1
+type jsonTokenResponse struct {
+	oauth2.Token
+	ExpiresIn uint32 `json:"expires_in"`
+}
+
 // https://www.rfc-editor.org/rfc/rfc7662#section-2.2
 type jsonTokenIntrospectionResponse struct {
 	Active       bool                       `json:"active"`
diff --git a/client/http.go b/client/http.go
index 1519872..1a1f208 100644
--- a/client/http.go
+++ b/client/http.go
@@ -360,13 +360,18 @@ func (c *httpClient) ClientCredentials(ctx context.Context, assertion string) (*
 	}
 
 	// Decode payload
-	var token oauth2.Token
+	var token jsonTokenResponse
 	if err := json.NewDecoder(io.LimitReader(response.Body, bodyLimiterSize)).Decode(&token); err != nil {
 		return nil, fmt.Errorf("unable to decode json response: %w", err)
 	}
 
+	// Assign expiration
+	if token.ExpiresIn > 0 {
+		token.Expiry = time.Now().Add(time.Duration(token.ExpiresIn) * time.Second)
+	}
+
 	// No error
-	return &token, nil
+	return &token.Token, nil
 }
 
 func (c *httpClient) Introspect(ctx context.Context, assertion, token string) (*tokenv1.Token, error) {
-- 
2.43.0


From 64c0e8b6321f8a1e86bf492d6b82d3000cc485fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 40/45] fix: profile answers do not share the profile's own
 lists

---
 server/profile/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/profile/client.go b/server/profile/client.go
index 4ee0111..1b8a9bb 100644
--- a/server/profile/client.go
+++ b/server/profile/client.go
@@ -27,17 +27,17 @@ type defaultClientProfile struct {
 }
 
 func (c *defaultClientProfile) GrantTypesSupported() types.StringArray {
-	return types.StringArray(c.grantTypesSupported)
+	return append(types.StringArray(nil), c.grantTypesSupported...)
 }
 
 func (c *defaultClientProfile) TokenEndpointAuthMethodsSupported() types.StringArray {
-	return types.StringArray(c.tokenEndpointAuthMethodsSupported)
+	return append(types.StringArray(nil), c.tokenEndpointAuthMethodsSupported...)
 }
 
 func (c *defaultClientProfile) ResponseTypesSupported() types.StringArray {
-	return types.StringArray(c.responseTypesSupported)
+	return append(types.StringArray(nil), c.responseTypesSupported...)
 }
 
 func (c *defaultClientProfile) DefaultScopes() types.StringArray {
-	return types.StringArray(c.defaultScopes)
+	return append(types.StringArray(nil), c.defaultScopes...)
 }
-- 
2.43.0


From 06ca0321ace886173473b76695170bce13c7a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 41/45] fix: isolate stored requests, codes, clients and
 resources from their callers

---
 server/storage/inmemory/authorization_code_session.go | 8 ++++----
 server/storage/inmemory/authorization_request.go      | 8 ++++----
 server/storage/inmemory/client.go                     | 9 +++++----
 server/storage/inmemory/resource.go                   | 4 +++-
 4 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/server/storage/inmemory/authorization_code_session.go b/server/storage/inmemory/authorization_code_session.go
index d42d4b7..24298a5 100644
--- a/server/storage/inmemory/authorization_code_session.go
+++ b/server/storage/inmemory/authorization_code_session.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	sessionv1 "zntr.io/solid/api/oidc/session/v1"
 	"zntr.io/solid/server/storage"
@@ -48,8 +49,8 @@ func AuthorizationCodeSessions() storage.AuthorizationCodeSession {
 // -----------------------------------------------------------------------------
 
 func (s *sessionStorage) Register(ctx context.Context, issuer, code string, req *sessionv1.AuthorizationCodeSession) (uint64, error) {
-	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, code), req, cache.DefaultExpiration)
+	// Insert a copy in cache to keep the stored state isolated from the caller
+	s.backend.Set(s.deriveKey(issuer, code), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return uint64(60), nil
@@ -73,8 +74,7 @@ func (s *sessionStorage) Delete(ctx context.Context, issuer, code string) error
 func (s *sessionStorage) Get(ctx context.Context, issuer, code string) (*sessionv1.AuthorizationCodeSession, error) {
 	// Retrieve from cache
 	if x, found := s.backend.Get(s.deriveKey(issuer, code)); found {
-		req := x.(*sessionv1.AuthorizationCodeSession)
-		return req, nil
+		return proto.Clone(x.(*sessionv1.AuthorizationCodeSession)).(*sessionv1.AuthorizationCodeSession), nil
 	}
 
 	return nil, storage.ErrNotFound
diff --git a/server/storage/inmemory/authorization_request.go b/server/storage/inmemory/authorization_request.go
index 526316b..db8bfce 100644
--- a/server/storage/inmemory/authorization_request.go
+++ b/server/storage/inmemory/authorization_request.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/patrickmn/go-cache"
 	"golang.org/x/crypto/blake2b"
+	"google.golang.org/protobuf/proto"
 
 	flowv1 "zntr.io/solid/api/oidc/flow/v1"
 	"zntr.io/solid/server/storage"
@@ -48,8 +49,8 @@ func AuthorizationRequests() storage.AuthorizationRequest {
 // -----------------------------------------------------------------------------
 
 func (s *authorizationRequestStorage) Register(ctx context.Context, issuer, requestURI string, req *flowv1.AuthorizationRequest) (uint64, error) {
-	// Insert in cache
-	s.backend.Set(s.deriveKey(issuer, requestURI), req, cache.DefaultExpiration)
+	// Insert a copy in cache to keep the stored state isolated from the caller
+	s.backend.Set(s.deriveKey(issuer, requestURI), proto.Clone(req), cache.DefaultExpiration)
 
 	// No error
 	return 60, nil
@@ -73,8 +74,7 @@ func (s *authorizationRequestStorage) Delete(ctx context.Context, issuer, reques
 func (s *authorizationRequestStorage) Get(ctx context.Context, issuer, requestURI string) (*flowv1.AuthorizationRequest, error) {
 	// Retrieve from cache
 	if x, found := s.backend.Get(s.deriveKey(issuer, requestURI)); found {
-		req := x.(*flowv1.AuthorizationRequest)
-		return req, nil
+		return proto.Clone(x.(*flowv1.AuthorizationRequest)).(*flowv1.AuthorizationRequest), nil
 	}
 
 	return nil, storage.ErrNotFound
diff --git a/server/storage/inmemory/client.go b/server/storage/inmemory/client.go
index 9983052..b30a71d 100644
--- a/server/storage/inmemory/client.go
+++ b/server/storage/inmemory/client.go
@@ -23,6 +23,7 @@ import (
 	"sync"
 
 	"github.com/dchest/uniuri"
+	"google.golang.org/protobuf/proto"
 
 	clientv1 "zntr.io/solid/api/oidc/client/v1"
 	"zntr.io/solid/oidc"
@@ -184,7 +185,7 @@ func (s *clientStorage) Get(ctx context.Context, id string) (*clientv1.Client, e
 	}
 
 	// No error
-	return client, nil
+	return proto.Clone(client).(*clientv1.Client), nil
 }
 
 func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.Client, error) {
@@ -194,7 +195,7 @@ func (s *clientStorage) GetByName(ctx context.Context, name string) (*clientv1.C
 	// Iterate over bakend map
 	for _, c := range s.backend {
 		if strings.EqualFold(c.ClientName, name) {
-			return c, nil
+			return proto.Clone(c).(*clientv1.Client), nil
 		}
 	}
 
@@ -211,8 +212,8 @@ func (s *clientStorage) Register(ctx context.Context, c *clientv1.Client) (strin
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
 
-	// Assign to storage
-	s.backend[c.ClientId] = c
+	// Assign a copy to storage
+	s.backend[c.ClientId] = proto.Clone(c).(*clientv1.Client)
 
 	// No error
 	return c.ClientId, nil
diff --git a/server/storage/inmemory/resource.go b/server/storage/inmemory/resource.go
index 94a4828..8efa1bc 100644
--- a/server/storage/inmemory/resource.go
+++ b/server/storage/inmemory/resource.go
@@ -20,6 +20,8 @@ package inmemory
 import (
 	"context"
 
+	"google.golang.org/protobuf/proto"
+
 	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
 	"zntr.io/solid/server/storage"
 )
@@ -57,5 +59,5 @@ func (s *resourceStorage) GetByURI(ctx context.Context, urn string) (*resourcev1
 	}
 
 	// No error
-	return resource, nil
+	return proto.Clone(resource).(*resourcev1.Resource), nil
 }
-- 
2.43.0


From 5ee44f7e67e5b7c9e12aa020ca483604326f045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:34 +0000
Subject: [PATCH 42/45] fix: return the state of a JARM error response

---
 sdk/jarm/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/jarm/decoder.go b/sdk/jarm/decoder.go
index d6b3932..e8e58d9 100644
--- a/sdk/jarm/decoder.go
+++ b/sdk/jarm/decoder.go
@@ -95,6 +95,7 @@ func (d *tokenDecoder) Decode(ctx context.Context, audience, response string) (*
 	// Decode claims
 	if claims.HasError() {
 		return &flowv1.AuthorizeResponse{
+			State: claims.State,
 			Error: &corev1.Error{
 				Err:              claims.Error,
 				ErrorDescription: claims.ErrorDescription,
-- 
2.43.0


From 0a0a4fb3b5233c90a8038c8abfe34fa4f5faa663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:54 +0000
Subject: [PATCH 43/45] fix: honor the not-before time of client assertions

---
 server/clientauthentication/private_key_jwt.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/server/clientauthentication/private_key_jwt.go b/server/clientauthentication/private_key_jwt.go
index 748c56b..bac5217 100644
--- a/server/clientauthentication/private_key_jwt.go
+++ b/server/clientauthentication/private_key_jwt.go
@@ -41,12 +41,13 @@ func PrivateKeyJWT(clients storage.ClientReader, supportedAlgorithms []jose.Sign
 }
 
 type privateJWTClaims struct {
-	JTI      string `json:"jti"`
-	Subject  string `json:"sub"`
-	Issuer   string `json:"iss"`
-	Audience string `json:"aud"`
-	Expires  uint64 `json:"exp"`
-	IssuedAt uint64 `json:"iat"`
+	JTI       string `json:"jti"`
+	Subject   string `json:"sub"`
+	Issuer    string `json:"iss"`
+	Audience  string `json:"aud"`
+	Expires   uint64 `json:"exp"`
+	IssuedAt  uint64 `json:"iat"`
+	NotBefore uint64 `json:"nbf"`
 }
 
 type privateKeyJWTAuthentication struct {
@@ -109,6 +110,10 @@ func (p *privateKeyJWTAuthentication) Authenticate(ctx context.Context, req *cli
 		res.Error = rfcerrors.InvalidRequest().Build()
 		return res, fmt.Errorf("expired token")
 	}
+	if claims.NotBefore > uint64(time.Now().Unix()) {
+		res.Error = rfcerrors.InvalidRequest().Build()
+		return res, fmt.Errorf("not useable token")
+	}
 
 	// Check client in storage
 	client, err := p.clients.Get(ctx, claims.Issuer)
-- 
2.43.0


From 074947f5c69090ac1b827b56a9a6387f19bf4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 44/45] fix: authorization: refuse requests made for another
 client

---
 server/services/authorization/service.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index 4125398..d8c392f 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -129,6 +129,12 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 		return res, err
 	}
 
+	// Check request / client association
+	if req.Client != nil && req.Client.ClientId != req.Request.ClientId {
+		res.Error = rfcerrors.InvalidRequest().State(req.Request.State).Build()
+		return res, fmt.Errorf("unable to authorize a request of another client")
+	}
+
 	// Create an authorization code
 	code, err := s.codeGenerator.Generate(ctx, req.Issuer)
 	if err != nil {
-- 
2.43.0


From 8e852684e166b53aac8483dd6ca000e05046c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:01 +0000
Subject: [PATCH 45/45] fix: authorization: report the response mode to use

---
 server/services/authorization/service.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/services/authorization/service.go b/server/services/authorization/service.go
index d8c392f..73f5e6f 100644
--- a/server/services/authorization/service.go
+++ b/server/services/authorization/service.go
@@ -169,6 +169,8 @@ func (s *service) Authorize(ctx context.Context, req *flowv1.AuthorizeRequest) (
 	res.ExpiresIn = expiresIn
 	// Assign issuer
 	res.Issuer = req.Issuer
+	// Assign requested response mode
+	res.ResponseMode = req.Request.GetResponseMode()
 
 	return res, err
 }
-- 
2.43.0

