package fx

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"net/url"
	"strings"
	"time"
	"unicode"

	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
)

// Alnum are letters and digits.
const Alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

// Unreserved are the PKCE verifier characters.
const Unreserved = Alnum + "-._~"

// Str draws n characters of an alphabet.
func Str(t *rapid.T, label, alphabet string, minLen, maxLen int) string {
	return rapid.StringOfN(rapid.RuneFrom([]rune(alphabet)), minLen, maxLen, -1).Draw(t, label)
}

// Chance is true in about one of n cases (false when shrunk).
func Chance(t *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

// Pick draws one element.
func Pick[E any](t *rapid.T, label string, of ...E) E {
	return rapid.SampledFrom(of).Draw(t, label)
}

// Unique returns a prefix with a process unique suffix drawn from the case, so
// that identifiers do not collide.
func Unique(t *rapid.T, label, prefix string, n int) string {
	return prefix + Str(t, label, Alnum, n, n)
}

// ScopeWords are the scope values used in requests.
var ScopeWords = []string{
	oidc.ScopeOpenID, oidc.ScopeOfflineAccess, "profile", "email", "address", "phone",
	"read", "write", "read:all", "timing", "offline", "open", "a", "https://api.example/scope",
	"offline_access2", "xoffline_access", "openid2", "offline_acces", "OFFLINE", "Read",
}

// Scope draws a scope string, words separated by single spaces.
func Scope(t *rapid.T, label string) string {
	return strings.Join(ScopeList(t, label), " ")
}

// Spaced sometimes adds blanks around and between the words of a scope.
func Spaced(t *rapid.T, label, s string) string {
	switch rapid.IntRange(0, 7).Draw(t, label) {
	case 5:
		return Pick(t, label+"_lead", " ", "  ") + s
	case 6:
		return s + Pick(t, label+"_trail", " ", "  ")
	case 7:
		return strings.ReplaceAll(s, " ", Pick(t, label+"_sep", "  ", "   "))
	}
	return s
}

// ScopeList draws scope words (duplicates possible).
func ScopeList(t *rapid.T, label string) []string {
	w := rapid.SliceOfN(rapid.SampledFrom(ScopeWords), 1, 6).Draw(t, label)
	switch rapid.IntRange(0, 3).Draw(t, label+"_core") {
	case 1:
		w = append([]string{oidc.ScopeOpenID}, w...)
	case 2:
		w = append(w, oidc.ScopeOpenID, oidc.ScopeOfflineAccess)
	case 3:
		w = append([]string{oidc.ScopeOfflineAccess}, append(w, oidc.ScopeOpenID)...)
	}
	return w
}

// Issuers are issuer identifiers, some of which are prefixes of others.
var Issuers = []string{
	"https://as.example.com", "https://as.example.com/", "https://as.example.com/tenant",
	"https://as.example.com/tenant1", "https://as.example.com:8443", "http://127.0.0.1:8080",
	"https://as.example.co", "https://AS.example.com", "https://other.example.org/a/b?c=d",
}

// Issuer draws an issuer.
func Issuer(t *rapid.T, label string) string {
	if Chance(t, label+"_rnd", 4) {
		return "https://" + Str(t, label+"_host", "abcdefghij", 1, 10) + ".example/" + Str(t, label+"_path", "abc/", 0, 6)
	}
	return rapid.SampledFrom(Issuers).Draw(t, label)
}

// ValidIssuer reports whether an issuer passes the syntax checks of all services.
func ValidIssuer(s string) bool {
	u, err := url.ParseRequestURI(s)
	return err == nil && u.Scheme != "" && u.Host != "" && s != ""
}

// OtherIssuer draws an issuer which differs from iss.
func OtherIssuer(t *rapid.T, label, iss string) string {
	v := ""
	switch rapid.IntRange(0, 6).Draw(t, label+"_kind") {
	case 0:
		v = iss + "/"
	case 1:
		v = iss + "x"
	case 2:
		if len(iss) > 12 {
			v = iss[:len(iss)-1]
		}
	case 3:
		v = FlipCase(t, label, iss)
	case 4:
		v = iss + "?x=1"
	}
	if v != iss && ValidIssuer(v) {
		return v
	}
	for _, o := range Issuers[rapid.IntRange(0, len(Issuers)-1).Draw(t, label):] {
		if o != iss {
			return o
		}
	}
	return "https://foreign.example"
}

// FlipCase changes the case of one letter, when there is one.
func FlipCase(t *rapid.T, label, s string) string {
	var pos []int
	rs := []rune(s)
	for i, r := range rs {
		if r < 128 && unicode.IsLetter(r) {
			pos = append(pos, i)
		}
	}
	if len(pos) == 0 {
		return s
	}
	i := rapid.SampledFrom(pos).Draw(t, label+"_flip")
	if unicode.IsUpper(rs[i]) {
		rs[i] = unicode.ToLower(rs[i])
	} else {
		rs[i] = unicode.ToUpper(rs[i])
	}
	return string(rs)
}

// Mutate returns a non-empty string near s but different from it.
func Mutate(t *rapid.T, label, s string) string {
	v := s
	switch rapid.IntRange(0, 9).Draw(t, label+"_mut") {
	case 0:
		v = s + Pick(t, label+"_app", "a", "/", " ", "0", "\x00", "\n", "=", "%20", "#", "?", ".", "*")
	case 1:
		if len(s) > 1 {
			v = s[:len(s)-1]
		}
	case 2:
		v = FlipCase(t, label, s)
	case 3:
		v = Pick(t, label+"_pre", " ", "a", "/", "\t") + s
	case 4:
		if len(s) > 1 {
			v = s[1:]
		}
	case 5:
		if len(s) > 0 {
			i := rapid.IntRange(0, len(s)-1).Draw(t, label+"_at")
			v = s[:i] + Pick(t, label+"_sub", "A", "z", "0", "-") + s[i+1:]
		}
	case 6:
		v = s + s
	case 7:
		if len(s) > 2 {
			i := rapid.IntRange(1, len(s)-1).Draw(t, label+"_cut")
			v = s[i:] + s[:i]
		}
	case 8:
		v = strings.ToUpper(s)
	case 9:
		if len(s) > 3 {
			v = s[:len(s)/2]
		}
	}
	if v == s || v == "" {
		v = s + "~"
	}
	return v
}

// Verifier draws a PKCE verifier.
func Verifier(t *rapid.T, label string) string {
	n := 43
	switch rapid.IntRange(0, 2).Draw(t, label+"_len") {
	case 1:
		n = 128
	case 2:
		n = rapid.IntRange(43, 128).Draw(t, label+"_n")
	}
	return Str(t, label, Unreserved, n, n)
}

// Challenge is the S256 challenge of a verifier.
func Challenge(verifier string) string {
	h := sha256.Sum256([]byte(verifier))
	return base64.RawURLEncoding.EncodeToString(h[:])
}

// Redirects are redirect URIs.
var Redirects = []string{
	"https://client.example/cb", "https://client.example/cb2", "https://client.example/CB",
	"http://127.0.0.1:8085/oidc/as/127.0.0.1", "com.example.app:/oauth2redirect", "https://client.example/cb?x=1",
	"https://client.example/", "https://client.example/cb/",
}

// Opt draws an optional string.
func Opt(t *rapid.T, label string, g *rapid.Generator[string]) *string {
	if rapid.Bool().Draw(t, label+"_set") {
		v := g.Draw(t, label)
		return &v
	}
	return nil
}

// Ref returns a pointer to v.
func Ref[V any](v V) *V { return &v }

// Confirmation draws an optional key confirmation.
func Confirmation(t *rapid.T, label string) *tokenv1.TokenConfirmation {
	if rapid.Bool().Draw(t, label+"_set") {
		return &tokenv1.TokenConfirmation{Jkt: Str(t, label, Alnum+"-_", 43, 43)}
	}
	return nil
}

// AllGrants lists all grant types.
var AllGrants = []string{
	oidc.GrantTypeAuthorizationCode, oidc.GrantTypeClientCredentials, oidc.GrantTypeDeviceCode,
	oidc.GrantTypeRefreshToken, oidc.GrantTypeTokenExchange,
}

// AllModes lists all response modes.
var AllModes = []string{
	oidc.ResponseModeQuery, oidc.ResponseModeFragment, oidc.ResponseModeFormPost, oidc.ResponseModeJWT,
	oidc.ResponseModeFormPOSTJWT, oidc.ResponseModeQueryJWT, oidc.ResponseModeFragmentJWT,
}

// FullClient returns a confidential client which may use everything.
func FullClient(id string, redirects ...string) *clientv1.Client {
	if len(redirects) == 0 {
		redirects = []string{"https://" + strings.ToLower(id) + ".example/cb"}
	}
	return &clientv1.Client{
		ClientId:      id,
		ClientName:    "name of " + id,
		ClientType:    clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL,
		GrantTypes:    append([]string{}, AllGrants...),
		ResponseTypes: []string{oidc.ResponseTypeCode, oidc.ResponseTypeToken},
		ResponseModes: append([]string{}, AllModes...),
		RedirectUris:  redirects,
	}
}

// ValidRequest draws an authorization request which fulfils every rule, for a
// client and one of its redirect URIs.
func ValidRequest(t *rapid.T, label string, clientID, redirect, verifier string) *flowv1.AuthorizationRequest {
	r := &flowv1.AuthorizationRequest{
		Scope:               Scope(t, label+"_scope"),
		ResponseType:        oidc.ResponseTypeCode,
		ClientId:            clientID,
		RedirectUri:         redirect,
		State:               Str(t, label+"_state", Unreserved, 32, 48),
		Nonce:               Str(t, label+"_nonce", Unreserved, 8, 20),
		Audience:            Pick(t, label+"_aud", "https://api.example", "urn:example:backend-api", "rs-1", "a"),
		CodeChallenge:       Challenge(verifier),
		CodeChallengeMethod: oidc.CodeChallengeMethodSha256,
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"_prompt") {
	case 0:
		r.Prompt = Ref(oidc.PromptConsent)
	case 1:
		r.Prompt = Ref(Pick(t, label+"_promptv", "login", "none", "select_account", "Consent", "consents", ""))
	}
	return r
}

// Describe abbreviates a value for samples.
func Describe(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// NearEnd draws a time to sleep which ends shortly before or after a moment
// (0.1 s to 1 s away), or zero when that lies too far in the past.
func NearEnd(t *rapid.T, label string, end time.Time) time.Duration {
	d := time.Until(end) + time.Duration(Pick(t, label, -950, -500, -100, 100, 500, 950))*time.Millisecond
	return max(d, 0)
}

// Clear reports whether now is far enough from the end of a lifetime to tell
// whether it is over.
func Clear(end time.Time) bool {
	d := time.Until(end)
	return d > 50*time.Millisecond || d < -50*time.Millisecond
}

// Int draws an integer of a closed interval.
func Int(t *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}
