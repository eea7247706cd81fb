package c32

import (
	"slices"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"zntr.io/solid-verif/oidc"
	"zntr.io/solid/sdk/types"
	"zntr.io/solid/server/profile"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

// answer is what the profile says of one application type.
type answer struct{ grants, auths, responses, scopes []string }

// model is the documented strict profile.
var model = map[string]answer{
	"web":     {grants: []string{"authorization_code"}, responses: []string{"code"}, auths: []string{"private_key_jwt"}},
	"native":  {grants: []string{"authorization_code", "refresh_token"}, responses: []string{"code"}, auths: []string{"private_key_jwt"}},
	"device":  {grants: []string{"urn:ietf:params:oauth:grant-type:device_code", "refresh_token"}, responses: []string{"code"}, auths: []string{"private_key_jwt"}},
	"service": {grants: []string{"client_credentials"}, responses: []string{"token"}, auths: []string{"private_key_jwt"}},
}

var known = []string{"web", "native", "device", "service"}

func sorted(l []string) []string {
	l = slices.Clone(l)
	slices.Sort(l)
	return l
}

func diff(cl profile.Client, want answer) string {
	for _, x := range []struct {
		what      string
		got, want []string
	}{
		{"grants", cl.GrantTypesSupported(), want.grants},
		{"response types", cl.ResponseTypesSupported(), want.responses},
		{"authentication methods", cl.TokenEndpointAuthMethodsSupported(), want.auths},
		{"default scopes", cl.DefaultScopes(), want.scopes},
	} {
		if !slices.Equal(sorted(x.got), sorted(x.want)) {
			return "the " + x.what + " are [" + strings.Join(x.got, " ") + "], not [" + strings.Join(x.want, " ") + "]"
		}
	}
	return ""
}

// name draws an application type name, most often close to a known one.
func name(t *rapid.T, label string) string {
	k := fx.Pick(t, label+"_known", known...)
	switch fx.Int(t, label+"_kind", 0, 8) {
	case 0, 1, 2:
		return k
	case 3:
		return fx.FlipCase(t, label+"_case", k)
	case 4:
		return fx.Mutate(t, label+"_mut", k)
	case 5:
		return fx.Pick(t, label+"_other", "", "browser", "Web", "spa", "mobile", "desktop", "user-agent-based", "service_account", "confidential", "public", "machine", "*", "default", "strict", "web native", oidc.GrantTypeAuthorizationCode, "password", "implicit")
	case 6:
		return fx.Pick(t, label+"_pre", " ", "\t", "\n", "\x00", "/", "x", "web,", "") + k + fx.Pick(t, label+"_post", " ", "\t", "\n", "\x00", "/", "s", ",native", "-app", "")
	case 7:
		n := fx.Int(t, label+"_cut", 0, len(k))
		return k[:n]
	default:
		return rapid.StringN(0, 12, 24).Draw(t, label+"_any")
	}
}

func TestC32(t *testing.T) {
	s := hx.New(t, "C32", "histories of queries on the strict profile with known, nearly-known and drawn application type names, between which the caller edits the lists it was given; plus concurrent queries under the race detector, and the safety rules applied to whatever is answered. Non-trivial: a history with a known name asked at least twice with an edit in between, or a name that is one edit from a known one; identified by content.",
		"list order is not part of the answer", "the documented table of the strict profile is the oracle for the four types")

	s.Direct("table", func(t *testing.T) int {
		p := profile.Strict()
		for _, n := range known {
			cl, ok := p.ApplicationType(n)
			if !ok || cl == nil {
				t.Fatalf("type %q is not known to the strict profile", n)
			}
			if d := diff(cl, model[n]); d != "" {
				t.Fatalf("for type %q %s", n, d)
			}
		}
		return len(known)
	})

	s.Prop("history", 6000, func(c *hx.Case) {
		edited := map[string]bool{}
		again := false
		var log []string
		p := profile.Strict()
		held := map[string]profile.Client{}
		for n := fx.Int(c.T, "n", 1, 12); n > 0; n-- {
			c.Step()
			if fx.Chance(c.T, "fresh", 3) {
				p = profile.Strict()
			}
			x := name(c.T, "name")
			cl, ok := p.ApplicationType(x)
			want, is := model[x]
			log = append(log, x)
			if ok != is {
				c.Fatalf("type %q known=%v after %q", x, ok, log)
			}
			if !ok {
				if cl != nil {
					c.Fatalf("unknown type %q comes with a client profile", x)
				}
				c.Hit("refused")
				for _, k := range known {
					if strings.EqualFold(strings.TrimSpace(x), k) || (len(x) == len(k)-1 && strings.HasPrefix(k, x)) {
						c.Hit("refused near %s", k)
						c.NonTrivial("near %q", x)
					}
				}
				continue
			}
			if cl == nil {
				c.Fatalf("type %q has no client profile after %q", x, log)
			}
			if d := diff(cl, want); d != "" {
				c.Fatalf("for type %q %s after %q", x, d, log)
			}
			if h := held[x]; h != nil {
				if d := diff(h, want); d != "" {
					c.Fatalf("for the earlier answer for type %q %s after %q", x, d, log)
				}
			}
			held[x] = cl
			safe(c, x, cl)
			again = again || edited[x]
			c.Hit("known %s edited=%v", x, edited[x])
			if rapid.Bool().Draw(c.T, "edit") {
				var l types.StringArray
				switch fx.Int(c.T, "which", 0, 3) {
				case 0:
					l = cl.GrantTypesSupported()
				case 1:
					l = cl.ResponseTypesSupported()
				case 2:
					l = cl.TokenEndpointAuthMethodsSupported()
				default:
					l = cl.DefaultScopes()
				}
				how := fx.Pick(c.T, "how", "remove", "add", "write", "append")
				switch {
				case how == "remove" && len(l) > 0:
					l.Remove(fx.Pick(c.T, "item", l...))
				case how == "write" && len(l) > 0:
					l[fx.Int(c.T, "at", 0, len(l)-1)] = "password"
				case how == "append":
					l = append(l, "implicit")
				default:
					l.AddIfNotContains("implicit")
				}
				edited[x] = true
				log = append(log, "edit:"+how)
			}
		}
		if again {
			c.NonTrivial("%q", log)
		}
	})

	s.Prop("concurrent", 150, func(c *hx.Case) {
		n := fx.Int(c.T, "workers", 2, 6)
		names := make([][]string, n)
		for i := range names {
			for k := fx.Int(c.T, "len", 1, 6); k > 0; k-- {
				names[i] = append(names[i], name(c.T, "name"))
			}
		}
		var wg sync.WaitGroup
		bad := make([]string, n)
		for i := range names {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, x := range names[i] {
					cl, ok := profile.Strict().ApplicationType(x)
					want, is := model[x]
					if ok != is || (ok && cl == nil) {
						bad[i] = "type " + x + " answered wrongly"
						return
					}
					if !ok {
						continue
					}
					if d := diff(cl, want); d != "" {
						bad[i] = "for type " + x + " " + d
						return
					}
					l := cl.GrantTypesSupported()
					l.Remove(l[0])
				}
			}()
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				c.Fatalf("with %q asked concurrently: %s", names, b)
			}
		}
		c.NonTrivial("%q", names)
	})
}

// safe holds whatever the profile answers to the rules of the strict profile.
func safe(c *hx.Case, x string, cl profile.Client) {
	for _, g := range cl.GrantTypesSupported() {
		if g == "implicit" || g == "password" || g == "" || (g == oidc.GrantTypeRefreshToken && x != "native" && x != "device") {
			c.Fatalf("type %q may use grant %q", x, g)
		}
	}
	for _, bad := range []string{"implicit", "password"} {
		if cl.GrantTypesSupported().Contains(bad) {
			c.Fatalf("type %q may use grant %q", x, bad)
		}
	}
	if cl.GrantTypesSupported().Contains("refresh_token") != (x == "native" || x == "device") {
		c.Fatalf("type %q: refresh is %v", x, cl.GrantTypesSupported())
	}
	if a := cl.TokenEndpointAuthMethodsSupported(); len(a) != 1 || a[0] != "private_key_jwt" {
		c.Fatalf("type %q may authenticate with %v", x, a)
	}
	if r := cl.ResponseTypesSupported(); x != "service" && (len(r) != 1 || r[0] != "code") {
		c.Fatalf("interactive type %q may use responses %v", x, r)
	}
}
