package c36

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	corev1 "zntr.io/solid/api/oidc/core/v1"
	"zntr.io/solid/sdk/rfcerrors"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var kinds = []struct {
	code string
	make func() rfcerrors.ErrorBuilder
}{
	{"server_error", rfcerrors.ServerError},
	{"invalid_request", rfcerrors.InvalidRequest},
	{"invalid_scope", rfcerrors.InvalidScope},
	{"invalid_grant", rfcerrors.InvalidGrant},
	{"invalid_client", rfcerrors.InvalidClient},
	{"unauthorized_client", rfcerrors.UnauthorizedClient},
	{"unsupported_grant_type", rfcerrors.UnsupportedGrantType},
	{"invalid_token", rfcerrors.InvalidToken},
	{"authorization_pending", rfcerrors.AuthorizationPending},
	{"slow_down", rfcerrors.Slowdown},
	{"access_denied", rfcerrors.AccessDenied},
	{"expired_token", rfcerrors.TokenExpired},
	{"invalid_dpop_proof", rfcerrors.InvalidDPoPProof},
	{"invalid_redirect_uri", rfcerrors.InvalidRedirectURI},
	{"invalid_client_metadata", rfcerrors.InvalidClientMetadata},
	{"invalid_software_statement", rfcerrors.InvalidSoftwareStatement},
	{"unapproved_software_statement", rfcerrors.UnapprovedSoftwareStatement},
	{"invalid_target", rfcerrors.InvalidTarget},
	{"insufficient_user_authentication", rfcerrors.InsufficientUserAuthentication},
}

// builder is one builder in use, with what its next error must say.
type builder struct {
	kind         int
	b            rfcerrors.ErrorBuilder
	state, descr string
	own          bool
}

type built struct {
	kind int
	err  *corev1.Error
	want *corev1.Error
}

func text(t *rapid.T, label string) string {
	switch fx.Int(t, label, 0, 5) {
	case 0:
		return ""
	case 1:
		return " "
	case 2:
		return strings.Repeat("s", fx.Int(t, label+"_n", 1, 5000))
	case 3:
		return fx.Pick(t, label+"_v", "0", "null", "<nil>", "%s", "a&b=c", "state\x00", "é\n")
	}
	return rapid.StringN(1, 30, -1).Draw(t, label+"_s")
}

func (b *builder) want(descr string) *corev1.Error {
	e := &corev1.Error{Err: kinds[b.kind].code, ErrorDescription: descr}
	if b.own {
		e.ErrorDescription = b.descr
	}
	if b.state != "" {
		e.State = fx.Ref(b.state)
	}
	return e
}

func TestC36(t *testing.T) {
	s := hx.New(t, "C36", "rapid state machine over many builders of all error kinds at once: states and descriptions are set, replaced and cleared, errors built, built errors changed by their holder; after every step each error must read as built. The code of each kind is compared with the registered one, the standard description must be non-empty, of the RFC 6749 character set and the same on every build. Plus concurrent builds of independent builders. Non-trivial: a history with at least three errors built from at least two builders, one of them given a state; identified by its steps.",
		"the wording of standard descriptions is free")

	// the standard descriptions, read before anything could have changed them
	std := make([]string, len(kinds))
	for i, k := range kinds {
		e := k.make().Build()
		if e.GetErr() != k.code {
			t.Logf("%s is %v", k.code, e)
		}
		std[i] = e.GetErrorDescription()
	}
	check := func(fatalf func(string, ...any), kind int, e, want *corev1.Error) {
		if e == nil || !proto.Equal(e, want) || (e.State == nil) != (want.State == nil) {
			fatalf("%s built as\n%v, expected\n%v", kinds[kind].code, e, want)
		}
	}

	s.Prop("history", 3000, func(c *hx.Case) {
		var (
			bs    []*builder
			errs  []*built
			steps []string
		)
		pick := func(t *rapid.T) *builder {
			if len(bs) == 0 {
				t.Skip("no builder")
			}
			return bs[fx.Int(t, "which", 0, len(bs)-1)]
		}
		stated := false
		c.Repeat(map[string]func(*rapid.T){
			"": func(*rapid.T) {
				for _, e := range errs {
					check(c.Fatalf, e.kind, e.err, e.want)
				}
			},
			"new": func(t *rapid.T) {
				k := fx.Int(t, "kind", 0, len(kinds)-1)
				steps = append(steps, "new "+kinds[k].code)
				c.Step()
				b := &builder{kind: k, b: kinds[k].make()}
				bs = append(bs, b)
			},
			"state": func(t *rapid.T) {
				b := pick(t)
				b.state = text(t, "state")
				steps = append(steps, fmt.Sprintf("state %d", len(b.state)))
				c.Step()
				stated = stated || b.state != ""
				b.b = b.b.State(b.state)
			},
			"description": func(t *rapid.T) {
				b := pick(t)
				b.descr, b.own = text(t, "description"), true
				steps = append(steps, fmt.Sprintf("description %d", len(b.descr)))
				c.Step()
				b.b = b.b.Description(b.descr)
			},
			"build": func(t *rapid.T) {
				b := pick(t)
				steps = append(steps, "build")
				c.Step()
				e := b.b.Build()
				want := b.want(std[b.kind])
				check(c.Fatalf, b.kind, e, want)
				for _, o := range errs {
					if o.err == e || e.State != nil && o.err.State == e.State {
						c.Fatalf("two builds share an error or its state")
					}
				}
				errs = append(errs, &built{b.kind, e, want})
				c.Hit("%s state %v own %v", kinds[b.kind].code, b.state != "", b.own)
			},
			"change": func(t *rapid.T) { // the holder of an error changes it
				if len(errs) == 0 {
					t.Skip("none built")
				}
				e := errs[fx.Int(t, "which", 0, len(errs)-1)]
				steps = append(steps, "change")
				c.Step()
				fx.Spoil(e.err.ProtoReflect())
				if e.err.State != nil {
					*e.err.State += "!"
				}
				e.want = proto.Clone(e.err).(*corev1.Error)
			},
		})
		if len(errs) >= 3 && len(bs) >= 2 && stated {
			c.NonTrivial("%s", strings.Join(steps, ","))
		}
	})

	s.Direct("codes", func(t *testing.T) int {
		seen := map[string]bool{}
		for i, k := range kinds {
			for range 3 {
				e := k.make().Build()
				check(t.Fatalf, i, e, &corev1.Error{Err: k.code, ErrorDescription: std[i]})
			}
			if std[i] == "" || !utf8.ValidString(std[i]) {
				t.Fatalf("%s has description %q", k.code, std[i])
			}
			for _, r := range std[i] { // RFC 6749 section 5.2
				if r < 0x20 || r > 0x7e || r == '"' || r == '\\' {
					t.Fatalf("%s has %q in its description", k.code, r)
				}
			}
			if seen[k.code] {
				t.Fatalf("%s twice", k.code)
			}
			seen[k.code] = true
		}
		return 3 * len(kinds)
	})

	s.Prop("concurrent", 100, func(c *hx.Case) {
		type job struct {
			kind         int
			state, descr string
		}
		var jobs []job
		for range fx.Int(c.T, "jobs", 2, 16) {
			jobs = append(jobs, job{fx.Int(c.T, "kind", 0, len(kinds)-1), text(c.T, "state"), text(c.T, "description")})
		}
		got := make([]*corev1.Error, len(jobs))
		var wg sync.WaitGroup
		for i, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				got[i] = kinds[j.kind].make().State(j.state).Description(j.descr).Build()
			}()
		}
		wg.Wait()
		for i, j := range jobs {
			b := builder{kind: j.kind, state: j.state, descr: j.descr, own: true}
			check(c.Fatalf, j.kind, got[i], b.want(""))
		}
		c.NonTrivial("%v", len(jobs))
	})
}
