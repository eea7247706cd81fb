package c07

import (
	"context"
	"fmt"
	"slices"
	"testing"

	"google.golang.org/protobuf/proto"

	"zntr.io/solid-verif/oidc"
	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

func TestC07(t *testing.T) {
	s := hx.New(t, "C07", "rapid: a stored client of any type (all enum values, also unknown ones) with any subset of grants and look-alike grant names, a request whose own client object lies about type and grants, optional scope (with openid/offline_access), audience, resource and confirmation; accept-iff oracle on the stored record, exact token contents, several requests per world. Non-trivial: the request was decided by type or grant of the stored record; identified by the record, the lie and the request.")

	s.Prop("request", 20000, func(c *hx.Case) {
		types := []clientv1.ClientType{clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED, clientv1.ClientType_CLIENT_TYPE_PUBLIC, clientv1.ClientType_CLIENT_TYPE_UNSPECIFIED, clientv1.ClientType(fx.Int(c.T, "enum", 4, 200))}
		mk := func(label, id string) *clientv1.Client {
			cl := fx.FullClient(id)
			cl.ClientType = fx.Pick(c.T, label+"_type", types...)
			cl.SubjectType = fx.Pick(c.T, label+"_st", "", "public", "pairwise")
			cl.SectorIdentifier = fx.Pick(c.T, label+"_sector", "", "sector.example")
			cl.ClientName = fx.Pick(c.T, label+"_name", "", id, "svc-b", "Service")
			switch fx.Int(c.T, label+"_grants", 0, 4) {
			case 0:
				cl.GrantTypes = nil
			case 1:
				cl.GrantTypes = slices.DeleteFunc(cl.GrantTypes, func(g string) bool { return g == oidc.GrantTypeClientCredentials })
				cl.GrantTypes = append(cl.GrantTypes, fx.Pick(c.T, label+"_alike", "client_credential", "client-credentials", "client_credentials ", "credentials", "xclient_credentials"))
			case 2:
				cl.GrantTypes = []string{oidc.GrantTypeClientCredentials}
			}
			return cl
		}
		stored := map[string]*clientv1.Client{"svc-a": mk("a", "svc-a"), "svc-b": mk("b", "svc-b")}
		w := fx.NewWorld(stored["svc-a"], stored["svc-b"])
		n := fx.Int(c.T, "n", 1, 4)
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			switch id := fx.Pick(c.T, "changes", "svc-a", "svc-b"); { // the registrations change
			case i == 0:
			case fx.Chance(c.T, "moved", 3):
				stored[id] = mk("new", id)
				w.Clients.Put(stored[id])
			case fx.Chance(c.T, "gone", 6):
				delete(stored, id)
				w.Clients.Remove(id)
			}
			id := fx.Pick(c.T, "as", "svc-a", "svc-b", "svc-a", "svc-b", "svc-c", "")
			lie := fx.FullClient(id)
			lie.ClientType = fx.Pick(c.T, "lie", types...)
			if fx.Chance(c.T, "lie_grants", 3) {
				lie.GrantTypes = nil
			}
			req := &flowv1.TokenRequest{
				Issuer: fx.Issuer(c.T, "iss"), Client: lie, GrantType: oidc.GrantTypeClientCredentials,
				Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}},
			}
			if fx.Chance(c.T, "has_scope", 2) {
				req.Scope = fx.Ref(fx.Pick(c.T, "scope", "", "openid", "openid offline_access", " ", fx.Spaced(c.T, "spaced", fx.Scope(c.T, "sc"))))
			}
			if fx.Chance(c.T, "has_aud", 2) {
				req.Audience = fx.Ref(fx.Pick(c.T, "aud", "", "https://api.example", "urn:x", "a b c", "é", " a", "a ", " ", "A"))
			}
			if fx.Chance(c.T, "has_res", 4) {
				req.Resource = []string{"urn:other"}
			}
			req.TokenConfirmation = fx.Confirmation(c.T, "cnf")
			sent := proto.Clone(req).(*flowv1.TokenRequest)
			res, err := w.Tok.Token(bg, req)
			c.Step()
			rec := stored[id]
			ok := rec != nil && (rec.ClientType == clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL || rec.ClientType == clientv1.ClientType_CLIENT_TYPE_CREDENTIALED) &&
				slices.Contains(rec.GrantTypes, oidc.GrantTypeClientCredentials)
			what := fmt.Sprintf("client_credentials for type=%v grants=%q", rec.GetClientType(), rec.GetGrantTypes())
			if rec != nil {
				c.NonTrivial("%s lie=%v scope=%q aud=%q cnf=%v", what, lie.ClientType, sent.GetScope(), sent.GetAudience(), sent.TokenConfirmation != nil)
				c.Hit("type=%v ok=%v", min(rec.ClientType, 4), ok)
			}
			if !ok {
				fx.WantTokenRefusal(c, what, res, err)
				continue
			}
			fx.WantTokens(c, what, res, err, false)
			if res.IdToken != nil {
				c.Fatalf("%s: id token %v", what, res.IdToken)
			}
			g := fx.Grant{Issuer: sent.Issuer, Client: id, Audience: sent.GetAudience(), Scope: sent.GetScope(), Jkt: sent.GetTokenConfirmation().GetJkt(), Type: tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN}
			fx.WantToken(c, what, res.AccessToken, g)
			if res.AccessToken.Metadata.Scope != sent.GetScope() {
				c.Fatalf("scope %q, requested %q", res.AccessToken.Metadata.Scope, sent.GetScope())
			}
			if seen[res.AccessToken.Value] {
				c.Fatalf("token value issued twice")
			}
			seen[res.AccessToken.Value] = true
			got, err := w.Tokens.GetByValue(bg, sent.Issuer, res.AccessToken.Value)
			if err != nil {
				c.Fatalf("issued token not stored: %v", err)
			}
			fx.WantToken(c, "stored token", got, g)
		}
	})
}
