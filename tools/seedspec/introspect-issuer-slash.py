exec(open("/verif/tools/seedspec/common.inc").read())
ID="introspect-issuer-slash"; PROP="C10"
NEEDS="a token of an issuer whose identifier ends with a slash, or of one that differs from another by it"
BREAKS="Introspection looks tokens up at the issuer without its trailing slash: an issuer answers for the tokens of another one."
EDITS=[("server/services/token/introspection.go","""	t, err := s.tokens.GetByValue(ctx, req.Issuer, req.Token)""","""	t, err := s.tokens.GetByValue(ctx, strings.TrimSuffix(req.Issuer, "/"), req.Token)"""),
("server/services/token/introspection.go",'''	"net/url"
''','''	"net/url"
	"strings"
''')]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	stored(t, "id", "value", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, time.Hour, nil)
	res, err := svc().Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: iss + "/", Client: &clientv1.Client{ClientId: app}, Token: "value"})
	if err != nil {
		t.Fatal(err)
	}
	if res.Token.Status != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN {
		t.Fatalf("token of another issuer: %v", res.Token)
	}
}
'''
