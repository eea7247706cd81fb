exec(open("/verif/tools/seedspec/common.inc").read())
ID="introspect-trim"; PROP="C09"
NEEDS="an introspected string which is an issued token with white space around it"
BREAKS="Introspection reports an issued token for a string which is not that token."
EDITS=[("server/services/token/introspection.go","s.tokens.GetByValue(ctx, req.Issuer, req.Token)","s.tokens.GetByValue(ctx, req.Issuer, strings.TrimSpace(req.Token))"),
("server/services/token/introspection.go",'	"net/url"\n','	"net/url"\n	"strings"\n')]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	stored(t, "1", "value", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, time.Minute, nil)
	res, err := svc().Introspect(ctx, &tokenv1.IntrospectRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, Token: " value\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if res.Token.Status != tokenv1.TokenStatus_TOKEN_STATUS_UNKNOWN {
		t.Fatalf("status %v for a string which was never issued", res.Token.Status)
	}
}
'''
