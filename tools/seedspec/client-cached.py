ID="client-cached"; PROP="C06"
NEEDS="a client which used the token endpoint once loses the refresh_token grant (its registration changes) and refreshes afterwards"
BREAKS="The token service remembers client records for its lifetime, so a client from which the grant was withdrawn keeps refreshing."
EDITS=[("server/services/token/service.go","	resources                 storage.ResourceReader\n}","	resources                 storage.ResourceReader\n	known                     sync.Map // client records by identifier\n}"),
("server/services/token/service.go","	client, err := s.clients.Get(ctx, req.Client.ClientId)\n	if err != nil {","	client, err := s.client(ctx, req.Client.ClientId)\n	if err != nil {"),
("server/services/token/service.go","func (s *service) Token(ctx","// client resolves a client record.\nfunc (s *service) client(ctx context.Context, id string) (*clientv1.Client, error) {\n	if x, ok := s.known.Load(id); ok {\n		return x.(*clientv1.Client), nil\n	}\n	c, err := s.clients.Get(ctx, id)\n	if err == nil {\n		s.known.Store(id, c)\n	}\n	return c, err\n}\n\nfunc (s *service) Token(ctx"),
("server/services/token/service.go",'	"fmt"\n','	"fmt"\n	"sync"\n'),
("server/services/token/service.go",'	flowv1 "zntr.io/solid/api/oidc/flow/v1"\n','	clientv1 "zntr.io/solid/api/oidc/client/v1"\n	flowv1 "zntr.io/solid/api/oidc/flow/v1"\n')]
PKG="server/services/token"
exec(open("/verif/tools/seedspec/common.inc").read())
DEMO=TOKEN_HEAD+'''
type one struct{ c *clientv1.Client }

func (o *one) Get(context.Context, string) (*clientv1.Client, error)       { return o.c, nil }
func (o *one) GetByName(context.Context, string) (*clientv1.Client, error) { return o.c, nil }

func TestDemo(t *testing.T) {
	src := &one{c: &clientv1.Client{ClientId: app, GrantTypes: []string{oidc.GrantTypeRefreshToken}}}
	s := New(sdktoken.OpaqueToken(), sdktoken.OpaqueToken(), src, inmemory.AuthorizationRequests(), codes, devices, tokens, inmemory.Resources())
	stored(t, "1", "rt", tokenv1.TokenType_TOKEN_TYPE_REFRESH_TOKEN, 24*time.Hour, nil)
	use := func() error {
		_, err := s.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeRefreshToken,
			Grant: &flowv1.TokenRequest_RefreshToken{RefreshToken: &flowv1.GrantRefreshToken{RefreshToken: "rt"}}})
		return err
	}
	if err := use(); err != nil {
		t.Fatal(err)
	}
	src.c = &clientv1.Client{ClientId: app, GrantTypes: []string{oidc.GrantTypeClientCredentials}}
	if use() == nil {
		t.Fatal("a client which lost the grant refreshes")
	}
}
'''
