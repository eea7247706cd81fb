exec(open("/verif/tools/seedspec/common.inc").read())
ID="exchange-audience-alias"; PROP="C08"
NEEDS="a resource store which finds a resource by another of its names than its urn"
BREAKS="The exchanged token's audience is the requested name instead of the registered resource's."
EDITS=[("server/services/token/grant_token_exchange.go","aud, err := s.resources.GetByURI(ctx, *req.Audience)","_, err := s.resources.GetByURI(ctx, *req.Audience)"),
("server/services/token/grant_token_exchange.go","at.Metadata.Audience = aud.Urn","at.Metadata.Audience = *req.Audience")]
PKG="server/services/token"
DEMO=TOKEN_HEAD.replace('sessionv1 "','resourcev1 "zntr.io/solid/api/oidc/resource/v1"\n\tsessionv1 "',1)+'''
type byURL struct{}

func (byURL) GetByURI(context.Context, string) (*resourcev1.Resource, error) {
	return &resourcev1.Resource{Urn: "urn:example:api"}, nil
}

func TestDemo(t *testing.T) {
	stored(t, "1", "subject", tokenv1.TokenType_TOKEN_TYPE_ACCESS_TOKEN, time.Hour, nil)
	aud := "https://api.example"
	s := New(sdktoken.OpaqueToken(), sdktoken.OpaqueToken(), clients, inmemory.AuthorizationRequests(), codes, devices, tokens, byURL{})
	res, err := s.Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeTokenExchange, Audience: &aud,
		Grant: &flowv1.TokenRequest_TokenExchange{TokenExchange: &flowv1.GrantTokenExchange{SubjectToken: "subject", SubjectTokenType: oidc.TokenExchangeAccessTokenType}}})
	if err != nil {
		t.Fatal(err)
	}
	if res.AccessToken.Metadata.Audience != "urn:example:api" {
		t.Fatalf("audience %q", res.AccessToken.Metadata.Audience)
	}
}
'''
