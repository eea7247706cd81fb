exec(open("/verif/tools/seedspec/common.inc").read())
ID="public-credentials"; PROP="C07"
NEEDS="a registered client without a client type which has the client_credentials grant"
BREAKS="Only public clients are refused: a client registered without a type gets client_credentials tokens."
EDITS=[("server/services/token/grant_client_credentials.go","""	case clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED:
		// Valid
	default:
""","""	case clientv1.ClientType_CLIENT_TYPE_PUBLIC:
"""),("server/services/token/grant_client_credentials_test.go","","")][:1]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	id, err := clients.Register(ctx, &clientv1.Client{ClientName: "untyped", ClientType: clientv1.ClientType(9), GrantTypes: []string{oidc.GrantTypeClientCredentials}})
	if err != nil {
		t.Fatal(err)
	}
	res, err := svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: id}, GrantType: oidc.GrantTypeClientCredentials,
		Grant: &flowv1.TokenRequest_ClientCredentials{ClientCredentials: &flowv1.GrantClientCredentials{}}})
	if err == nil {
		t.Fatalf("token issued: %v", res)
	}
}
'''
EDITS=[("server/services/token/grant_client_credentials.go","""	case clientv1.ClientType_CLIENT_TYPE_CONFIDENTIAL, clientv1.ClientType_CLIENT_TYPE_CREDENTIALED:
		// Valid
	default:
""","""	case clientv1.ClientType_CLIENT_TYPE_UNSPECIFIED, clientv1.ClientType_CLIENT_TYPE_PUBLIC:
""")]
BREAKS="Unspecified and public clients are refused by name, so a client of any other (unknown) type gets client_credentials tokens."
NEEDS="a registered client of a type unknown to this version which has the client_credentials grant"
