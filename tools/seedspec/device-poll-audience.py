exec(open("/verif/tools/seedspec/common.inc").read())
ID="device-poll-audience"; PROP="C05"
NEEDS="a device authorization without an audience, approved, and polled with an audience parameter"
BREAKS="The poll request names the audience of the token, which the user never approved."
EDITS=[("server/services/token/grant_device_code.go","		Issuer:  req.Issuer,\n		Subject: *session.Subject,\n","		Issuer:   req.Issuer,\n		Subject:  *session.Subject,\n		Audience: req.GetAudience(),\n")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	c := &clientv1.Client{ClientName: "dev", GrantTypes: []string{oidc.GrantTypeDeviceCode}}
	id, err := clients.Register(ctx, c)
	if err != nil {
		t.Fatal(err)
	}
	c.ClientId = id
	alice, aud := "alice", "https://admin.example"
	ses := &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: "dc", Client: c, Request: &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: id},
		Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING}
	if _, err := devices.Register(ctx, iss, "uc", ses); err != nil {
		t.Fatal(err)
	}
	ses, err = devices.GetByUserCode(ctx, iss, "uc")
	if err != nil {
		t.Fatal(err)
	}
	ses.Subject, ses.Status = &alice, sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
	if err := devices.Validate(ctx, iss, "uc", ses); err != nil {
		t.Fatal(err)
	}
	res, err := svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: id}, GrantType: oidc.GrantTypeDeviceCode, Audience: &aud,
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: "dc", ClientId: id}}})
	if err != nil {
		t.Fatal(err)
	}
	if res.AccessToken.Metadata.Audience == aud {
		t.Fatalf("the poll chose the audience %q", aud)
	}
}
'''
