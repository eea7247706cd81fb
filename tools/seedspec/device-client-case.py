exec(open("/verif/tools/seedspec/common.inc").read())
ID="device-client-case"; PROP="C05"
NEEDS="two registered clients whose identifiers differ in letter case only, and a device code of one polled by the other"
BREAKS="The device grant compares client identifiers without case: another registered client can redeem an approved device code."
EDITS=[("server/services/token/grant_device_code.go","if session.Request.ClientId != client.ClientId {","if !strings.EqualFold(session.Request.ClientId, client.ClientId) {")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	reg := func(n string) *clientv1.Client {
		c := &clientv1.Client{ClientId: n, ClientName: n, GrantTypes: []string{oidc.GrantTypeDeviceCode}}
		id, err := clients.Register(ctx, c)
		if err != nil {
			t.Fatal(err)
		}
		c.ClientId = id
		return c
	}
	c := reg("client-a")
	// The initiating client is named as c, in another case.
	id := []byte(c.ClientId)
	for i := range id {
		if id[i] >= 'a' && id[i] <= 'z' {
			id[i] -= 32
		} else if id[i] >= 'A' && id[i] <= 'Z' {
			id[i] += 32
		}
	}
	alice := "alice"
	ses := &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: "dc", Client: &clientv1.Client{ClientId: string(id)}, Request: &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: string(id)},
		Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING}
	if _, err := devices.Register(ctx, iss, "uc", ses); err != nil {
		t.Fatal(err)
	}
	ses, err := devices.GetByUserCode(ctx, iss, "uc")
	if err != nil {
		t.Fatal(err)
	}
	ses.Subject, ses.Status = &alice, sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
	if err := devices.Validate(ctx, iss, "uc", ses); err != nil {
		t.Fatal(err)
	}
	res, err := svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: c.ClientId}, GrantType: oidc.GrantTypeDeviceCode,
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: "dc"}}})
	if err == nil {
		t.Fatalf("another client got a token: %v", res)
	}
}
'''
