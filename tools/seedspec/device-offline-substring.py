exec(open("/verif/tools/seedspec/common.inc").read())
ID="device-offline-substring"; PROP="C05"
NEEDS="a device authorization for a scope value which contains offline_access as a part"
BREAKS="A device code yields a refresh token for scopes such as offline_access_read, although offline_access was not requested."
EDITS=[("server/services/token/grant_device_code.go","""		// Validate scopes
		scopes := types.StringArray(strings.Fields(*session.Scope))

		// Check if request has offline_access to generate refresh_token
		if scopes.Contains(oidc.ScopeOfflineAccess) {""","""		// Check if request has offline_access to generate refresh_token
		if strings.Contains(*session.Scope, oidc.ScopeOfflineAccess) {""")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
func TestDemo(t *testing.T) {
	alice, scope := "alice", "openid offline_access_read"
	ses := &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: "dc", Scope: &scope, Client: &clientv1.Client{ClientId: app}, Request: &flowv1.DeviceAuthorizationRequest{Issuer: iss, ClientId: app},
		Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING}
	if _, err := devices.Register(ctx, iss, "uc", ses); err != nil {
		t.Fatal(err)
	}
	ses, err := devices.GetByUserCode(ctx, iss, "uc")
	if err != nil {
		t.Fatal(err)
	}
	ses.Subject, ses.Status = &alice, sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
	if err := devices.Validate(ctx, iss, "uc", ses); err != nil {
		t.Fatal(err)
	}
	res, err := svc().Token(ctx, &flowv1.TokenRequest{Issuer: iss, Client: &clientv1.Client{ClientId: app}, GrantType: oidc.GrantTypeDeviceCode,
		Grant: &flowv1.TokenRequest_DeviceCode{DeviceCode: &flowv1.GrantDeviceCode{DeviceCode: "dc"}}})
	if err != nil {
		t.Fatal(err)
	}
	if res.RefreshToken != nil {
		t.Fatal("refresh token without offline_access")
	}
}
'''
