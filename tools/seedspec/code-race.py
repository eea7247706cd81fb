exec(open("/verif/tools/seedspec/common.inc").read())
ID="code-race"; PROP="C12"
NEEDS="two redemptions of one code, the second between the lookup and the deletion of the first"
BREAKS="A code already deleted is not an error: both of two concurrent redemptions get tokens."
EDITS=[("server/services/token/grant_authorization_code.go","""	err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code)
	if err != nil {
		if err != storage.ErrNotFound {
			res.Error = rfcerrors.ServerError().Build()
		} else {
			res.Error = rfcerrors.InvalidGrant().Build()
		}
		return res,""","""	if err = s.authorizationCodeSessions.Delete(ctx, req.Issuer, grant.Code); err != nil && err != storage.ErrNotFound {
		res.Error = rfcerrors.ServerError().Build()
		return res,""")]
PKG="server/services/token"
DEMO=TOKEN_HEAD+'''
type racing struct {
	storage.AuthorizationCodeSession
	once bool
	then func()
}

func (r *racing) Get(ctx context.Context, iss, code string) (*sessionv1.AuthorizationCodeSession, error) {
	s, err := r.AuthorizationCodeSession.Get(ctx, iss, code)
	if !r.once {
		r.once = true
		r.then()
	}
	return s, err
}

func TestDemo(t *testing.T) {
	v, ch, err := pkce.CodeVerifier()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := codes.Register(ctx, iss, "code", &sessionv1.AuthorizationCodeSession{Issuer: iss, Subject: "alice", Request: &flowv1.AuthorizationRequest{
		ClientId: app, RedirectUri: cb, Scope: "openid", Audience: "api", CodeChallenge: ch, CodeChallengeMethod: "S256"}}); err != nil {
		t.Fatal(err)
	}
	n := 0
	try := func() {
		if _, err := redeem(app, "code", cb, v); err == nil {
			n++
		}
	}
	codes = &racing{AuthorizationCodeSession: codes, then: try}
	try()
	if n != 1 {
		t.Fatalf("%d redemptions succeeded", n)
	}
}
'''
