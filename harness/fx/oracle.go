package fx

import (
	corev1 "zntr.io/solid/api/oidc/core/v1"
)

// ErrorCodes are the registered protocol error codes the server may report.
var ErrorCodes = map[string]bool{
	"server_error": true, "invalid_request": true, "invalid_scope": true, "invalid_grant": true,
	"invalid_client": true, "unauthorized_client": true, "unsupported_grant_type": true,
	"unsupported_response_type": true, "invalid_token": true, "authorization_pending": true,
	"slow_down": true, "access_denied": true, "expired_token": true, "invalid_dpop_proof": true,
	"invalid_redirect_uri": true, "invalid_client_metadata": true, "invalid_software_statement": true,
	"unapproved_software_statement": true, "invalid_target": true, "insufficient_user_authentication": true,
	"temporarily_unavailable": true, "use_dpop_nonce": true, "invalid_request_object": true,
	"invalid_request_uri": true, "insufficient_scope": true, "unsupported_token_type": true,
	"login_required": true, "consent_required": true, "interaction_required": true,
}

// TB is the part of rapid.T the oracles need.
type TB interface {
	Fatalf(format string, args ...any)
}

// WantRefusal checks the shape of a refused operation.
func WantRefusal(t TB, what string, err error, e *corev1.Error) {
	if err == nil {
		t.Fatalf("%s: expected a refusal, got success (protocol error %v)", what, e)
	}
	if e == nil {
		t.Fatalf("%s: refused without a protocol error: %v", what, err)
	}
	if !ErrorCodes[e.Err] {
		t.Fatalf("%s: refused with unregistered protocol error %q", what, e.Err)
	}
}

// WantOK checks the shape of a successful operation.
func WantOK(t TB, what string, err error, e *corev1.Error) {
	if err != nil {
		t.Fatalf("%s: expected success, got %v (protocol error %v)", what, err, e)
	}
	if e != nil {
		t.Fatalf("%s: success together with protocol error %v", what, e)
	}
}
