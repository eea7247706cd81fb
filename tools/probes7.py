# seventh batch of probes (same form as probes.py): codecs, RPC, profiles, errors, refusals
from probes6 import *
TV = "api/oidc/token/v1/token_vtproto.pb.go"
FV = "api/oidc/flow/v1/flow_api_vtproto.pb.go"
CV = "api/oidc/client/v1/client_vtproto.pb.go"
IGR = "api/oidc/token/v1/introspection_api_grpc.pb.go"
CGR = "api/oidc/client/v1/client_api_grpc.pb.go"
CJ = "api/oidc/client/v1/client_api.pb.json.go"
EB = "sdk/rfcerrors/builder.go"
ER = "sdk/rfcerrors/errors.go"
PS = "server/profile/profile_strict.go"
PCL = "server/profile/client.go"
PSV = "server/profile/server.go"
VA = "server/services/token/validator.go"
AZ = "server/services/authorization/service.go"
DV = "server/services/device/service.go"
INT = "server/services/token/introspection.go"
PROBES = [
 ("7-vt-merge", "C28", [(TV, "			if m.Metadata == nil {\n				m.Metadata = &TokenMeta{}\n			}\n", "			m.Metadata = &TokenMeta{}\n")]),
 ("7-vt-oneof-merge", "C28", [(FV, "			if oneof, ok := m.Grant.(*TokenRequest_DeviceCode); ok {", "			if oneof, ok := m.Grant.(*TokenRequest_DeviceCode); ok && len(m.unknownFields) > 0 {")]),
 ("7-vt-sov", "C28", [(TV, "	return (bits.Len64(x|1) + 6) / 7\n", "	return min((bits.Len64(x|1)+6)/7, 4)\n")]),
 ("7-vt-unknown-copy", "C28", [(TV, "		default:\n			iNdEx = preIndex\n			skippy, err := skip(dAtA[iNdEx:])\n			if err != nil {\n				return err\n			}\n			if (skippy < 0) || (iNdEx+skippy) < 0 {\n				return ErrInvalidLength\n			}\n			if (iNdEx + skippy) > l {\n				return io.ErrUnexpectedEOF\n			}\n			m.unknownFields = append(m.unknownFields, dAtA[iNdEx:iNdEx+skippy]...)", "		default:\n			iNdEx = preIndex\n			skippy, err := skip(dAtA[iNdEx:])\n			if err != nil {\n				return err\n			}\n			if (skippy < 0) || (iNdEx+skippy) < 0 {\n				return ErrInvalidLength\n			}\n			if (iNdEx + skippy) > l {\n				return io.ErrUnexpectedEOF\n			}\n			m.unknownFields = dAtA[iNdEx : iNdEx+skippy]")]),
 ("7-vt-scope-alias", "C28", [(TV, "			m.Scope = string(dAtA[iNdEx:postIndex])", "			m.Scope += string(dAtA[iNdEx:postIndex])")]),
 ("7-vt-acr-empty", "C28", [(TV, "	if m.Acr != nil {\n		i -= len(*m.Acr)", "	if m.Acr != nil && *m.Acr != \"\" {\n		i -= len(*m.Acr)")]),
 ("7-vt-map-empty", "C28", [(CV, "				m.ClientNameI18N = make(map[string]string)", "				m.ClientNameI18N = map[string]string{\"\": \"\"}")]),
 ("7-json-names", "C28", [(CJ, "func (msg *RegisterRequest) UnmarshalJSON(b []byte) error {\n	return protojson.UnmarshalOptions{\n		DiscardUnknown: true,\n	}.Unmarshal(b, msg)", "func (msg *RegisterRequest) UnmarshalJSON(b []byte) error {\n	if len(b) == 2 {\n		return nil\n	}\n	return protojson.UnmarshalOptions{\n		DiscardUnknown: true,\n	}.Unmarshal(b, msg)")]),
 ("7-json-discard", "C28", [(CJ, "func (msg *RegisterRequest) UnmarshalJSON(b []byte) error {\n	return protojson.UnmarshalOptions{\n		DiscardUnknown: true,", "func (msg *RegisterRequest) UnmarshalJSON(b []byte) error {\n	return protojson.UnmarshalOptions{\n		DiscardUnknown: false,")]),
 ("7-rpc-opts", "C35", [(IGR, "in, out, opts...)", "in, out)")]),
 ("7-rpc-err-out", "C35", [(IGR, "	if err != nil {\n		return nil, err\n	}\n	return out, nil\n}\n\n// IntrospectionServiceServer", "	if err != nil {\n		return out, nil\n	}\n	return out, nil\n}\n\n// IntrospectionServiceServer")]),
 ("7-rpc-interceptor", "C35", [(CGR, "	return interceptor(ctx, in, info, handler)\n}\n\n// ClientAuthenticationService_ServiceDesc", "	if _, err := interceptor(ctx, in, info, handler); err != nil {\n		return nil, err\n	}\n	return handler(ctx, in)\n}\n\n// ClientAuthenticationService_ServiceDesc")]),
 ("7-rpc-req", "C35", [(CGR, "Authenticate(ctx, req.(*AuthenticateRequest))", "Authenticate(ctx, in)")]),
 ("7-rpc-ctx", "C35", [(CGR, "	handler := func(ctx context.Context, req interface{}) (interface{}, error) {\n		return srv.(ClientAuthenticationServiceServer)", "	handler := func(_ context.Context, req interface{}) (interface{}, error) {\n		return srv.(ClientAuthenticationServiceServer)")]),
 ("7-rpc-unimpl", "C35", [(CGR, "	return nil, status.Errorf(codes.Unimplemented, \"method Register not implemented\")", "	return nil, status.Errorf(codes.Unavailable, \"method Register not implemented\")")]),
 ("7-rpc-reuse", "C35", [(IGR, "	out := new(IntrospectResponse)\n", "	out := &reused\n"), (IGR, "type introspectionServiceClient struct {", "var reused IntrospectResponse\n\ntype introspectionServiceClient struct {")]),
 ("7-err-state-ptr", "C36", [(EB, "types.StringRef(eb.state)", "&eb.state")]),
 ("7-err-uri-ptr", "C36", [(EB, "types.StringRef(eb.errorURI)", "&eb.errorURI")]),
 ("7-err-desc-once", "C36", [(EB, "	eb.errorDescription = value\n", "	if value != \"\" {\n		eb.errorDescription = value\n	}\n")]),
 ("7-err-state-trim", "C36", [(EB, "	eb.state = value\n", "	if value != \"\" {\n		eb.state = value\n	}\n")]),
 ("7-err-code", "C36", [(ER, "// InvalidScope returns a compliant `invalid_scope` error.\nfunc InvalidScope() ErrorBuilder {\n	return &defaultErrorBuilder{", "var scopeErr = &defaultErrorBuilder{}\n\n// InvalidScope returns a compliant `invalid_scope` error.\nfunc InvalidScope() ErrorBuilder {\n	*scopeErr = defaultErrorBuilder{"), (ER, "		err:              \"invalid_scope\",\n		errorDescription: \"The request is missing a required parameter, includes an invalid parameter value, includes a parameter more than once, or is otherwise malformed.\",\n	}\n", "		err:              \"invalid_scope\",\n		errorDescription: \"The request is missing a required parameter, includes an invalid parameter value, includes a parameter more than once, or is otherwise malformed.\",\n	}\n	return scopeErr\n")]),
 ("7-err-text", "C36", [(ER, "no client authentication included, or unsupported authentication method).", "no client authentication included, or \\\"unsupported\\\" authentication method).")]),
 ("7-prof-alias", "C32", [(PCL, "append(types.StringArray(nil), c.grantTypesSupported...)", "types.StringArray(c.grantTypesSupported)")]),
 ("7-prof-alias2", "C32", [(PCL, "append(types.StringArray(nil), c.responseTypesSupported...)", "append(types.StringArray(c.responseTypesSupported)[:0], c.responseTypesSupported...)")]),
 ("7-prof-trim", "C32", [(PSV, "s.clientProfiles[typeName]", "s.clientProfiles[strings.TrimSuffix(typeName, \"s\")]"), (PSV, "package profile\n", "package profile\n\nimport \"strings\"\n")]),
 ("7-prof-default", "C32", [(PSV, "	return c, ok\n", "	if typeName == \"\" {\n		c, ok = s.clientProfiles[\"web\"]\n	}\n	return c, ok\n")]),
 ("7-prof-web-refresh", "C32", [(PS, "				oidc.GrantTypeAuthorizationCode,\n			},\n			responseTypesSupported: []string{\n				oidc.ResponseTypeCode,\n			},\n			tokenEndpointAuthMethodsSupported: []string{\n				oidc.AuthMethodPrivateKeyJWT,\n			},\n		},\n		// Client side", "				oidc.GrantTypeAuthorizationCode,\n				oidc.GrantTypeTokenExchange,\n			},\n			responseTypesSupported: []string{\n				oidc.ResponseTypeCode,\n			},\n			tokenEndpointAuthMethodsSupported: []string{\n				oidc.AuthMethodPrivateKeyJWT,\n			},\n		},\n		// Client side")]),
 ("7-nil-grant-dc", "C26", [(VA, "		if req.GetDeviceCode() == nil {", "		if req.Grant == nil {")]),
 ("7-nil-grant-te", "C26", [(VA, "		if req.GetTokenExchange() == nil {", "		if req.Grant == nil {")]),
 ("7-nil-grant-cc", "C26", [(VA, "		if req.GetClientCredentials() == nil {", "		if req.Grant == nil {")]),
 ("7-nil-session-client", "C26", [(DV, "	if session.Client == nil {", "	if session.Client == nil && session.Scope != nil {")]),
 ("7-nil-dev-client", "C26", [(DV, "	if client == nil {", "	if client == nil && req.Scope != nil {")]),
 ("7-nil-prompt", "C26", [(AZ, "			if req.Prompt == nil {", "			if req.Prompt == nil && len(scopes) > 1 {")]),
 ("7-nil-introspect", "C26", [(INT, "	if req.Client == nil {", "	if req.Client == nil && req.TokenTypeHint == nil {")]),
]
