ID="rpc-wrong-name"; PROP="C35"
NEEDS="a server interceptor that decides by method name (an authorization of the Token method, say)"
BREAKS="Interceptors of the server see the Token method under the name of Authorize."
EDITS=[("api/oidc/flow/v1/flow_api_grpc.pb.go","		FullMethod: AuthorizationService_Token_FullMethodName,","		FullMethod: AuthorizationService_Authorize_FullMethodName,")]
PKG="api/oidc/flow/v1"
DEMO='''
package flowv1

import (
	"context"
	"testing"

	"google.golang.org/grpc"
)

func TestDemo(t *testing.T) {
	for _, m := range AuthorizationService_ServiceDesc.Methods {
		name := ""
		m.Handler(UnimplementedAuthorizationServiceServer{}, context.Background(), func(any) error { return nil },
			func(_ context.Context, _ any, info *grpc.UnaryServerInfo, _ grpc.UnaryHandler) (any, error) {
				name = info.FullMethod
				return nil, nil
			})
		if name != "/oidc.flow.v1.AuthorizationService/"+m.MethodName {
			t.Fatalf("%s is called %s", m.MethodName, name)
		}
	}
}
'''
