package c35

import (
	"context"
	"errors"
	"fmt"
	"net"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"pgregory.net/rapid"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

const (
	authorize    = "/oidc.flow.v1.AuthorizationService/Authorize"
	token        = "/oidc.flow.v1.AuthorizationService/Token"
	introspect   = "/oidc.token.v1.IntrospectionService/Introspect"
	revoke       = "/oidc.token.v1.RevocatonService/Revoke"
	authenticate = "/oidc.client.v1.ClientAuthenticationService/Authenticate"
	register     = "/oidc.client.v1.ClientRegistrationService/Register"
)

// handle is what an implementation of any of the services does with a call.
type handle func(ctx context.Context, srv any, full string, in proto.Message) (proto.Message, error)

func as[T proto.Message](m proto.Message, err error) (T, error) {
	r, _ := m.(T)
	return r, err
}

type flowServer struct{ h handle }

func (s *flowServer) Authorize(ctx context.Context, in *flowv1.AuthorizeRequest) (*flowv1.AuthorizeResponse, error) {
	return as[*flowv1.AuthorizeResponse](s.h(ctx, s, authorize, in))
}
func (s *flowServer) Token(ctx context.Context, in *flowv1.TokenRequest) (*flowv1.TokenResponse, error) {
	return as[*flowv1.TokenResponse](s.h(ctx, s, token, in))
}

type introspectionServer struct{ h handle }

func (s *introspectionServer) Introspect(ctx context.Context, in *tokenv1.IntrospectRequest) (*tokenv1.IntrospectResponse, error) {
	return as[*tokenv1.IntrospectResponse](s.h(ctx, s, introspect, in))
}

type revocationServer struct{ h handle }

func (s *revocationServer) Revoke(ctx context.Context, in *tokenv1.RevokeRequest) (*tokenv1.RevokeResponse, error) {
	return as[*tokenv1.RevokeResponse](s.h(ctx, s, revoke, in))
}

type authenticationServer struct{ h handle }

func (s *authenticationServer) Authenticate(ctx context.Context, in *clientv1.AuthenticateRequest) (*clientv1.AuthenticateResponse, error) {
	return as[*clientv1.AuthenticateResponse](s.h(ctx, s, authenticate, in))
}

type registrationServer struct{ h handle }

func (s *registrationServer) Register(ctx context.Context, in *clientv1.RegisterRequest) (*clientv1.RegisterResponse, error) {
	return as[*clientv1.RegisterResponse](s.h(ctx, s, register, in))
}

// halfFlow implements Token only.
type halfFlow struct {
	flowv1.UnimplementedAuthorizationServiceServer
	h handle
}

func (s *halfFlow) Token(ctx context.Context, in *flowv1.TokenRequest) (*flowv1.TokenResponse, error) {
	return as[*flowv1.TokenResponse](s.h(ctx, s, token, in))
}

type service struct {
	name          string
	file          string
	desc          *grpc.ServiceDesc
	register      func(r grpc.ServiceRegistrar, h handle)
	unimplemented func(r grpc.ServiceRegistrar)
}

var services = []service{
	{"oidc.flow.v1.AuthorizationService", "oidc/flow/v1/flow_api.proto", &flowv1.AuthorizationService_ServiceDesc,
		func(r grpc.ServiceRegistrar, h handle) {
			flowv1.RegisterAuthorizationServiceServer(r, &flowServer{h})
		},
		func(r grpc.ServiceRegistrar) {
			flowv1.RegisterAuthorizationServiceServer(r, flowv1.UnimplementedAuthorizationServiceServer{})
		}},
	{"oidc.token.v1.IntrospectionService", "oidc/token/v1/introspection_api.proto", &tokenv1.IntrospectionService_ServiceDesc,
		func(r grpc.ServiceRegistrar, h handle) {
			tokenv1.RegisterIntrospectionServiceServer(r, &introspectionServer{h})
		},
		func(r grpc.ServiceRegistrar) {
			tokenv1.RegisterIntrospectionServiceServer(r, tokenv1.UnimplementedIntrospectionServiceServer{})
		}},
	{"oidc.token.v1.RevocatonService", "oidc/token/v1/revocation_api.proto", &tokenv1.RevocatonService_ServiceDesc,
		func(r grpc.ServiceRegistrar, h handle) {
			tokenv1.RegisterRevocatonServiceServer(r, &revocationServer{h})
		},
		func(r grpc.ServiceRegistrar) {
			tokenv1.RegisterRevocatonServiceServer(r, tokenv1.UnimplementedRevocatonServiceServer{})
		}},
	{"oidc.client.v1.ClientAuthenticationService", "oidc/client/v1/client_api.proto", &clientv1.ClientAuthenticationService_ServiceDesc,
		func(r grpc.ServiceRegistrar, h handle) {
			clientv1.RegisterClientAuthenticationServiceServer(r, &authenticationServer{h})
		},
		func(r grpc.ServiceRegistrar) {
			clientv1.RegisterClientAuthenticationServiceServer(r, clientv1.UnimplementedClientAuthenticationServiceServer{})
		}},
	{"oidc.client.v1.ClientRegistrationService", "oidc/client/v1/client_api.proto", &clientv1.ClientRegistrationService_ServiceDesc,
		func(r grpc.ServiceRegistrar, h handle) {
			clientv1.RegisterClientRegistrationServiceServer(r, &registrationServer{h})
		},
		func(r grpc.ServiceRegistrar) {
			clientv1.RegisterClientRegistrationServiceServer(r, clientv1.UnimplementedClientRegistrationServiceServer{})
		}},
}

type method struct {
	full    string
	in, out proto.Message
	call    func(ctx context.Context, cc grpc.ClientConnInterface, in proto.Message, opts ...grpc.CallOption) (proto.Message, error)
}

func (m *method) service() string { return strings.Split(m.full, "/")[1] }
func (m *method) name() string    { return strings.Split(m.full, "/")[2] }

// plain keeps a nil answer nil.
func plain[T interface {
	proto.Message
	comparable
}](m T, err error) (proto.Message, error) {
	var none T
	if m == none {
		return nil, err
	}
	return m, err
}

var methods = []method{
	{authorize, &flowv1.AuthorizeRequest{}, &flowv1.AuthorizeResponse{}, func(ctx context.Context, cc grpc.ClientConnInterface, in proto.Message, opts ...grpc.CallOption) (proto.Message, error) {
		return plain(flowv1.NewAuthorizationServiceClient(cc).Authorize(ctx, in.(*flowv1.AuthorizeRequest), opts...))
	}},
	{token, &flowv1.TokenRequest{}, &flowv1.TokenResponse{}, func(ctx context.Context, cc grpc.ClientConnInterface, in proto.Message, opts ...grpc.CallOption) (proto.Message, error) {
		return plain(flowv1.NewAuthorizationServiceClient(cc).Token(ctx, in.(*flowv1.TokenRequest), opts...))
	}},
	{introspect, &tokenv1.IntrospectRequest{}, &tokenv1.IntrospectResponse{}, func(ctx context.Context, cc grpc.ClientConnInterface, in proto.Message, opts ...grpc.CallOption) (proto.Message, error) {
		return plain(tokenv1.NewIntrospectionServiceClient(cc).Introspect(ctx, in.(*tokenv1.IntrospectRequest), opts...))
	}},
	{revoke, &tokenv1.RevokeRequest{}, &tokenv1.RevokeResponse{}, func(ctx context.Context, cc grpc.ClientConnInterface, in proto.Message, opts ...grpc.CallOption) (proto.Message, error) {
		return plain(tokenv1.NewRevocatonServiceClient(cc).Revoke(ctx, in.(*tokenv1.RevokeRequest), opts...))
	}},
	{authenticate, &clientv1.AuthenticateRequest{}, &clientv1.AuthenticateResponse{}, func(ctx context.Context, cc grpc.ClientConnInterface, in proto.Message, opts ...grpc.CallOption) (proto.Message, error) {
		return plain(clientv1.NewClientAuthenticationServiceClient(cc).Authenticate(ctx, in.(*clientv1.AuthenticateRequest), opts...))
	}},
	{register, &clientv1.RegisterRequest{}, &clientv1.RegisterResponse{}, func(ctx context.Context, cc grpc.ClientConnInterface, in proto.Message, opts ...grpc.CallOption) (proto.Message, error) {
		return plain(clientv1.NewClientRegistrationServiceClient(cc).Register(ctx, in.(*clientv1.RegisterRequest), opts...))
	}},
}

func filled(t *rapid.T, like proto.Message) proto.Message {
	m := like.ProtoReflect().New()
	fx.FillProto(t, m, fx.Int(t, "depth", 0, 3), fx.Int(t, "density", 1, 4))
	return m.Interface()
}

// failure draws an error a handler may return.
func failure(t *rapid.T) error {
	st := status.New(codes.Code(fx.Int(t, "code", 1, 16)), rapid.StringN(0, 20, -1).Draw(t, "message"))
	if fx.Chance(t, "details", 2) {
		st, _ = st.WithDetails(&errdetails.ErrorInfo{Reason: rapid.StringN(0, 20, -1).Draw(t, "reason")})
	}
	return st.Err()
}

func sameStatus(a, b error) bool {
	x, ok := status.FromError(a)
	y, ok2 := status.FromError(b)
	return ok && ok2 && x.Code() == y.Code() && x.Message() == y.Message() && len(x.Details()) == len(y.Details())
}

// call is one drawn call with what its handler answers.
type call struct {
	m      *method
	id     string
	in     proto.Message
	out    proto.Message
	err    error
	dead   bool
	header string

	seen    int
	handler string
	got     proto.Message
	trace   []string
	resp    proto.Message
	respErr error
	md      metadata.MD
}

const (
	full = iota
	missing
	unimplemented
	half
)

func TestC35(t *testing.T) {
	s := hx.New(t, "C35", "rapid; every RPC of every service over an in-memory gRPC connection, with drawn requests, answers, error statuses, metadata, deadlines, concurrent callers and interceptors on both sides, and services that are complete, partial, unimplemented or absent; plus the stubs over recorded connections and registrars, and the service descriptors against the documented ones. Non-trivial: a case in which several methods were called, at least one with a populated request and answer; identified by the calls.",
		"the gRPC library itself carries messages faithfully")

	s.Prop("wire", 300, func(c *hx.Case) {
		var (
			mu    sync.Mutex
			calls = map[string]*call{}
		)
		h := func(ctx context.Context, srv any, name string, in proto.Message) (proto.Message, error) {
			md, _ := metadata.FromIncomingContext(ctx)
			mu.Lock()
			defer mu.Unlock()
			id := strings.Join(md.Get("x-id"), ",")
			k := calls[id]
			if k == nil {
				return nil, status.Errorf(codes.DataLoss, "no call %q", id)
			}
			k.seen++
			k.handler, k.got = name, in
			if _, ok := ctx.Deadline(); ok != k.dead {
				return nil, status.Errorf(codes.DataLoss, "deadline %v, expected %v", ok, k.dead)
			}
			_ = grpc.SetHeader(ctx, metadata.Pairs("x-answer", k.header))
			return k.out, k.err
		}
		var interceptors []grpc.UnaryServerInterceptor
		for i := fx.Int(c.T, "server interceptors", 0, 2); i > 0; i-- {
			interceptors = append(interceptors, func(ctx context.Context, req any, info *grpc.UnaryServerInfo, next grpc.UnaryHandler) (any, error) {
				md, _ := metadata.FromIncomingContext(ctx)
				mu.Lock()
				if k := calls[strings.Join(md.Get("x-id"), ",")]; k != nil {
					k.trace = append(k.trace, info.FullMethod)
					if m, ok := req.(proto.Message); !ok || !proto.Equal(m, k.in) {
						k.trace = append(k.trace, "a different request")
					}
					if info.Server == nil {
						k.trace = append(k.trace, "no server")
					}
				}
				mu.Unlock()
				return next(ctx, req)
			})
		}
		gs := grpc.NewServer(grpc.ChainUnaryInterceptor(interceptors...), grpc.NumStreamWorkers(0))
		state := map[string]int{}
		for _, sv := range services {
			st := fx.Pick(c.T, sv.name, full, full, full, missing, unimplemented, half)
			if st == half && sv.name != services[0].name {
				st = full
			}
			state[sv.name] = st
			switch st {
			case full:
				sv.register(gs, h)
			case unimplemented:
				sv.unimplemented(gs)
			case half:
				flowv1.RegisterAuthorizationServiceServer(gs, &halfFlow{h: h})
			}
		}
		lis := bufconn.Listen(1 << 16)
		go func() { _ = gs.Serve(lis) }()
		defer gs.Stop()
		var clientMethods sync.Map
		cc, err := grpc.Dial("passthrough:///issuer", grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return lis.DialContext(ctx) }), grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithUnaryInterceptor(func(ctx context.Context, name string, req, reply any, cc *grpc.ClientConn, invoke grpc.UnaryInvoker, opts ...grpc.CallOption) error {
				md, _ := metadata.FromOutgoingContext(ctx)
				clientMethods.Store(strings.Join(md.Get("x-id"), ","), name)
				return invoke(ctx, name, req, reply, cc, opts...)
			}))
		if err != nil {
			c.Fatalf("dial: %v", err)
		}
		defer cc.Close()

		var list []*call
		for i := range fx.Int(c.T, "calls", 1, 8) {
			k := &call{m: &methods[fx.Int(c.T, "method", 0, len(methods)-1)], id: fmt.Sprintf("call-%d", i), header: fmt.Sprintf("h%d", i)}
			k.in, k.out = filled(c.T, k.m.in), filled(c.T, k.m.out)
			if fx.Chance(c.T, "fails", 4) {
				k.out, k.err = nil, failure(c.T)
			}
			k.dead = fx.Chance(c.T, "deadline", 2)
			calls[k.id] = k
			list = append(list, k)
		}
		sent := map[string]proto.Message{}
		for _, k := range list {
			sent[k.id] = proto.Clone(k.in)
		}
		one := func(k *call) {
			ctx := metadata.AppendToOutgoingContext(context.Background(), "x-id", k.id)
			if k.dead {
				var stop func()
				ctx, stop = context.WithTimeout(ctx, 10*time.Minute)
				defer stop()
			}
			var md metadata.MD
			resp, err := k.m.call(ctx, cc, k.in, grpc.Header(&md))
			mu.Lock()
			k.resp, k.respErr, k.md = resp, err, md
			mu.Unlock()
		}
		if fx.Chance(c.T, "concurrently", 2) {
			var wg sync.WaitGroup
			for _, k := range list {
				wg.Add(1)
				go func() { defer wg.Done(); one(k) }()
			}
			wg.Wait()
		} else {
			for _, k := range list {
				one(k)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		kinds, rich := map[string]bool{}, false
		var log []string
		for _, k := range list {
			c.Step()
			st := state[k.m.service()]
			log = append(log, fmt.Sprintf("%s/%d", k.m.name(), st))
			kinds[k.m.full] = true
			if n, _ := clientMethods.Load(k.id); n != k.m.full {
				c.Fatalf("%s invokes %v", k.m.full, n)
			}
			if !proto.Equal(k.in, sent[k.id]) {
				c.Fatalf("%s changed the caller's request", k.m.full)
			}
			if st == missing || st == unimplemented || st == half && k.m.full == authorize {
				c.Hit("%s not served", k.m.name())
				if status.Code(k.respErr) != codes.Unimplemented || k.resp != nil || k.seen != 0 {
					c.Fatalf("%s of an absent service: %v, %v, %d handled", k.m.full, k.resp, k.respErr, k.seen)
				}
				continue
			}
			if k.seen != 1 || k.handler != k.m.full || !proto.Equal(k.got, k.in) {
				c.Fatalf("%s: %d calls, of %q with\n%v, sent\n%v (error %v)", k.m.full, k.seen, k.handler, k.got, k.in, k.respErr)
			}
			if len(k.trace) != len(interceptors) || slices.ContainsFunc(k.trace, func(x string) bool { return x != k.m.full }) {
				c.Fatalf("%s is seen by %d interceptors as %q", k.m.full, len(interceptors), k.trace)
			}
			if k.err != nil {
				c.Hit("%s fails", k.m.name())
				if k.resp != nil || !sameStatus(k.respErr, k.err) {
					c.Fatalf("%s answered with %v: %v, %v", k.m.full, k.err, k.resp, k.respErr)
				}
				continue
			}
			c.Hit("%s answers", k.m.name())
			if k.respErr != nil || k.resp == nil || !proto.Equal(k.resp, k.out) {
				c.Fatalf("%s answered with\n%v, returned\n%v, %v", k.m.full, k.out, k.resp, k.respErr)
			}
			if !slices.Equal(k.md.Get("x-answer"), []string{k.header}) {
				c.Fatalf("%s drops call options: header %v", k.m.full, k.md)
			}
			rich = rich || proto.Size(k.in) > 20 && proto.Size(k.out) > 20
		}
		if len(kinds) > 1 && rich {
			c.NonTrivial("%s", strings.Join(log, ","))
		}
	})

	s.Prop("client stub", 3000, func(c *hx.Case) {
		m := methods[fx.Int(c.T, "method", 0, len(methods)-1)]
		in, out := filled(c.T, m.in), filled(c.T, m.out)
		var fail error
		if fx.Chance(c.T, "fails", 3) {
			fail = fx.Pick(c.T, "error", errors.New("broken"), context.Canceled, context.DeadlineExceeded, failure(c.T))
		}
		cc := &recorder{fail: fail, out: out}
		type key struct{}
		ctx := context.WithValue(context.Background(), key{}, m.full)
		opts := make([]grpc.CallOption, fx.Int(c.T, "opts", 0, 3))
		for i := range opts {
			opts[i] = grpc.MaxCallRecvMsgSize(100 + i)
		}
		resp, err := m.call(ctx, cc, in, opts...)
		if cc.n != 1 || cc.method != m.full || cc.in != any(in) || len(cc.opts) != len(opts) || cc.ctx.Value(key{}) != m.full {
			c.Fatalf("%s invoked %d times %q with %v and %d options", m.full, cc.n, cc.method, cc.in, len(cc.opts))
		}
		for i := range opts {
			if cc.opts[i] != opts[i] {
				c.Fatalf("%s changed option %d", m.full, i)
			}
		}
		if fail != nil {
			c.Hit("%s error", m.name())
			if err != fail || resp != nil {
				c.Fatalf("%s: %v, %v instead of %v", m.full, resp, err, fail)
			}
			return
		}
		c.Hit("%s answer", m.name())
		if err != nil || resp == nil || !proto.Equal(resp, out) {
			c.Fatalf("%s: %v, %v instead of %v", m.full, resp, err, out)
		}
		if proto.Size(in) > 0 && proto.Size(out) > 0 {
			c.NonTrivial("%s %v %v", m.full, in, out)
		}
	})

	s.Prop("server stub", 3000, func(c *hx.Case) {
		m := methods[fx.Int(c.T, "method", 0, len(methods)-1)]
		in, out := filled(c.T, m.in), filled(c.T, m.out)
		var fail error
		if fx.Chance(c.T, "fails", 3) {
			fail = fx.Pick(c.T, "error", errors.New("broken"), context.Canceled, failure(c.T))
		}
		type key struct{}
		type marked struct{}
		var got []proto.Message
		var by any
		var ctxs context.Context
		h := func(ctx context.Context, srv any, name string, in proto.Message) (proto.Message, error) {
			if name != m.full {
				c.Fatalf("%s is handled by %s", m.full, name)
			}
			if ctx.Value(key{}) == nil {
				c.Fatalf("%s lost its context", m.full)
			}
			got, by, ctxs = append(got, in), srv, ctx
			if fail != nil {
				return nil, fail
			}
			return out, nil
		}
		reg := &registrar{}
		for _, sv := range services {
			sv.register(reg, h)
		}
		var desc *grpc.MethodDesc
		var impl any
		for _, r := range reg.list {
			for i, md := range r.desc.Methods {
				if "/"+r.desc.ServiceName+"/"+md.MethodName == m.full {
					if desc != nil {
						c.Fatalf("%s is described twice", m.full)
					}
					desc, impl = &r.desc.Methods[i], r.impl
				}
			}
		}
		if desc == nil {
			c.Fatalf("%s is not described", m.full)
		}
		ctx := context.WithValue(context.Background(), key{}, true)
		var decErr error
		if fx.Chance(c.T, "undecodable", 5) {
			decErr = failure(c.T)
		}
		dec := func(v any) error {
			if decErr != nil {
				return decErr
			}
			if v.(proto.Message).ProtoReflect().Descriptor() != m.in.ProtoReflect().Descriptor() {
				c.Fatalf("%s decodes a %T", m.full, v)
			}
			proto.Merge(v.(proto.Message), in)
			return nil
		}
		how := fx.Int(c.T, "interceptor", 0, 3)
		other, shortcut := filled(c.T, m.in), failure(c.T)
		seen := 0
		var ic grpc.UnaryServerInterceptor
		if how > 0 {
			ic = func(ctx context.Context, req any, info *grpc.UnaryServerInfo, next grpc.UnaryHandler) (any, error) {
				seen++
				if info.FullMethod != m.full || info.Server != impl {
					c.Fatalf("%s is intercepted as %s of %T", m.full, info.FullMethod, info.Server)
				}
				if !proto.Equal(req.(proto.Message), in) || len(got) != 0 {
					c.Fatalf("%s is intercepted late or with %v", m.full, req)
				}
				switch how {
				case 2:
					return nil, shortcut
				case 3:
					return next(context.WithValue(ctx, marked{}, how), other)
				}
				return next(context.WithValue(ctx, marked{}, how), req)
			}
		}
		resp, err := desc.Handler(impl, ctx, dec, ic)
		c.Hit("%s how %d, undecodable %v, fails %v", m.name(), how, decErr != nil, fail != nil)
		switch {
		case decErr != nil:
			if err != decErr || resp != nil || len(got) != 0 || seen != 0 {
				c.Fatalf("%s undecodable: %v, %v, %d handled", m.full, resp, err, len(got))
			}
			return
		case how == 2:
			if err != shortcut || len(got) != 0 {
				c.Fatalf("%s refused by an interceptor: %v, %d handled", m.full, err, len(got))
			}
			return
		}
		want := in
		if how == 3 {
			want = other
		}
		if mark, _ := ctxs.Value(marked{}).(int); len(got) == 1 && mark != how {
			c.Fatalf("%s is handled in another context than the interceptor's", m.full)
		}
		if len(got) != 1 || !proto.Equal(got[0], want) || by != impl || how > 0 && seen != 1 {
			c.Fatalf("%s handled %v, expected %v; intercepted %d times", m.full, got, want, seen)
		}
		if fail != nil {
			if err != fail {
				c.Fatalf("%s: %v instead of %v", m.full, err, fail)
			}
			return
		}
		if err != nil || resp != any(out) {
			c.Fatalf("%s: %v, %v instead of %v", m.full, resp, err, out)
		}
		if proto.Size(want) > 0 && proto.Size(out) > 0 {
			c.NonTrivial("%s %d %v", m.full, how, want)
		}
	})

	s.Direct("descriptors", func(t *testing.T) int {
		n := 0
		for _, sv := range services {
			d := sv.desc
			if d.ServiceName != sv.name || len(d.Streams) != 0 || d.Metadata != sv.file {
				t.Fatalf("service %s is described as %s of %v with %d streams", sv.name, d.ServiceName, d.Metadata, len(d.Streams))
			}
			var have, want []string
			for _, m := range d.Methods {
				have = append(have, m.MethodName)
			}
			fd, err := protoregistry.GlobalFiles.FindFileByPath(sv.file)
			if err != nil {
				t.Fatalf("%s: %v", sv.file, err)
			}
			sd := fd.Services().ByName(protoreflect.FullName(sv.name).Name())
			if sd == nil || sd.FullName() != protoreflect.FullName(sv.name) {
				t.Fatalf("%s does not declare %s", sv.file, sv.name)
			}
			for _, m := range methods {
				if m.service() != sv.name {
					continue
				}
				n++
				want = append(want, m.name())
				md := sd.Methods().ByName(protoreflect.Name(m.name()))
				if md == nil || md.Input().FullName() != m.in.ProtoReflect().Descriptor().FullName() || md.Output().FullName() != m.out.ProtoReflect().Descriptor().FullName() || md.IsStreamingClient() || md.IsStreamingServer() {
					t.Fatalf("%s is declared as %v", m.full, md)
				}
			}
			slices.Sort(have)
			slices.Sort(want)
			if !slices.Equal(have, want) || sd.Methods().Len() != len(want) {
				t.Fatalf("%s has methods %q, expected %q", sv.name, have, want)
			}
		}
		return n
	})
}

type recorder struct {
	fail   error
	out    proto.Message
	n      int
	ctx    context.Context
	method string
	in     any
	opts   []grpc.CallOption
}

func (r *recorder) Invoke(ctx context.Context, method string, args, reply any, opts ...grpc.CallOption) error {
	r.n++
	r.ctx, r.method, r.in, r.opts = ctx, method, args, opts
	if r.fail != nil {
		// an answer may be partly decoded when a call fails
		proto.Merge(reply.(proto.Message), r.out)
		return r.fail
	}
	proto.Merge(reply.(proto.Message), r.out)
	return nil
}

func (r *recorder) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, errors.New("no streams")
}

type registered struct {
	desc *grpc.ServiceDesc
	impl any
}

type registrar struct{ list []registered }

func (r *registrar) RegisterService(desc *grpc.ServiceDesc, impl any) {
	r.list = append(r.list, registered{desc, impl})
}
