package fx

import (
	"context"
	"fmt"
	"sync"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/server/storage"
)

// Fault modes.
const (
	FaultBefore = "before" // the call is not applied and reports an error
	FaultAfter  = "after"  // the call is applied and reports an error
	FaultValue  = "value"  // the call is applied, reports an error and gives its value too
	FaultEmpty  = "empty"  // generators: an empty value and no error
)

// Faults is a plan: the n-th call (from zero) through the wrapped components
// fails, and the following ones too when Sticky.
type Faults struct {
	mu     sync.Mutex
	At     int // -1: never
	Mode   string
	Err    error
	Sticky bool
	Log    []string // every call, in order, with "!" appended when it was failed
	// Applied counts the calls which took effect, by name.
	Applied map[string]int
	// Failed counts the calls which were failed, by name.
	Failed map[string]int
}

// NewFaults returns a plan.
func NewFaults(at int, mode string, err error, sticky bool) *Faults {
	return &Faults{At: at, Mode: mode, Err: err, Sticky: sticky, Applied: map[string]int{}, Failed: map[string]int{}}
}

// Any reports whether a call was failed.
func (f *Faults) Any() bool { return len(f.Failed) > 0 }

func through[V any](f *Faults, name string, gen bool, do func() (V, error)) (V, error) {
	f.mu.Lock()
	n := len(f.Log)
	hit := f.At >= 0 && (n == f.At || (f.Sticky && n > f.At))
	if hit {
		name0 := name
		f.Log = append(f.Log, fmt.Sprintf("%s!%s", name0, f.Mode))
		f.Failed[name]++
	} else {
		f.Log = append(f.Log, name)
	}
	f.mu.Unlock()
	var zero V
	if hit && gen && f.Mode == FaultEmpty {
		return zero, nil
	}
	if hit && (f.Mode == FaultBefore || f.Mode == FaultEmpty) {
		return zero, f.Err
	}
	v, err := do()
	if err == nil {
		f.mu.Lock()
		f.Applied[name]++
		f.mu.Unlock()
	}
	if !hit {
		return v, err
	}
	if f.Mode == FaultValue {
		return v, f.Err
	}
	return zero, f.Err
}

func through0(f *Faults, name string, do func() error) error {
	_, err := through(f, name, false, func() (struct{}, error) { return struct{}{}, do() })
	return err
}

type (
	faultClients struct {
		s storage.ClientReader
		f *Faults
	}
	faultReqs struct {
		s storage.AuthorizationRequest
		f *Faults
	}
	faultCodes struct {
		s storage.AuthorizationCodeSession
		f *Faults
	}
	faultDevices struct {
		s storage.DeviceCodeSession
		f *Faults
	}
	faultTokens struct {
		s storage.Token
		f *Faults
	}
	faultProofs struct {
		s storage.DPoP
		f *Faults
	}
	faultResources struct {
		s storage.Resource
		f *Faults
	}
	faultGen struct {
		g    token.Generator
		f    *Faults
		name string
	}
	faultCodeGen struct {
		g interface {
			Generate(context.Context, string) (string, error)
			Validate(context.Context, string, string) error
		}
		f    *Faults
		name string
	}
)

func (s faultClients) Get(ctx context.Context, id string) (*clientv1.Client, error) {
	return through(s.f, "Clients.Get", false, func() (*clientv1.Client, error) { return s.s.Get(ctx, id) })
}

func (s faultClients) GetByName(ctx context.Context, n string) (*clientv1.Client, error) {
	return through(s.f, "Clients.GetByName", false, func() (*clientv1.Client, error) { return s.s.GetByName(ctx, n) })
}

func (s faultReqs) Get(ctx context.Context, iss, uri string) (*flowv1.AuthorizationRequest, error) {
	return through(s.f, "Reqs.Get", false, func() (*flowv1.AuthorizationRequest, error) { return s.s.Get(ctx, iss, uri) })
}

func (s faultReqs) Register(ctx context.Context, iss, uri string, r *flowv1.AuthorizationRequest) (uint64, error) {
	return through(s.f, "Reqs.Register", false, func() (uint64, error) { return s.s.Register(ctx, iss, uri, r) })
}

func (s faultReqs) Delete(ctx context.Context, iss, uri string) error {
	return through0(s.f, "Reqs.Delete", func() error { return s.s.Delete(ctx, iss, uri) })
}

func (s faultCodes) Get(ctx context.Context, iss, code string) (*sessionv1.AuthorizationCodeSession, error) {
	return through(s.f, "Codes.Get", false, func() (*sessionv1.AuthorizationCodeSession, error) { return s.s.Get(ctx, iss, code) })
}

func (s faultCodes) Register(ctx context.Context, iss, code string, v *sessionv1.AuthorizationCodeSession) (uint64, error) {
	return through(s.f, "Codes.Register", false, func() (uint64, error) { return s.s.Register(ctx, iss, code, v) })
}

func (s faultCodes) Delete(ctx context.Context, iss, code string) error {
	return through0(s.f, "Codes.Delete", func() error { return s.s.Delete(ctx, iss, code) })
}

func (s faultDevices) Register(ctx context.Context, iss, code string, v *sessionv1.DeviceCodeSession) (uint64, error) {
	return through(s.f, "Devices.Register", false, func() (uint64, error) { return s.s.Register(ctx, iss, code, v) })
}

func (s faultDevices) Delete(ctx context.Context, iss, code string) error {
	return through0(s.f, "Devices.Delete", func() error { return s.s.Delete(ctx, iss, code) })
}

func (s faultDevices) Validate(ctx context.Context, iss, code string, v *sessionv1.DeviceCodeSession) error {
	return through0(s.f, "Devices.Validate", func() error { return s.s.Validate(ctx, iss, code, v) })
}

func (s faultDevices) GetByDeviceCode(ctx context.Context, iss, code string) (*sessionv1.DeviceCodeSession, error) {
	return through(s.f, "Devices.GetByDeviceCode", false, func() (*sessionv1.DeviceCodeSession, error) { return s.s.GetByDeviceCode(ctx, iss, code) })
}

func (s faultDevices) GetByUserCode(ctx context.Context, iss, code string) (*sessionv1.DeviceCodeSession, error) {
	return through(s.f, "Devices.GetByUserCode", false, func() (*sessionv1.DeviceCodeSession, error) { return s.s.GetByUserCode(ctx, iss, code) })
}

func (s faultTokens) Get(ctx context.Context, iss, id string) (*tokenv1.Token, error) {
	return through(s.f, "Tokens.Get", false, func() (*tokenv1.Token, error) { return s.s.Get(ctx, iss, id) })
}

func (s faultTokens) GetByValue(ctx context.Context, iss, v string) (*tokenv1.Token, error) {
	return through(s.f, "Tokens.GetByValue", false, func() (*tokenv1.Token, error) { return s.s.GetByValue(ctx, iss, v) })
}

func (s faultTokens) Create(ctx context.Context, iss string, t *tokenv1.Token) error {
	return through0(s.f, "Tokens.Create", func() error { return s.s.Create(ctx, iss, t) })
}

func (s faultTokens) Delete(ctx context.Context, iss, id string) error {
	return through0(s.f, "Tokens.Delete", func() error { return s.s.Delete(ctx, iss, id) })
}

func (s faultTokens) Revoke(ctx context.Context, iss, id string) error {
	return through0(s.f, "Tokens.Revoke", func() error { return s.s.Revoke(ctx, iss, id) })
}

func (s faultProofs) Register(ctx context.Context, id string) error {
	return through0(s.f, "Proofs.Register", func() error { return s.s.Register(ctx, id) })
}

func (s faultProofs) Delete(ctx context.Context, id string) error {
	return through0(s.f, "Proofs.Delete", func() error { return s.s.Delete(ctx, id) })
}

func (s faultProofs) Exists(ctx context.Context, id string) (bool, error) {
	return through(s.f, "Proofs.Exists", false, func() (bool, error) { return s.s.Exists(ctx, id) })
}

func (s faultResources) GetByURI(ctx context.Context, urn string) (*resourcev1.Resource, error) {
	return through(s.f, "Resources.GetByURI", false, func() (*resourcev1.Resource, error) { return s.s.GetByURI(ctx, urn) })
}

func (s faultGen) Generate(ctx context.Context, t *tokenv1.Token) (string, error) {
	return through(s.f, s.name, true, func() (string, error) { return s.g.Generate(ctx, t) })
}

func (s faultCodeGen) Generate(ctx context.Context, iss string) (string, error) {
	return through(s.f, s.name, true, func() (string, error) { return s.g.Generate(ctx, iss) })
}

func (s faultCodeGen) Validate(ctx context.Context, iss, v string) error {
	return s.g.Validate(ctx, iss, v)
}

// Faulty returns services over the same stores and generators with the plan in
// front of each of them, and the client reader to use elsewhere.
func (w *World) Faulty(f *Faults) (*World, storage.ClientReader) {
	v := *w
	cl := faultClients{w.Clients, f}
	v.Reqs = faultReqs{w.Reqs, f}
	v.Codes = faultCodes{w.Codes, f}
	v.Devices = faultDevices{w.Devices, f}
	v.Tokens = faultTokens{w.Tokens, f}
	v.Proofs = faultProofs{w.Proofs, f}
	v.Resources = faultResources{w.Resources, f}
	v.ATGen = faultGen{w.ATGen, f, "ATGen"}
	v.RTGen = faultGen{w.RTGen, f, "RTGen"}
	v.CodeGen = faultCodeGen{w.CodeGen, f, "CodeGen"}
	v.URIGen = faultCodeGen{w.URIGen, f, "URIGen"}
	v.DevGen = faultCodeGen{w.DevGen, f, "DevGen"}
	v.UserGen = faultCodeGen{CodeFn(w.UserGen.Generate), f, "UserGen"}
	return NewSharedWorld(&v, cl), cl
}

var (
	_ generator.AuthorizationCode = faultCodeGen{}
	_ generator.RequestURI        = faultCodeGen{}
	_ storage.DPoP                = faultProofs{}
)
