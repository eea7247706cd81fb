package fx

import (
	"context"
	"maps"
	"slices"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/sdk/generator"
	"zntr.io/solid/sdk/token"
	"zntr.io/solid/server/services"
	"zntr.io/solid/server/services/authorization"
	"zntr.io/solid/server/services/device"
	tokensvc "zntr.io/solid/server/services/token"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"
)

// ClientStore is a client storage owned by the harness, which accepts any id.
type ClientStore struct {
	mu sync.RWMutex
	m  map[string]*clientv1.Client
}

// NewClientStore returns a store with the given clients.
func NewClientStore(cs ...*clientv1.Client) *ClientStore {
	s := &ClientStore{m: map[string]*clientv1.Client{}}
	for _, c := range cs {
		s.Put(c)
	}
	return s
}

// Put stores a client under its id.
func (s *ClientStore) Put(c *clientv1.Client) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[c.ClientId] = proto.Clone(c).(*clientv1.Client)
}

// Remove drops a client.
func (s *ClientStore) Remove(id string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, id)
}

// IDs lists the ids, sorted.
func (s *ClientStore) IDs() []string {
	s.mu.RLock()
	defer s.mu.RUnlock()
	return slices.Sorted(maps.Keys(s.m))
}

// Get implements storage.ClientReader.
func (s *ClientStore) Get(_ context.Context, id string) (*clientv1.Client, error) {
	s.mu.RLock()
	defer s.mu.RUnlock()
	if c, ok := s.m[id]; ok {
		return proto.Clone(c).(*clientv1.Client), nil
	}
	return nil, storage.ErrNotFound
}

// GetByName implements storage.ClientReader.
func (s *ClientStore) GetByName(_ context.Context, name string) (*clientv1.Client, error) {
	s.mu.RLock()
	defer s.mu.RUnlock()
	for _, c := range s.m {
		if strings.EqualFold(c.ClientName, name) {
			return proto.Clone(c).(*clientv1.Client), nil
		}
	}
	return nil, storage.ErrNotFound
}

// World wires the services on fresh built-in storages.
type World struct {
	Clients   *ClientStore
	Reqs      storage.AuthorizationRequest
	Codes     storage.AuthorizationCodeSession
	Devices   storage.DeviceCodeSession
	Tokens    storage.Token
	Proofs    storage.DPoP
	Resources storage.Resource
	ATGen     token.Generator
	RTGen     token.Generator
	CodeGen   generator.AuthorizationCode
	URIGen    generator.RequestURI
	DevGen    generator.DeviceCode
	UserGen   generator.DeviceUserCode
	Authz     services.Authorization
	Tok       services.Token
	Dev       services.Device
}

// NewWorld creates fresh storages (call it outside of a bubble).
func NewWorld(cs ...*clientv1.Client) *World {
	w := &World{
		Clients:   NewClientStore(cs...),
		Reqs:      inmemory.AuthorizationRequests(),
		Codes:     inmemory.AuthorizationCodeSessions(),
		Devices:   inmemory.DeviceCodeSessions(),
		Tokens:    inmemory.Tokens(),
		Proofs:    inmemory.DPoPProofs(),
		Resources: inmemory.Resources(),
		ATGen:     token.OpaqueToken(),
		RTGen:     token.OpaqueToken(),
		CodeGen:   generator.DefaultAuthorizationCode(),
		URIGen:    generator.DefaultRequestURI(),
		DevGen:    generator.DefaultDeviceCode(),
		UserGen:   generator.DefaultDeviceUserCode(),
	}
	return w.Wire()
}

// Wire (re)creates the services from the current parts.
func (w *World) Wire() *World {
	w.Authz = authorization.New(w.Clients, w.Reqs, w.Codes, w.CodeGen, w.URIGen)
	w.Tok = tokensvc.New(w.ATGen, w.RTGen, w.Clients, w.Reqs, w.Codes, w.Devices, w.Tokens, w.Resources)
	w.Dev = device.New(w.Clients, w.Devices, w.DevGen, w.UserGen)
	return w
}

// NewSharedWorld rewires a world's stores on another client storage.
func NewSharedWorld(w *World, clients storage.ClientReader) *World {
	w.Authz = authorization.New(clients, w.Reqs, w.Codes, w.CodeGen, w.URIGen)
	w.Tok = tokensvc.New(w.ATGen, w.RTGen, clients, w.Reqs, w.Codes, w.Devices, w.Tokens, w.Resources)
	w.Dev = device.New(clients, w.Devices, w.DevGen, w.UserGen)
	return w
}
