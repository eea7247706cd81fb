package c11

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"slices"
	"strings"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	resourcev1 "zntr.io/solid/api/oidc/resource/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"
	"zntr.io/solid/server/storage/inmemory"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

var bg = context.Background()

type key struct{ iss, id string }

type slot[M proto.Message] struct {
	m   M
	exp time.Time
}

// near reports whether now is too close to an expiration to predict the answer.
func near(exp time.Time) bool {
	return !fx.Clear(exp)
}

func keys(t *rapid.T, issuers []string) key {
	return key{fx.Pick(t, "iss", issuers...), fx.Pick(t, "id", "k1", "k2", "K1", "k1 ", "k", "é", strings.Repeat("k", 300))}
}

func advance(t *rapid.T) {
	time.Sleep(time.Duration(fx.Pick(t, "ms", 1, 1000, 5000, 29000, 31000, 57500, 59500, 60500, 61500, 117500, 119500, 120500, 121500, 700000)) * time.Millisecond)
}

// kv checks a keyed store with one lifetime against a map.
func kv[M proto.Message](s *hx.Suite, name string, ttl uint64, build func() (func(key, M) (uint64, error), func(key) (M, error), func(key) error), draw func(*rapid.T) M) {
	s.Prop(name, 1800, func(c *hx.Case) {
		put, get, del := build()
		iss := fx.Issuer(c.T, "iss0")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss1", iss)}
		model := map[key]slot[M]{}
		expired, found := 0, 0
		var log []string
		c.Bubble(func() {
			look := func(k key) {
				e, ok := model[k]
				if ok && near(e.exp) {
					return
				}
				got, err := get(k)
				if ok && time.Now().Before(e.exp) {
					if err != nil || !proto.Equal(got, e.m) {
						c.Fatalf("%s: %q: got %v (%v), last registered %v, %s left", name, k, got, err, e.m, time.Until(e.exp))
					}
					found++
					fx.Spoil(got.ProtoReflect())
					if got, err = get(k); err != nil || !proto.Equal(got, e.m) {
						c.Fatalf("%s: %q: %v (%v) after the caller edited what a lookup returned, registered %v", name, k, got, err, e.m)
					}
					return
				}
				if ok {
					expired++
				}
				if !errors.Is(err, storage.ErrNotFound) {
					c.Fatalf("%s: %q (registered before: %v) gives %v, %v instead of not-found", name, k, ok, got, err)
				}
			}
			c.Repeat(map[string]func(*rapid.T){
				"put": func(t *rapid.T) {
					k, m := keys(t, issuers), draw(t)
					sent := proto.Clone(m).(M)
					life, err := put(k, m)
					c.Step()
					if err != nil || life != ttl {
						c.Fatalf("%s: register gives %d, %v", name, life, err)
					}
					if !proto.Equal(m, sent) {
						c.Fatalf("%s: register changed the caller's object: %v -> %v", name, sent, m)
					}
					fx.Spoil(m.ProtoReflect())
					model[k] = slot[M]{sent, time.Now().Add(time.Duration(ttl) * time.Second)}
					log = append(log, "put")
				},
				"del": func(t *rapid.T) {
					k := keys(t, issuers)
					e, ok := model[k]
					if ok && near(e.exp) {
						return
					}
					err := del(k)
					c.Step()
					if ok && time.Now().Before(e.exp) && err != nil {
						c.Fatalf("%s: delete of a live entry: %v", name, err)
					}
					delete(model, k)
					log = append(log, "del")
				},
				"get":     func(t *rapid.T) { look(keys(t, issuers)); c.Step() },
				"advance": func(t *rapid.T) { advance(t); log = append(log, "advance") },
				"": func(t *rapid.T) {
					for k := range model {
						look(k)
					}
				},
			})
		})
		if expired > 0 && found > 0 {
			c.NonTrivial("%s", strings.Join(log, ","))
		}
	})
}

func TestC11(t *testing.T) {
	s := hx.New(t, "C11", "rapid state machines on a fake clock, one per in-memory store, against a map with expirations: registrations (also over existing keys), lookups of every known and some unknown keys after every step, deletions, revocations, validations and clock advances around the lifetimes; what was handed to a store and what a lookup returned are changed afterwards. Non-trivial: a history in which entries were both found and expired (tokens: revoked); identified by its operations.",
		"within 50 ms of an expiration nothing is asserted", "re-registering a token id with another value is not exercised (unspecified)")

	// Nothing at all is not registered, and disturbs nothing.
	s.Prop("absent", 200, func(c *hx.Case) {
		iss := fx.Issuer(c.T, "iss")
		code := fx.Str(c.T, "code", fx.Alnum, 1, 12)
		user := fx.Str(c.T, "user", fx.Alnum, 4, 8)
		ds, ts := inmemory.DeviceCodeSessions(), inmemory.Tokens()
		sess := &sessionv1.DeviceCodeSession{Issuer: iss, DeviceCode: code, Client: fx.FullClient("alpha")}
		tok := &tokenv1.Token{TokenId: code, Value: user, Metadata: &tokenv1.TokenMeta{Issuer: iss, Subject: "s"}}
		stored := fx.Chance(c.T, "stored", 2)
		if stored {
			if _, err := ds.Register(bg, iss, user, sess); err != nil {
				c.Fatalf("register: %v", err)
			}
			if err := ts.Create(bg, iss, tok); err != nil {
				c.Fatalf("create: %v", err)
			}
		}
		if _, err := ds.Register(bg, iss, user, nil); err == nil {
			c.Fatalf("an absent device session is registered")
		}
		if err := ds.Validate(bg, iss, user, nil); err == nil {
			c.Fatalf("an absent device session is validated")
		}
		if err := ts.Create(bg, iss, nil); err == nil {
			c.Fatalf("an absent token is stored")
		}
		got, err := ds.GetByUserCode(bg, iss, user)
		got2, err2 := ts.Get(bg, iss, code)
		if stored && (err != nil || got.DeviceCode != code || !proto.Equal(got.Client, sess.Client) || err2 != nil || got2.TokenId != code) || !stored && (!errors.Is(err, storage.ErrNotFound) || !errors.Is(err2, storage.ErrNotFound)) {
			c.Fatalf("stored=%v: then %v, %v and %v, %v", stored, got, err, got2, err2)
		}
		c.NonTrivial("%v %q %q", stored, iss, user)
	})

	kv(s, "authorization_requests", 60, func() (func(key, *flowv1.AuthorizationRequest) (uint64, error), func(key) (*flowv1.AuthorizationRequest, error), func(key) error) {
		st := inmemory.AuthorizationRequests()
		return func(k key, m *flowv1.AuthorizationRequest) (uint64, error) { return st.Register(bg, k.iss, k.id, m) },
			func(k key) (*flowv1.AuthorizationRequest, error) { return st.Get(bg, k.iss, k.id) },
			func(k key) error { return st.Delete(bg, k.iss, k.id) }
	}, func(t *rapid.T) *flowv1.AuthorizationRequest {
		return fx.ValidRequest(t, "r", "c", "https://c.example/cb", "v")
	})
	kv(s, "authorization_codes", 60, func() (func(key, *sessionv1.AuthorizationCodeSession) (uint64, error), func(key) (*sessionv1.AuthorizationCodeSession, error), func(key) error) {
		st := inmemory.AuthorizationCodeSessions()
		return func(k key, m *sessionv1.AuthorizationCodeSession) (uint64, error) {
				return st.Register(bg, k.iss, k.id, m)
			},
			func(k key) (*sessionv1.AuthorizationCodeSession, error) { return st.Get(bg, k.iss, k.id) },
			func(k key) error { return st.Delete(bg, k.iss, k.id) }
	}, func(t *rapid.T) *sessionv1.AuthorizationCodeSession {
		return &sessionv1.AuthorizationCodeSession{Issuer: "i", Subject: fx.Str(t, "sub", "abc", 0, 5), Client: fx.FullClient("c", "https://c.example/cb"), Request: fx.ValidRequest(t, "r", "c", "https://c.example/cb", "v")}
	})

	s.Prop("device_sessions", 1800, func(c *hx.Case) {
		st := inmemory.DeviceCodeSessions()
		iss := fx.Issuer(c.T, "iss0")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss1", iss)}
		users, devs := map[key]slot[*sessionv1.DeviceCodeSession]{}, map[key]slot[*sessionv1.DeviceCodeSession]{}
		expired, found, validated := 0, 0, 0
		n := 0
		var log []string
		c.Bubble(func() {
			look := func(what string, m map[key]slot[*sessionv1.DeviceCodeSession], k key, get func(context.Context, string, string) (*sessionv1.DeviceCodeSession, error)) {
				e, ok := m[k]
				if ok && near(e.exp) {
					return
				}
				got, err := get(bg, k.iss, k.id)
				if !ok || !time.Now().Before(e.exp) {
					if ok {
						expired++
					}
					if !errors.Is(err, storage.ErrNotFound) {
						c.Fatalf("%s %q (registered before: %v) gives %v, %v", what, k, ok, got, err)
					}
					return
				}
				found++
				if err != nil {
					c.Fatalf("%s %q lost with %s left: %v", what, k, time.Until(e.exp), err)
				}
				if d := int64(got.ExpiresAt) - e.exp.Unix(); d < -1 || d > 1 {
					c.Fatalf("%s %q expires at %d, expected %d", what, k, got.ExpiresAt, e.exp.Unix())
				}
				x := proto.Clone(got).(*sessionv1.DeviceCodeSession)
				x.ExpiresAt = e.m.ExpiresAt
				if !proto.Equal(x, e.m) {
					c.Fatalf("%s %q gives %v, last stored %v", what, k, x, e.m)
				}
				fx.Spoil(got.ProtoReflect())
				again, err := get(bg, k.iss, k.id)
				if err == nil {
					x = proto.Clone(again).(*sessionv1.DeviceCodeSession)
					x.ExpiresAt = e.m.ExpiresAt
				}
				if err != nil || !proto.Equal(x, e.m) {
					c.Fatalf("%s %q gives %v (%v) after the caller edited what a lookup returned, last stored %v", what, k, again, err, e.m)
				}
			}
			c.Repeat(map[string]func(*rapid.T){
				"put": func(t *rapid.T) {
					k := keys(t, issuers)
					n++
					m := &sessionv1.DeviceCodeSession{Issuer: k.iss, DeviceCode: fmt.Sprintf("device-%d", n), Scope: fx.Ref(fx.Str(t, "sc", "abc", 0, 3)), Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING, Client: &clientv1.Client{ClientId: "x"}, Request: &flowv1.DeviceAuthorizationRequest{ClientId: "x"}}
					sent := proto.Clone(m).(*sessionv1.DeviceCodeSession)
					life, err := st.Register(bg, k.iss, k.id, m)
					c.Step()
					if err != nil || life != 120 {
						c.Fatalf("register gives %d, %v", life, err)
					}
					fx.Spoil(m.Client.ProtoReflect())
					fx.Spoil(m.Request.ProtoReflect())
					m.Subject, m.Status, m.Issuer = fx.Ref("mallory"), sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED, "spoilt"
					if m.Scope != nil {
						*m.Scope += " admin"
					}
					e := slot[*sessionv1.DeviceCodeSession]{sent, time.Now().Add(120 * time.Second)}
					users[k], devs[key{k.iss, m.DeviceCode}] = e, e
					log = append(log, "put")
				},
				"del": func(t *rapid.T) {
					k := keys(t, issuers)
					_ = st.Delete(bg, k.iss, k.id)
					c.Step()
					delete(users, k)
					log = append(log, "del")
				},
				"validate": func(t *rapid.T) {
					k := keys(t, issuers)
					e, ok := users[k]
					if ok && near(e.exp) {
						return
					}
					live := ok && time.Now().Before(e.exp)
					next := &sessionv1.DeviceCodeSession{DeviceCode: "device-x", Status: sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED}
					if ok {
						next = proto.Clone(e.m).(*sessionv1.DeviceCodeSession)
						next.ExpiresAt = uint64(e.exp.Unix())
					}
					next.Status = sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_VALIDATED
					next.Subject = fx.Ref("alice")
					sent := proto.Clone(next).(*sessionv1.DeviceCodeSession)
					err := st.Validate(bg, k.iss, k.id, next)
					fx.Spoil(next.ProtoReflect())
					c.Step()
					log = append(log, "validate")
					if !live || e.m.Status != sessionv1.DeviceCodeStatus_DEVICE_CODE_STATUS_AUTHORIZATION_PENDING {
						if err == nil {
							c.Fatalf("validation of %q succeeds (live %v)", k, live)
						}
						return
					}
					if err != nil {
						c.Fatalf("validation of a pending session: %v", err)
					}
					validated++
					ne := slot[*sessionv1.DeviceCodeSession]{sent, e.exp} // not extended
					users[k], devs[key{k.iss, sent.DeviceCode}] = ne, ne
				},
				"unknown": func(t *rapid.T) {
					k := keys(t, issuers)
					look("user code", users, k, st.GetByUserCode)
					look("device code", devs, key{k.iss, "device-" + k.id}, st.GetByDeviceCode)
				},
				"advance": func(t *rapid.T) { advance(t); log = append(log, "advance") },
				"": func(t *rapid.T) {
					for k := range users {
						look("user code", users, k, st.GetByUserCode)
					}
					for k := range devs {
						look("device code", devs, k, st.GetByDeviceCode)
					}
				},
			})
		})
		if expired > 0 && found > 0 && validated > 0 {
			c.NonTrivial("%s", strings.Join(log, ","))
		}
	})

	s.Prop("proofs", 1800, func(c *hx.Case) {
		st := inmemory.DPoPProofs()
		model := map[string]time.Time{}
		ids := []string{"p1", "p2", "P1", "p", "", "p1 "}
		expired, dup := 0, 0
		var log []string
		c.Bubble(func() {
			c.Repeat(map[string]func(*rapid.T){
				"register": func(t *rapid.T) {
					id := fx.Pick(t, "id", ids...)
					exp, ok := model[id]
					if ok && near(exp) {
						return
					}
					err := st.Register(bg, id)
					c.Step()
					log = append(log, "register")
					if ok && time.Now().Before(exp) {
						dup++
						if err == nil {
							c.Fatalf("proof %q registered twice within its lifetime", id)
						}
						return
					}
					if err != nil {
						c.Fatalf("registration of proof %q (known before: %v): %v", id, ok, err)
					}
					model[id] = time.Now().Add(60 * time.Second)
				},
				"delete": func(t *rapid.T) {
					id := fx.Pick(t, "id", ids...)
					_ = st.Delete(bg, id)
					delete(model, id)
					log = append(log, "delete")
				},
				"advance": func(t *rapid.T) { advance(t); log = append(log, "advance") },
				"": func(t *rapid.T) {
					for _, id := range ids {
						exp, ok := model[id]
						if ok && near(exp) {
							continue
						}
						want := ok && time.Now().Before(exp)
						if ok && !want {
							expired++
						}
						got, err := st.Exists(bg, id)
						if err != nil || got != want {
							c.Fatalf("proof %q exists: %v, %v, expected %v", id, got, err, want)
						}
					}
				},
			})
		})
		if expired > 0 && dup > 0 {
			c.NonTrivial("%s", strings.Join(log, ","))
		}
	})

	s.Prop("tokens", 1800, func(c *hx.Case) {
		st := inmemory.Tokens()
		iss := fx.Issuer(c.T, "iss0")
		issuers := []string{iss, fx.OtherIssuer(c.T, "iss1", iss)}
		model := map[key]*tokenv1.Token{} // by id, with clear value
		value := func(id string) string { return "clear-value-of-" + id }
		revoked, mutated := 0, 0
		var log []string
		mutate := func(t *tokenv1.Token) {
			t.Status = tokenv1.TokenStatus_TOKEN_STATUS_EXPIRED
			t.TokenId = "mutated"
			t.Value = "mutated"
			t.TokenType = tokenv1.TokenType_TOKEN_TYPE_ID_TOKEN
			if t.Metadata != nil {
				t.Metadata.Scope += " admin"
				t.Metadata.ExpiresAt += 1000
				t.Metadata.Subject = "mallory"
			}
			if t.Confirmation != nil {
				t.Confirmation.Jkt = "mutated"
			}
			for _, a := range t.Actor {
				a.Subject = "mutated"
			}
		}
		c.Bubble(func() {
			check := func(k key, want *tokenv1.Token, how string, got *tokenv1.Token, err error) {
				if want == nil {
					if !errors.Is(err, storage.ErrNotFound) {
						c.Fatalf("unknown token %q found %s: %v, %v", k, how, got, err)
					}
					return
				}
				if err != nil {
					c.Fatalf("token %q lost (%s): %v", k, how, err)
				}
				if strings.Contains(got.String(), want.Value) || strings.Contains(got.Value, want.Value) {
					c.Fatalf("clear value exposed %s: %v", how, got)
				}
				x, y := proto.Clone(got).(*tokenv1.Token), proto.Clone(want).(*tokenv1.Token)
				x.Value, y.Value = "", ""
				if !proto.Equal(x, y) {
					c.Fatalf("token %q %s:\n got %v\nwant %v", k, how, x, y)
				}
				mutate(got)
				mutated++
			}
			look := func(k key) {
				want := model[k]
				for i := 0; i < 2; i++ { // the second round sees what mutation did
					got, err := st.Get(bg, k.iss, k.id)
					check(k, want, "by id", got, err)
					got, err = st.GetByValue(bg, k.iss, value(k.id))
					check(k, want, "by value", got, err)
				}
			}
			c.Repeat(map[string]func(*rapid.T){
				"create": func(t *rapid.T) {
					k := keys(t, issuers)
					tok := &tokenv1.Token{
						Issuer: k.iss, TokenId: k.id, Value: value(k.id), TokenType: tokenv1.TokenType(fx.Int(t, "type", 0, 5)),
						Status: fx.Pick(t, "status", tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, tokenv1.TokenStatus_TOKEN_STATUS_ACTIVE, tokenv1.TokenStatus(fx.Int(t, "statusn", 0, 5))), Confirmation: fx.Confirmation(t, "cnf"),
						Metadata: &tokenv1.TokenMeta{Issuer: k.iss, Subject: fx.Pick(t, "sub", "alice", ""), ClientId: "c", Scope: fx.Scope(t, "sc"), Audience: "a", IssuedAt: 1, NotBefore: 2, ExpiresAt: 3},
					}
					if rapid.Bool().Draw(t, "actor") {
						tok.Actor = []*tokenv1.Actor{{Subject: "s"}}
					}
					if rapid.Bool().Draw(t, "nometa") && rapid.Bool().Draw(t, "nometa2") {
						tok.Metadata = nil
					}
					kept := proto.Clone(tok).(*tokenv1.Token)
					if err := st.Create(bg, k.iss, tok); err != nil {
						c.Fatalf("create: %v", err)
					}
					if !proto.Equal(tok, kept) {
						c.Fatalf("create changed the caller's token: %v -> %v", kept, tok)
					}
					mutate(tok)
					model[k] = kept
					c.Step()
					log = append(log, "create")
				},
				"revoke": func(t *rapid.T) {
					k := keys(t, issuers)
					err := st.Revoke(bg, k.iss, k.id)
					c.Step()
					log = append(log, "revoke")
					if model[k] == nil {
						if err == nil {
							c.Fatalf("revocation of unknown %q succeeds", k)
						}
						return
					}
					if err != nil {
						c.Fatalf("revocation: %v", err)
					}
					model[k].Status = tokenv1.TokenStatus_TOKEN_STATUS_REVOKED
					revoked++
				},
				"delete": func(t *rapid.T) {
					k := keys(t, issuers)
					err := st.Delete(bg, k.iss, k.id)
					c.Step()
					log = append(log, "delete")
					if model[k] != nil && err != nil {
						c.Fatalf("deletion: %v", err)
					}
					delete(model, k)
				},
				"get":     func(t *rapid.T) { look(keys(t, issuers)) },
				"advance": func(t *rapid.T) { time.Sleep(time.Duration(fx.Pick(t, "h", 1, 24, 24*40)) * time.Hour) },
				"": func(t *rapid.T) {
					for k := range model {
						look(k)
					}
				},
			})
		})
		if revoked > 0 && mutated > 0 {
			c.NonTrivial("%s", strings.Join(log, ","))
		}
	})

	s.Prop("clients", 500, func(c *hx.Case) {
		st := inmemory.Clients()
		model := map[string]*clientv1.Client{}
		names := map[string]string{}
		adv := 0
		c.Bubble(func() {
			c.Repeat(map[string]func(*rapid.T){
				"register": func(t *rapid.T) {
					m := fx.FullClient("given", "https://x.example/cb")
					m.ClientName = "Client " + fx.Str(t, "name", fx.Alnum, 8, 12)
					m.GrantTypes = m.GrantTypes[:fx.Int(t, "ng", 0, 5)]
					kept := proto.Clone(m).(*clientv1.Client)
					id, err := st.Register(bg, m)
					c.Step()
					if err != nil || id == "" || model[id] != nil {
						c.Fatalf("register gives %q, %v (known: %v)", id, err, model[id])
					}
					fx.Spoil(m.ProtoReflect())
					kept.ClientId = id
					model[id] = kept
					names[strings.ToLower(kept.ClientName)] = id
				},
				"unknown": func(t *rapid.T) {
					id := fx.Str(t, "id", fx.Alnum, 16, 16)
					if _, err := st.Get(bg, id); model[id] == nil && !errors.Is(err, storage.ErrNotFound) {
						c.Fatalf("unknown client: %v", err)
					}
					if _, err := st.GetByName(bg, "no such "+id); !errors.Is(err, storage.ErrNotFound) {
						c.Fatalf("unknown client name: %v", err)
					}
					// near a registered name or id
					ids := slices.Sorted(maps.Keys(model))
					if len(ids) == 0 {
						return
					}
					of := fx.Pick(t, "of", ids...)
					near := fx.Mutate(t, "near", of)
					if got, err := st.Get(bg, near); model[near] == nil && !errors.Is(err, storage.ErrNotFound) {
						c.Fatalf("client %q found as %q: %v, %v", of, near, got, err)
					}
					near = fx.Mutate(t, "nearname", model[of].ClientName)
					if _, ok := names[strings.ToLower(near)]; ok || strings.ContainsAny(near, "KkSs") && strings.EqualFold(near, model[of].ClientName) {
						return
					}
					if got, err := st.GetByName(bg, near); !errors.Is(err, storage.ErrNotFound) {
						c.Fatalf("client named %q found as %q: %v, %v", model[of].ClientName, near, got, err)
					}
				},
				"advance": func(t *rapid.T) { time.Sleep(time.Duration(fx.Int(t, "h", 1, 1000)) * time.Hour); adv++ },
				"": func(t *rapid.T) {
					for id, want := range model {
						got, err := st.Get(bg, id)
						if err != nil || !proto.Equal(got, want) {
							c.Fatalf("client %q: %v, %v, registered %v", id, got, err, want)
						}
						fx.Spoil(got.ProtoReflect())
						if got, err = st.Get(bg, id); err != nil || !proto.Equal(got, want) {
							c.Fatalf("client %q: %v, %v after the caller edited what a lookup returned, registered %v", id, got, err, want)
						}
						if names[strings.ToLower(want.ClientName)] != id {
							continue
						}
						got, err = st.GetByName(bg, want.ClientName)
						if err != nil || got.ClientId != id {
							c.Fatalf("client named %q: %v, %v", want.ClientName, got, err)
						}
						fx.Spoil(got.ProtoReflect())
						if got, err = st.GetByName(bg, want.ClientName); err != nil || !proto.Equal(got, want) {
							c.Fatalf("client named %q: %v, %v after the caller edited what a lookup returned, registered %v", want.ClientName, got, err, want)
						}
					}
				},
			})
		})
		if adv > 0 && len(model) > 1 {
			c.NonTrivial("%d clients after %d advances", len(model), adv)
		}
	})

	s.Direct("resources", func(t *testing.T) int {
		st := inmemory.Resources()
		const urn = "urn:example:backend-api"
		first, err := st.GetByURI(bg, urn)
		if err != nil || first.Urn != urn {
			t.Fatalf("resource: %v, %v", first, err)
		}
		kept := proto.Clone(first).(*resourcev1.Resource)
		fx.Spoil(first.ProtoReflect())
		if again, err := st.GetByURI(bg, urn); err != nil || !proto.Equal(again, kept) {
			t.Fatalf("resource after the caller edited what a lookup returned: %v, %v", again, err)
		}
		n := 1
		for _, u := range []string{"", "urn:example", strings.ToUpper(urn), urn + " ", urn + "/", "https://backend.example.com/api"} {
			if r, err := st.GetByURI(bg, u); !errors.Is(err, storage.ErrNotFound) {
				t.Fatalf("unknown resource %q: %v, %v", u, r, err)
			}
			n++
		}
		return n
	})
}
