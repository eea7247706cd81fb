package c12

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	flowv1 "zntr.io/solid/api/oidc/flow/v1"
	sessionv1 "zntr.io/solid/api/oidc/session/v1"
	tokenv1 "zntr.io/solid/api/oidc/token/v1"
	"zntr.io/solid/server/storage"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

type workerKey struct{}

// sched runs operations one storage call at a time, in an order drawn by the
// case.
type sched struct {
	arrive chan event
	resume []chan struct{}
	open   chan struct{}
}

type event struct {
	worker int
	at     string // empty: the operation has ended
}

// gate parks the calling worker in front of a storage call.
func (s *sched) gate(ctx context.Context, at string) {
	w, ok := ctx.Value(workerKey{}).(int)
	if !ok {
		return
	}
	select {
	case <-s.open:
		return
	default:
	}
	s.arrive <- event{w, at}
	<-s.resume[w]
}

// patience is how long a resumed worker may stay silent before it counts as
// blocked by another one (on a lock, say).
const patience = 150 * time.Millisecond

// run interleaves the operations and returns the schedule and whether two
// operations overlapped.
func (s *sched) run(c *hx.Case, n int, op func(ctx context.Context, worker int)) (string, bool) {
	s.arrive = make(chan event, 4*n)
	s.resume = make([]chan struct{}, n)
	for i := range s.resume {
		s.resume[i] = make(chan struct{})
	}
	for i := 0; i < n; i++ {
		go func() {
			defer func() { s.arrive <- event{i, ""} }()
			s.gate(context.WithValue(context.Background(), workerKey{}, i), "start")
			op(context.WithValue(context.Background(), workerKey{}, i), i)
		}()
	}
	parked, running, done := map[int]string{}, n, 0
	begun := map[int]bool{}
	var log []string
	overlap := false
	take := func(limit time.Duration) bool {
		select {
		case e := <-s.arrive:
			running--
			if e.at == "" {
				done++
			} else {
				parked[e.worker] = e.at
			}
			return true
		case <-time.After(limit):
			return false
		}
	}
	for running > 0 && take(10*time.Second) {
	}
	for done < n {
		if len(parked) == 0 {
			if !take(60 * time.Second) {
				c.Fatalf("%d concurrent operations hang after %s", n-done, strings.Join(log, " "))
			}
			continue
		}
		var ready []int
		for w := range parked {
			ready = append(ready, w)
		}
		slices.Sort(ready)
		w := fx.Pick(c.T, "next", ready...)
		c.Step()
		log = append(log, fmt.Sprintf("%d:%s", w, parked[w]))
		if parked[w] != "start" {
			for o, at := range parked {
				overlap = overlap || (o != w && at != "start")
			}
		}
		begun[w] = true
		delete(parked, w)
		running++
		before := running
		s.resume[w] <- struct{}{}
		for running >= before && take(patience) {
		}
	}
	return strings.Join(log, " "), overlap
}

type codes struct {
	storage.AuthorizationCodeSession
	s *sched
}

func (g codes) Get(ctx context.Context, iss, k string) (*sessionv1.AuthorizationCodeSession, error) {
	g.s.gate(ctx, "code.get")
	return g.AuthorizationCodeSession.Get(ctx, iss, k)
}

func (g codes) Delete(ctx context.Context, iss, k string) error {
	g.s.gate(ctx, "code.delete")
	return g.AuthorizationCodeSession.Delete(ctx, iss, k)
}

func (g codes) Register(ctx context.Context, iss, k string, m *sessionv1.AuthorizationCodeSession) (uint64, error) {
	g.s.gate(ctx, "code.register")
	return g.AuthorizationCodeSession.Register(ctx, iss, k, m)
}

type reqs struct {
	storage.AuthorizationRequest
	s *sched
}

func (g reqs) Get(ctx context.Context, iss, k string) (*flowv1.AuthorizationRequest, error) {
	g.s.gate(ctx, "request.get")
	return g.AuthorizationRequest.Get(ctx, iss, k)
}

func (g reqs) Delete(ctx context.Context, iss, k string) error {
	g.s.gate(ctx, "request.delete")
	return g.AuthorizationRequest.Delete(ctx, iss, k)
}

type devices struct {
	storage.DeviceCodeSession
	s *sched
}

func (g devices) GetByUserCode(ctx context.Context, iss, k string) (*sessionv1.DeviceCodeSession, error) {
	g.s.gate(ctx, "device.get")
	return g.DeviceCodeSession.GetByUserCode(ctx, iss, k)
}

func (g devices) Validate(ctx context.Context, iss, k string, m *sessionv1.DeviceCodeSession) error {
	g.s.gate(ctx, "device.validate")
	return g.DeviceCodeSession.Validate(ctx, iss, k, m)
}

func (g devices) Delete(ctx context.Context, iss, k string) error {
	g.s.gate(ctx, "device.delete")
	return g.DeviceCodeSession.Delete(ctx, iss, k)
}

type tokens struct {
	storage.Token
	s *sched
}

func (g tokens) Create(ctx context.Context, iss string, m *tokenv1.Token) error {
	g.s.gate(ctx, "token.create")
	return g.Token.Create(ctx, iss, m)
}

type proofs struct {
	storage.DPoP
	s *sched
}

func (g proofs) Exists(ctx context.Context, id string) (bool, error) {
	g.s.gate(ctx, "proof.exists")
	return g.DPoP.Exists(ctx, id)
}

func (g proofs) Register(ctx context.Context, id string) error {
	g.s.gate(ctx, "proof.register")
	return g.DPoP.Register(ctx, id)
}
