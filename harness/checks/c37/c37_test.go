package c37

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	clientv1 "zntr.io/solid/api/oidc/client/v1"
	"zntr.io/solid/server/clientauthentication"

	"zntr.io/solid-verif/fx"
	"zntr.io/solid-verif/hx"
)

// node is one context with the client a server must find in it.
type node struct {
	ctx    context.Context
	client *clientv1.Client
	has    bool
	depth  int
	cancel context.CancelFunc
	dead   bool
	up     *node
	vals   map[any]any
}

type foreignKey string

func (k foreignKey) String() string { return "zntr.io/solid/server/clientauthentication/" + string(k) }

func (n *node) done() bool {
	for ; n != nil; n = n.up {
		if n.dead {
			return true
		}
	}
	return false
}

func TestC37(t *testing.T) {
	s := hx.New(t, "C37", "rapid state machine over a tree of request contexts: clients (some equal, some nil) are injected, values under look-alike keys added, contexts cancelled and detached, clients changed; after every step each context of the tree must carry exactly the nearest injected client, its values and its cancellation. Concurrent requests each read their own. Non-trivial: a tree with at least two injected clients on one path and a branching; identified by its steps.")

	s.Prop("tree", 2000, func(c *hx.Case) {
		root := &node{ctx: context.Background(), vals: map[any]any{}}
		nodes := []*node{root, {ctx: context.TODO(), vals: map[any]any{}}}
		var steps []string
		nested := false
		kids := map[*node]int{}
		add := func(n *node) {
			kids[n.up]++
			n.depth = n.up.depth + 1
			vals := map[any]any{}
			for k, v := range n.up.vals {
				vals[k] = v
			}
			for k, v := range n.vals {
				vals[k] = v
			}
			n.vals = vals
			nodes = append(nodes, n)
		}
		pick := func(t *rapid.T) *node { return nodes[len(nodes)-1-fx.Int(t, "from", 0, len(nodes)-1)] }
		var clients []*clientv1.Client
		c.Repeat(map[string]func(*rapid.T){
			"": func(*rapid.T) {
				for _, n := range nodes {
					got, ok := clientauthentication.FromContext(n.ctx)
					if (ok != n.has && (!n.has || n.client != nil)) || got != n.client {
						c.Fatalf("after %v: context at depth %d carries %v, %v; expected %v, %v", steps, n.depth, got, ok, n.client, n.has)
					}
					if dead := n.ctx.Err() != nil; dead != n.done() {
						c.Fatalf("after %v: context done: %v, expected %v", steps, dead, n.done())
					}
					if dead := n.done(); dead && !errors.Is(n.ctx.Err(), context.Canceled) {
						c.Fatalf("context ended with %v", n.ctx.Err())
					}
					for k, v := range n.vals {
						if n.ctx.Value(k) != v {
							c.Fatalf("after %v: value %v is %v, expected %v", steps, k, n.ctx.Value(k), v)
						}
					}
				}
			},
			"inject": func(t *rapid.T) {
				p := pick(t)
				var cl *clientv1.Client
				switch fx.Int(t, "client", 0, 6) {
				case 0:
				case 1:
					cl = &clientv1.Client{}
				case 2:
					if len(clients) > 0 {
						cl = clients[fx.Int(t, "again", 0, len(clients)-1)]
						break
					}
					fallthrough
				case 3:
					if p.client != nil {
						cl = proto.Clone(p.client).(*clientv1.Client)
						break
					}
					fallthrough
				default:
					cl = fx.FullClient(fx.Pick(t, "id", "alpha", "beta", "Alpha", ""), "https://a.example/cb")
				}
				if cl != nil {
					clients = append(clients, cl)
				}
				before := proto.Clone(cl)
				ctx := clientauthentication.Inject(p.ctx, cl)
				if cl != nil && !proto.Equal(before, cl) {
					c.Fatalf("injecting changed the client")
				}
				nested = nested || p.has
				add(&node{ctx: ctx, client: cl, has: true, up: p})
				steps = append(steps, fmt.Sprintf("inject %v at %d", cl != nil, p.depth))
				c.Hit("inject over %v", p.has)
				c.Step()
			},
			"value": func(t *rapid.T) {
				p := pick(t)
				var k any = fx.Pick[any](t, "key", "client", foreignKey("client"), "zntr.io/solid/server/clientauthentication/client", foreignKey("x"))
				var v any = fx.Pick[any](t, "value", "v", 1, true)
				if fx.Chance(t, "a client", 2) {
					v = fx.FullClient("intruder", "https://a.example/cb")
				}
				add(&node{ctx: context.WithValue(p.ctx, k, v), client: p.client, has: p.has, up: p, vals: map[any]any{k: v}})
				steps = append(steps, fmt.Sprintf("value %v at %d", k, p.depth))
				c.Step()
			},
			"derive": func(t *rapid.T) {
				p := pick(t)
				n := &node{client: p.client, has: p.has, up: p}
				if fx.Chance(t, "deadline", 2) {
					n.ctx, n.cancel = context.WithTimeout(p.ctx, time.Hour)
				} else {
					n.ctx, n.cancel = context.WithCancel(p.ctx)
				}
				c.T.Cleanup(n.cancel)
				add(n)
				steps = append(steps, "derive")
				c.Step()
			},
			"detach": func(t *rapid.T) {
				p := pick(t)
				n := &node{ctx: context.WithoutCancel(p.ctx), client: p.client, has: p.has, up: p}
				add(n)
				n.up = nil
				steps = append(steps, "detach")
				c.Step()
			},
			"cancel": func(t *rapid.T) {
				p := pick(t)
				if p.cancel == nil {
					return
				}
				p.cancel()
				p.dead = true
				steps = append(steps, "cancel")
				c.Step()
			},
			"change client": func(t *rapid.T) {
				if len(clients) == 0 {
					return
				}
				clients[fx.Int(t, "which", 0, len(clients)-1)].ClientId += "x"
				c.Step()
			},
		})
		branch := false
		for _, n := range kids {
			branch = branch || n > 1
		}
		if nested && branch {
			c.NonTrivial("%s", strings.Join(steps, ","))
		}
	})

	s.Prop("concurrent", 100, func(c *hx.Case) {
		base := context.Background()
		var outer *clientv1.Client
		if fx.Chance(c.T, "outer", 2) {
			outer = &clientv1.Client{ClientId: "outer"}
			base = clientauthentication.Inject(base, outer)
		}
		n := fx.Int(c.T, "requests", 2, 16)
		bad := make([]string, n)
		var wg sync.WaitGroup
		for i := range n {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cl := &clientv1.Client{ClientId: fmt.Sprint(i)}
				for range 20 {
					ctx := clientauthentication.Inject(base, cl)
					if got, ok := clientauthentication.FromContext(ctx); !ok || got != cl {
						bad[i] = fmt.Sprintf("request %d reads %v", i, got)
					}
					if got, ok := clientauthentication.FromContext(base); ok != (outer != nil) || got != outer {
						bad[i] = fmt.Sprintf("the outer context reads %v", got)
					}
				}
			}()
		}
		wg.Wait()
		if m := strings.Join(bad, ""); m != "" {
			c.Fatalf("%s", m)
		}
		c.NonTrivial("%d %v", n, outer != nil)
	})
}
