package checks

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C10",
		Rule:        "one case per connection that was added to a pool; distinct by scenario, bound, what the pool held and what was evicted; non-trivial: the pool was full",
		Assumptions: []string{"a connection counts as kept while its peer does not see it closed"},
		Scenarios: []core.Scenario{
			{Name: "inbound", Run: c10inbound},
			{Name: "outbound", Run: c10outbound},
			{Name: "crowd", Run: c10crowd},
			{Name: "callers", Run: c10callers},
			{Name: "busy", Run: c10busy},
			{Name: "separate", Run: c10separate},
			{Name: "defaults", Run: c10defaults},
		},
	})
}

// live is a reference peer's connection with a reader of its own.
type live struct {
	*wire.Conn
	closed atomic.Bool
	mu     sync.Mutex
	got    map[uint64][]byte
	next   uint64
}

func alive(c *wire.Conn) *live {
	l := &live{Conn: c, got: map[uint64][]byte{}}
	go func() {
		for {
			m, err := c.Recv()
			if err != nil {
				l.closed.Store(true)
				return
			}
			l.mu.Lock()
			l.got[m.Nonce] = m.Data
			l.mu.Unlock()
		}
	}()
	return l
}

// served makes a request and reports whether it was answered before the connection closed.
func (l *live) served(t *core.T) bool {
	l.mu.Lock()
	l.next++
	n := l.next
	l.mu.Unlock()
	req := payload('e', uint32(n), 0, 30)
	if l.Send(wire.Msg{Nonce: n, Data: req}) != nil {
		return false
	}
	ok := false
	t.Await(core.Long, func() bool {
		l.mu.Lock()
		defer l.mu.Unlock()
		ok = bytes.Equal(l.got[n], echoOf(req))
		return ok || l.closed.Load()
	})
	return ok
}

func boundBoth(k int) []opt {
	return opts(noise.WithNodeMaxInboundConnections(uint(k)), noise.WithNodeMaxOutboundConnections(uint(k)))
}

// sampler watches the size of a pool all the time.
func sampler(t *core.T, k int, what string, size func() int) (stop func()) {
	done := make(chan struct{})
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		for {
			select {
			case <-done:
				return
			default:
			}
			if n := size(); n > k {
				t.Violation("bound", "the node lists %d %s connections, but the bound is %d", n, what, k)
			}
			t.Count("observations of a pool's size", 1)
			time.Sleep(50 * time.Microsecond)
		}
	}()
	return func() { close(done); <-ended }
}

// c10inbound: peers connect one after another.
func c10inbound(t *core.T) {
	t.Require("evictions", 60)
	for round := 0; round < t.N(8, 120); round++ {
		t.PerturbRound(round)
		k := []int{1, 2, 3, 5, 8}[round%5]
		m := newMon()
		n := mk(t, func(n *noise.Node) { n.Bind(m.protocol()); n.Handle(echo) }, noise.WithNodeMaxInboundConnections(uint(k)), noise.WithNodeMaxOutboundConnections(50))
		stop := sampler(t, k, "inbound", func() int { return len(n.Inbound()) })
		rng := t.RNG("inbound", round)
		var open []*live // oldest first
		for i := 0; i < 5*k+4; i++ {
			if len(open) > 0 && rng.Intn(4) == 0 { // one leaves by itself
				j := rng.Intn(len(open))
				open[j].Close()
				open = append(open[:j:j], open[j+1:]...)
				if !t.Await(core.Long, func() bool { return len(n.Inbound()) == len(open) }) {
					t.Violation("kept", "a connection that its peer closed stays in the pool")
				}
			}
			for _, l := range open { // using old connections does not make them recent
				if rng.Intn(3) == 0 && !l.served(t) {
					t.Violation("evicted", "a connection was closed although the pool was not over its bound (%d of %d)", len(open), k)
				}
			}
			c, err := wire.Dial(loop(n), wire.NewIdentity(uint16(4000+i)), &wire.Options{Timeout: core.Long})
			if err != nil {
				t.Violation("refused", "a connection was not served with the pool holding %d of %d: %v", len(open), k, err)
				continue
			}
			l := alive(c)
			if !l.served(t) {
				t.Violation("refused", "a new connection was not served with the pool holding %d of %d", len(open), k)
			}
			open = append(open, l)
			if len(open) > k {
				victim := open[0]
				open = open[1:]
				if !t.Await(core.Long, func() bool { return victim.closed.Load() }) {
					t.Violation("oldest", "the oldest of %d connections is still open although the bound is %d", len(open)+1, k)
				}
				t.Count("evictions", 1)
			}
			if !t.Await(core.Long, func() bool { return len(n.Inbound()) == len(open) }) {
				t.Violation("pool", "the pool lists %d connections, but %d should be open", len(n.Inbound()), len(open))
			}
			for j, l := range open {
				if l.closed.Load() {
					t.Violation("evicted", "connection %d of %d, which is not the oldest, was closed (bound %d)", j, len(open), k)
				}
			}
			t.Case("inbound/%d/%d/%d", k, round, i)
		}
		for _, l := range open {
			if !l.served(t) {
				t.Violation("evicted", "a connection within the bound is not served any more")
			}
			l.Close()
		}
		stop()
		t.RunCleanups()
	}
}

// station is a reference peer that nodes can dial.
type station struct {
	l    net.Listener
	id   *wire.Identity
	mu   sync.Mutex
	cs   []*live
	msgs atomic.Int64
}

func newStation(t *core.T) *station {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
	if err != nil {
		panic(err)
	}
	s := &station{l: l, id: wire.NewIdentity(uint16(l.Addr().(*net.TCPAddr).Port))}
	t.Cleanup(func() {
		l.Close()
		for _, c := range s.conns() {
			c.Close()
		}
	})
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				c, err := wire.Handshake(nc, s.id, &wire.Options{Timeout: core.Long})
				if err != nil {
					nc.Close()
					return
				}
				lv := &live{Conn: c, got: map[uint64][]byte{}}
				s.mu.Lock()
				s.cs = append(s.cs, lv)
				s.mu.Unlock()
				for {
					m, err := c.Recv()
					if err != nil {
						lv.closed.Store(true)
						c.Close()
						return
					}
					s.msgs.Add(1)
					if m.Nonce > 0 {
						c.Send(wire.Msg{Nonce: m.Nonce, Data: echoOf(m.Data)})
					}
				}
			}()
		}
	}()
	return s
}

func (s *station) addr() string { return s.l.Addr().String() }

func (s *station) conns() []*live {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*live{}, s.cs...)
}

func (s *station) open() (n int) {
	for _, c := range s.conns() {
		if !c.closed.Load() {
			n++
		}
	}
	return
}

// c10outbound: sequences of operations, compared with a model of the pool.
func c10outbound(t *core.T) {
	t.Require("evictions", 100)
	for round := 0; round < t.N(10, 150); round++ {
		t.PerturbRound(round)
		k := []int{1, 2, 3, 4, 7}[round%5]
		a := mk(t, nil, boundBoth(k)...)
		var st []*station
		for i := 0; i < k+3; i++ {
			st = append(st, newStation(t))
		}
		stop := sampler(t, k, "outbound", func() int { return len(a.Outbound()) })
		rng := t.RNG("outbound", round)
		var order []int // most recent first
		ctx, cancel := ctxT(4 * core.Long)
		for i := 0; i < 40; i++ {
			j := rng.Intn(len(st))
			if len(order) > 1 && rng.Intn(2) == 0 { // one that is already in the pool
				j = order[rng.Intn(len(order))]
			}
			hit := -1
			for x, o := range order {
				if o == j {
					hit = x
				}
			}
			conns := len(st[j].conns())
			op, err := operate(a, ctx, st[j].addr(), rng, 'e', uint32(i), 0)
			if err != nil {
				t.Violation("refused", "a %s failed with %d of %d connections: %v", op, len(order), k, err)
				continue
			}
			victim := -1
			if hit >= 0 {
				order = append(order[:hit], order[hit+1:]...)
			} else if len(order) == k {
				victim = order[k-1]
				order = order[:k-1]
			}
			order = append([]int{j}, order...)
			if hit >= 0 && len(st[j].conns()) != conns {
				t.Violation("evicted", "a connection that was used as number %d of %d of its pool had been closed (bound %d)", hit+1, len(order), k)
			}
			if victim >= 0 {
				if !t.Await(core.Long, func() bool { return st[victim].open() == 0 }) {
					t.Violation("lru", "the least recently used of %d connections is still open although the bound is %d", k+1, k)
				}
				t.Count("evictions", 1)
			}
			for _, o := range order {
				if !t.Await(core.Long, func() bool { return st[o].open() == 1 }) {
					t.Violation("lru", "a connection that is among the %d most recently used ones is not open", k)
				}
			}
			if n := len(a.Outbound()); n != len(order) {
				t.Violation("pool", "the pool lists %d connections, but %d should be open", n, len(order))
			}
			t.Case("outbound/%d/%d/%d", k, round, i)
		}
		cancel()
		stop()
		t.RunCleanups()
	}
}

// c10crowd: many peers connect at once.
func c10crowd(t *core.T) {
	t.Require("evictions", 150)
	for round := 0; round < t.N(6, 80); round++ {
		t.PerturbRound(round)
		k := []int{1, 3, 8}[round%3]
		n := mk(t, func(n *noise.Node) { n.Handle(echo) }, noise.WithNodeMaxInboundConnections(uint(k)))
		stop := sampler(t, k, "inbound", func() int { return len(n.Inbound()) })
		var mu sync.Mutex
		var all []*live
		par(10, func(i int) {
			for j := 0; j < 5; j++ {
				c, err := wire.Dial(loop(n), wire.NewIdentity(4000), &wire.Options{Timeout: core.Long})
				if err != nil {
					if c != nil {
						t.Count("evictions", 1)
					}
					continue
				}
				mu.Lock()
				all = append(all, alive(c))
				mu.Unlock()
			}
		})
		open := func() int {
			c := 0
			for _, l := range all {
				if !l.closed.Load() {
					c++
				}
			}
			return c
		}
		if !t.Await(core.Long, func() bool { return open() <= k }) {
			t.Violation("bound", "%d connections are open although the bound is %d", open(), k)
		}
		t.Count("evictions", len(all)-open())
		// The last ones are served.
		for i := 0; i < k; i++ {
			c, err := wire.Dial(loop(n), wire.NewIdentity(4000), &wire.Options{Timeout: core.Long})
			if err != nil {
				t.Violation("refused", "a connection after many was not served: %v", err)
				continue
			}
			l := alive(c)
			all = append(all, l)
			if !l.served(t) {
				t.Violation("refused", "a connection after many was not served")
			}
		}
		if !t.Await(core.Long, func() bool { return open() == k && len(n.Inbound()) == k }) {
			t.Violation("bound", "%d connections are open and %d are listed, but the bound is %d", open(), len(n.Inbound()), k)
		}
		for _, l := range all[len(all)-k:] {
			if !l.served(t) {
				t.Violation("oldest", "one of the %d newest connections is not served", k)
			}
		}
		for _, l := range all {
			l.Close()
		}
		stop()
		t.Case("crowd/%d/%d", k, round)
		t.RunCleanups()
	}
}

// c10callers: many callers compete for a small outbound pool.
func c10callers(t *core.T) {
	t.Require("operations", 1500)
	for round := 0; round < t.N(5, 60); round++ {
		t.PerturbRound(round)
		k := []int{1, 2, 4}[round%3]
		a := mk(t, nil, append(boundBoth(k), noise.WithNodeMaxDialAttempts(5))...)
		var st []*station
		for i := 0; i < 2*k+2; i++ {
			st = append(st, newStation(t))
		}
		stop := sampler(t, k, "outbound", func() int { return len(a.Outbound()) })
		var okay atomic.Int64
		done := make(chan struct{})
		go func() {
			defer close(done)
			par(8, func(i int) {
				rng := t.RNG("caller", round*10+i)
				for j := 0; j < 50; j++ {
					if _, err := operate(a, bg, st[rng.Intn(len(st))].addr(), rng, 'e', uint32(i), uint32(j)); err == nil {
						okay.Add(1)
					}
					t.Count("operations", 1)
				}
			})
		}()
		if !t.Done(2*core.Long, done) {
			t.Violation("blocked", "operations did not return while connections were evicted\n%s", core.LibDump(30))
			return
		}
		if okay.Load() == 0 {
			t.Violation("blocked", "of all operations none succeeded")
		}
		open := func() int {
			c := 0
			for _, s := range st {
				c += s.open()
			}
			return c
		}
		if !t.Await(core.Long, func() bool { return open() <= k && len(a.Outbound()) == open() }) {
			t.Violation("bound", "%d connections are open and %d are listed, but the bound is %d", open(), len(a.Outbound()), k)
		}
		ctx, cancel := ctxT(core.Long)
		for _, s := range st {
			if _, err := a.Request(ctx, s.addr(), payload('e', 0, 0, 30)); err != nil {
				t.Violation("refused", "a request failed after others competed for connections: %v", err)
			}
		}
		cancel()
		stop()
		t.Case("callers/%d/%d", k, round)
		t.RunCleanups()
	}
}

// c10busy: the connection to evict is in the middle of something.
func c10busy(t *core.T) {
	t.Require("busy connections evicted", 30)
	states := []string{"connected callback", "disconnected callback", "handler", "handshake", "not reading", "silent"}
	for round := 0; round < t.N(3, 30); round++ {
		for _, outbound := range []bool{false, true} {
			for _, state := range states {
				t.PerturbRound(round)
				gate := make(chan struct{})
				var first, blocked atomic.Bool
				block := func() {
					if first.CompareAndSwap(false, true) {
						blocked.Store(true)
						<-gate
					}
				}
				n := mk(t, func(n *noise.Node) {
					n.Bind(noise.Protocol{
						OnPeerConnected: func(*noise.Client) {
							if state == "connected callback" {
								block()
							}
						},
						OnPeerDisconnected: func(*noise.Client) {
							if state == "disconnected callback" {
								block()
							}
						},
					})
					n.Handle(func(ctx noise.HandlerContext) error {
						if state == "handler" {
							block()
						}
						if state == "not reading" && !ctx.IsRequest() {
							for i := 0; i < 16; i++ {
								ctx.Send(make([]byte, 1<<20))
							}
							blocked.Store(true)
						}
						return echo(ctx)
					})
				}, append(boundBoth(1), noise.WithNodeNumWorkers(4))...)
				var err error
				if outbound {
					switch state {
					case "handshake":
						var addr string
						if addr, err = silent(t, 0); err == nil {
							go n.Ping(bg, addr)
							err = nil
							t.Await(core.Long, func() bool { return len(n.Outbound()) == 1 })
						}
					default:
						s := newStation(t)
						go n.Ping(bg, s.addr())
						if !t.Await(core.Long, func() bool { return s.open() == 1 && len(n.Outbound()) == 1 }) {
							err = errors.New("not connected")
							break
						}
						c := s.conns()[0]
						switch state {
						case "handler":
							c.Send(wire.Msg{Data: []byte("x")})
							t.Await(core.Long, blocked.Load)
						case "connected callback":
							t.Await(core.Long, blocked.Load)
						case "not reading":
							n.Send(bg, s.addr(), make([]byte, 3<<20))
						}
					}
				} else {
					var c *wire.Conn
					var nc net.Conn
					switch state {
					case "handshake":
						if nc, err = net.Dial("tcp", loop(n)); err == nil {
							t.Cleanup(func() { nc.Close() })
						}
					default:
						if c, err = wire.Dial(loop(n), wire.NewIdentity(4000), &wire.Options{Timeout: core.Long}); err == nil {
							t.Cleanup(func() { c.Close() })
							switch state {
							case "handler", "not reading":
								c.Send(wire.Msg{Data: []byte("x")})
								t.Await(core.Long, blocked.Load)
							case "connected callback":
								t.Await(core.Long, blocked.Load)
							}
						}
					}
					t.Await(core.Long, func() bool { return len(n.Inbound()) == 1 })
				}
				if err != nil {
					t.Inconclusive("%s: %v", state, err)
					close(gate)
					t.RunCleanups()
					continue
				}
				for i := 0; i < 3; i++ { // each evicts the one before
					if outbound {
						s := newStation(t)
						var err error
						if !t.Do(core.Long, func() { _, err = n.Request(bg, s.addr(), payload('e', 0, 0, 30)) }) {
							t.Violation("blocked", "dialing is blocked by evicting a connection (%s)\n%s", state, core.LibDump(20))
							break
						} else if err != nil {
							t.Violation("refused", "a request that evicts a connection (%s) failed: %v", state, err)
						}
					} else if err := probe(loop(n), wire.NewIdentity(uint16(4001+i)), t.RNG("probe", i)); err != nil {
						t.Violation("blocked", "a connection that evicts another (%s) is not served: %v\n%s", state, err, core.LibDump(20))
						break
					}
				}
				t.Do(core.Long, func() { n.Inbound(); n.Outbound() })
				t.Count("busy connections evicted", 1)
				t.Case("busy/%v/%s/%d", outbound, state, round)
				close(gate)
				t.RunCleanups()
			}
		}
	}
}

// c10separate: the bounds of both directions are independent of each other.
func c10separate(t *core.T) {
	for round := 0; round < t.N(2, 10); round++ {
		// More inbound than outbound connections allowed.
		n := mk(t, func(n *noise.Node) { n.Handle(echo) }, noise.WithNodeMaxInboundConnections(6), noise.WithNodeMaxOutboundConnections(2))
		var st []*station
		ctx, cancel := ctxT(core.Long)
		for i := 0; i < 5; i++ {
			st = append(st, newStation(t))
			n.Ping(ctx, st[i].addr())
		}
		time.Sleep(50 * time.Millisecond)
		open := 0
		for _, s := range st {
			open += s.open()
		}
		if open > 6 {
			t.Violation("bound", "%d outbound connections are open with bounds of 6 inbound and 2 outbound", open)
		} else if open > 2 {
			t.Finding("outbound-bound", "a node that may have 6 inbound and 2 outbound connections keeps %d outbound ones", open)
		}
		t.Case("separate/in>out/%d", round)
		// Inbound connections do not count as outbound ones, and the other way round.
		var in []*live
		for i := 0; i < 6; i++ {
			c, err := wire.Dial(loop(n), wire.NewIdentity(uint16(4000+i)), &wire.Options{Timeout: core.Long})
			if err != nil {
				t.Violation("refused", "inbound connection %d of 6 was refused: %v", i+1, err)
				continue
			}
			in = append(in, alive(c))
		}
		for _, l := range in {
			if !l.served(t) {
				t.Violation("evicted", "an inbound connection within the bound was closed while there were outbound ones")
			}
		}
		after := 0
		for _, s := range st {
			after += s.open()
		}
		if after < open {
			t.Violation("evicted", "inbound connections evicted outbound ones")
		}
		t.RunCleanups()
		// Fewer inbound than outbound connections allowed.
		n = mk(t, func(n *noise.Node) { n.Handle(echo) }, noise.WithNodeMaxInboundConnections(2), noise.WithNodeMaxOutboundConnections(6))
		st = nil
		for i := 0; i < 5; i++ {
			st = append(st, newStation(t))
			n.Ping(ctx, st[i].addr())
		}
		time.Sleep(50 * time.Millisecond)
		open = 0
		for _, s := range st {
			open += s.open()
		}
		if open < 2 {
			t.Violation("evicted", "%d outbound connections are open with bounds of 2 inbound and 6 outbound", open)
		} else if open < 5 {
			t.Finding("outbound-bound-low", "a node that may have 2 inbound and 6 outbound connections keeps %d of 5 outbound ones", open)
		}
		cancel()
		t.Case("separate/in<out/%d", round)
		t.RunCleanups()
	}
}

// c10defaults: zero means the default of 128.
func c10defaults(t *core.T) {
	for i, o := range [][]opt{nil, opts(noise.WithNodeMaxInboundConnections(0), noise.WithNodeMaxOutboundConnections(0))} {
		n := mk(t, func(n *noise.Node) { n.Handle(echo) }, o...)
		var mu sync.Mutex
		var in []*live
		par(8, func(g int) {
			for j := 0; j < 16; j++ {
				c, err := wire.Dial(loop(n), wire.NewIdentity(4000), &wire.Options{Timeout: core.Long})
				if err != nil {
					t.Violation("refused", "one of 128 inbound connections was refused: %v", err)
					return
				}
				mu.Lock()
				in = append(in, alive(c))
				mu.Unlock()
			}
		})
		open := func() (k int) {
			for _, l := range in {
				if !l.closed.Load() {
					k++
				}
			}
			return
		}
		for _, l := range in {
			if !l.served(t) {
				t.Violation("evicted", "one of 128 inbound connections was closed")
				break
			}
		}
		for j := 0; j < 3; j++ {
			c, err := wire.Dial(loop(n), wire.NewIdentity(4000), &wire.Options{Timeout: core.Long})
			if err != nil {
				t.Violation("refused", "inbound connection %d was refused: %v", 129+j, err)
				continue
			}
			in = append(in, alive(c))
		}
		if !t.Await(core.Long, func() bool { return open() == 128 }) {
			t.Violation("bound", "%d of 131 inbound connections are open with the default bound", open())
		}
		for _, l := range in {
			l.Close()
		}
		t.Case("defaults/%d", i)
		t.RunCleanups()
	}
}
