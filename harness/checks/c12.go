package checks

import (
	"context"
	"errors"
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C12",
		Rule:        "one case per node that was closed; distinct by scenario, state at the time of closing, how it was closed and round; non-trivial: the node had connections, operations or handlers under way",
		Assumptions: []string{"a message that arrived before Close may still be handled while Close is returning"},
		Scenarios: []core.Scenario{
			{Name: "states", Run: c12states},
			{Name: "calls", Run: c12calls},
			{Name: "starting", Run: c12starting},
			{Name: "traffic", Run: c12traffic},
		},
	})
}

// c12node is a node whose surroundings are reference peers only.
type c12node struct {
	n         *noise.Node
	handled   atomic.Int64
	after     atomic.Int64 // handlers that were started for messages sent after Close returned
	hook      func(ctx noise.HandlerContext)
	protocol  noise.Protocol
	listening bool
	peers     []*live
	stations  []*station
	conns     []net.Conn // accepted by the node, in whatever state
	release   []func()
}

func newC12(t *core.T, listen bool, o ...opt) (*c12node, error) {
	c := &c12node{listening: listen}
	setup := func(n *noise.Node) {
		n.Bind(noise.Protocol{
			OnPeerConnected: func(x *noise.Client) {
				if c.protocol.OnPeerConnected != nil {
					c.protocol.OnPeerConnected(x)
				}
			},
			OnPeerDisconnected: func(x *noise.Client) {
				if c.protocol.OnPeerDisconnected != nil {
					c.protocol.OnPeerDisconnected(x)
				}
			},
			OnMessageRecv: func(x *noise.Client) {
				if c.protocol.OnMessageRecv != nil {
					c.protocol.OnMessageRecv(x)
				}
			},
			OnMessageSent: func(x *noise.Client) {
				if c.protocol.OnMessageSent != nil {
					c.protocol.OnMessageSent(x)
				}
			},
			OnPingFailed: func(a string, err error) {
				if c.protocol.OnPingFailed != nil {
					c.protocol.OnPingFailed(a, err)
				}
			},
		})
		n.Handle(func(ctx noise.HandlerContext) error {
			c.handled.Add(1)
			if string(ctx.Data()) == "after" {
				c.after.Add(1)
			}
			if c.hook != nil {
				c.hook(ctx)
			}
			return echo(ctx)
		})
	}
	if listen {
		var err error
		for i := 0; i < 20; i++ {
			if c.n, err = noise.NewNode(append([]opt{noise.WithNodeBindPort(t.Port())}, o...)...); err != nil {
				return nil, err
			}
			setup(c.n)
			if err = c.n.Listen(); err == nil {
				return c, nil
			}
		}
		return nil, err
	}
	var err error
	c.n, err = noise.NewNode(append([]opt{noise.WithNodeBindHost(net.IPv4(127, 0, 0, 1)), noise.WithNodeBindPort(t.Port())}, o...)...)
	if err == nil {
		setup(c.n)
	}
	return c, err
}

func (c *c12node) dialed(t *core.T) (*live, error) {
	w, err := wire.Dial(loop(c.n), wire.NewIdentity(uint16(4000+len(c.peers))), &wire.Options{Timeout: core.Long})
	if err != nil {
		return nil, err
	}
	l := alive(w)
	c.peers = append(c.peers, l)
	t.Cleanup(func() { l.Close() })
	return l, nil
}

func (c *c12node) dials(t *core.T) error {
	s := newStation(t)
	c.stations = append(c.stations, s)
	ctx, cancel := ctxT(core.Long)
	defer cancel()
	_, err := c.n.Ping(ctx, s.addr())
	return err
}

// ended checks everything that must hold once Close has returned.
func (c *c12node) ended(t *core.T, what string) {
	addr := loop(c.n)
	if c.listening {
		if nc, err := net.DialTimeout("tcp", addr, core.Long); err == nil {
			nc.Close()
			t.Violation("accepts", "a closed node accepts a connection (%s)", what)
		}
	}
	for _, l := range c.peers {
		l.Send(wire.Msg{Data: []byte("after")})
	}
	for _, s := range c.stations {
		for _, l := range s.conns() {
			l.Send(wire.Msg{Data: []byte("after")})
		}
	}
	s := newStation(t)
	ops := map[string]func(ctx context.Context) error{
		"ping":    func(ctx context.Context) error { _, err := c.n.Ping(ctx, s.addr()); return err },
		"send":    func(ctx context.Context) error { return c.n.Send(ctx, s.addr(), []byte("x")) },
		"request": func(ctx context.Context) error { _, err := c.n.Request(ctx, s.addr(), []byte("x")); return err },
	}
	for _, s := range c.stations[:min(1, len(c.stations))] {
		ops["send to an earlier peer"] = func(ctx context.Context) error { return c.n.Send(ctx, s.addr(), []byte("x")) }
		ops["ping to an earlier peer"] = func(ctx context.Context) error { _, err := c.n.Ping(ctx, s.addr()); return err }
	}
	for name, op := range ops {
		var err error
		if !t.Do(core.Long, func() { err = op(bg) }) {
			t.Violation("later-hang", "a %s on a closed node does not return (%s)\n%s", name, what, core.LibDump(20))
		} else if err == nil {
			t.Violation("later-succeeds", "a %s on a closed node succeeded (%s)", name, what)
		}
	}
	if len(s.conns()) > 0 {
		t.Violation("later-succeeds", "a closed node made a connection (%s)", what)
	}
	for _, l := range c.peers {
		if !t.Await(core.Long, l.closed.Load) {
			t.Violation("open", "an inbound connection of a closed node is open (%s)", what)
			break
		}
	}
	for _, s := range c.stations {
		if !t.Await(core.Long, func() bool { return s.open() == 0 }) {
			t.Violation("open", "an outbound connection of a closed node is open (%s)", what)
			break
		}
	}
	for _, nc := range c.conns {
		if _, closed := closedByPeer(t, nc); !closed {
			t.Violation("open", "a connection that was handshaking when its node was closed is open (%s)", what)
			break
		}
	}
	for _, f := range c.release {
		f()
	}
	c.release = nil
	if !t.Await(core.Long, func() bool { return len(core.LibStacks()) == 0 }) {
		t.Violation("goroutines", "%d goroutines of a closed node still run (%s)\n%s", len(core.LibStacks()), what, core.LibDump(20))
	}
	if !t.Await(core.Long/4, func() bool { return len(c.n.Inbound())+len(c.n.Outbound()) == 0 }) {
		t.Violation("listed", "a closed node lists %d connections (%s)", len(c.n.Inbound())+len(c.n.Outbound()), what)
	}
	if n := c.after.Load(); n > 0 {
		t.Violation("handled", "a closed node handled %d messages that were sent after it was closed (%s)", n, what)
	}
	var err error
	if !t.Do(core.Long, func() { err = c.n.Close() }) {
		t.Violation("close-hang", "closing a closed node does not return (%s)", what)
	}
	_ = err
	t.Count("nodes closed", 1)
}

type c12state struct {
	name   string
	listen bool
	opts   []opt
	setup  func(t *core.T, c *c12node, rng *mrand.Rand) error
}

func c12all() []c12state {
	conns := func(t *core.T, c *c12node) error {
		for i := 0; i < 2; i++ {
			if _, err := c.dialed(t); err != nil {
				return err
			}
			if err := c.dials(t); err != nil {
				return err
			}
		}
		return nil
	}
	gated := func(c *c12node) chan struct{} {
		gate := make(chan struct{})
		c.release = append(c.release, func() { close(gate) })
		return gate
	}
	return []c12state{
		{"never started", false, nil, func(t *core.T, c *c12node, _ *mrand.Rand) error { return nil }},
		{"never started, but connected", false, nil, func(t *core.T, c *c12node, _ *mrand.Rand) error { return c.dials(t) }},
		{"just started", true, nil, func(t *core.T, c *c12node, _ *mrand.Rand) error { return nil }},
		{"connected", true, nil, func(t *core.T, c *c12node, _ *mrand.Rand) error { return conns(t, c) }},
		{"with ended connections", true, nil, func(t *core.T, c *c12node, _ *mrand.Rand) error {
			if err := conns(t, c); err != nil {
				return err
			}
			for _, l := range append(c.n.Inbound(), c.n.Outbound()...) {
				l.Close()
			}
			return nil
		}},
		{"handshaking inbound", true, nil, func(t *core.T, c *c12node, rng *mrand.Rand) error {
			for i := 0; i < 3; i++ {
				nc, err := net.Dial("tcp", loop(c.n))
				if err != nil {
					return err
				}
				c.conns = append(c.conns, nc)
				t.Cleanup(func() { nc.Close() })
				if i > 0 {
					wire.Handshake(nc, wire.NewIdentity(1), &wire.Options{Stop: i, Timeout: core.Long})
				}
			}
			t.Await(core.Long, func() bool { return len(c.n.Inbound()) == 3 })
			return nil
		}},
		{"handshaking outbound", true, nil, func(t *core.T, c *c12node, rng *mrand.Rand) error {
			for i := 0; i < 3; i++ {
				addr, err := silent(t, i)
				if err != nil {
					return err
				}
				go c.n.Ping(bg, addr)
			}
			t.Await(core.Long, func() bool { return len(c.n.Outbound()) == 3 })
			time.Sleep(time.Duration(rng.Intn(5)) * time.Millisecond)
			return nil
		}},
		{"dialing", true, nil, func(t *core.T, c *c12node, rng *mrand.Rand) error {
			addr, err := blackhole(t)
			if err != nil {
				return err
			}
			for i := 0; i < 3; i++ {
				go c.n.Ping(bg, addr)
			}
			t.Await(core.Long, func() bool { return len(c.n.Outbound()) == 1 })
			return nil
		}},
		{"trying to dial over and over", true, opts(noise.WithNodeMaxDialAttempts(1 << 30)), func(t *core.T, c *c12node, rng *mrand.Rand) error {
			addr := fmt.Sprintf("127.0.0.1:%d", t.Port())
			done := make(chan struct{})
			go func() { defer close(done); c.n.Ping(bg, addr) }()
			c.release = append(c.release, func() {
				if !t.Done(core.Long, done) {
					t.Violation("pending", "an operation that was under way when the node was closed does not return")
				}
			})
			time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
			return nil
		}},
		{"with requests under way", true, nil, func(t *core.T, c *c12node, rng *mrand.Rand) error {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
			if err != nil {
				return err
			}
			t.Cleanup(func() { l.Close() })
			var seen atomic.Int64
			go func() {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				w, err := wire.Handshake(nc, wire.NewIdentity(3), &wire.Options{Timeout: core.Long})
				if err != nil {
					return
				}
				for {
					if _, err := w.Recv(); err != nil {
						w.Close()
						return
					}
					seen.Add(1)
				}
			}()
			var wg sync.WaitGroup
			for i := 0; i < 8; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if _, err := c.n.Request(bg, l.Addr().String(), []byte("q")); err == nil {
						t.Violation("made-up", "a request that nobody answered succeeded when its node was closed")
					}
				}()
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			c.release = append(c.release, func() {
				if !t.Done(core.Long, done) {
					t.Violation("pending", "requests that were under way when their node was closed do not return\n%s", core.LibDump(20))
				}
			})
			t.Await(core.Long, func() bool { return seen.Load() == 8 })
			return nil
		}},
		{"in handlers", true, opts(noise.WithNodeNumWorkers(2)), func(t *core.T, c *c12node, rng *mrand.Rand) error {
			gate := gated(c)
			var in atomic.Int64
			c.hook = func(noise.HandlerContext) { in.Add(1); <-gate }
			l, err := c.dialed(t)
			if err != nil {
				return err
			}
			for i := 0; i < 2; i++ {
				l.Send(wire.Msg{Nonce: uint64(i), Data: []byte("x")})
			}
			t.Await(core.Long, func() bool { return in.Load() == 2 })
			return nil
		}},
		{"with handlers and their queue full", true, opts(noise.WithNodeNumWorkers(1)), func(t *core.T, c *c12node, rng *mrand.Rand) error {
			gate := gated(c)
			var in atomic.Int64
			c.hook = func(noise.HandlerContext) { in.Add(1); <-gate }
			for p := 0; p < 3; p++ {
				l, err := c.dialed(t)
				if err != nil {
					return err
				}
				for i := 0; i < 8; i++ {
					l.Send(wire.Msg{Data: []byte("x")})
				}
			}
			if err := c.dials(t); err != nil {
				return err
			}
			for i := 0; i < 8; i++ {
				c.stations[0].conns()[0].Send(wire.Msg{Data: []byte("x")})
			}
			t.Await(core.Long, func() bool { return in.Load() == 1 })
			time.Sleep(10 * time.Millisecond)
			return nil
		}},
		{"in the connected callback", true, nil, func(t *core.T, c *c12node, rng *mrand.Rand) error {
			gate := gated(c)
			var in atomic.Int64
			c.protocol.OnPeerConnected = func(*noise.Client) { in.Add(1); <-gate }
			go c.n.Ping(bg, newStation(t).addr())
			w, err := wire.Dial(loop(c.n), wire.NewIdentity(9), &wire.Options{Timeout: core.Long})
			if err != nil {
				return err
			}
			c.peers = append(c.peers, alive(w))
			t.Await(core.Long, func() bool { return in.Load() == 2 })
			return nil
		}},
		{"in the disconnected callback", true, nil, func(t *core.T, c *c12node, rng *mrand.Rand) error {
			gate := gated(c)
			var in atomic.Int64
			c.protocol.OnPeerDisconnected = func(*noise.Client) { in.Add(1); <-gate }
			if err := conns(t, c); err != nil {
				return err
			}
			c.peers[0].Close()
			c.stations[0].conns()[0].Close()
			t.Await(core.Long, func() bool { return in.Load() == 2 })
			return nil
		}},
		{"in the received and sent callbacks", true, nil, func(t *core.T, c *c12node, rng *mrand.Rand) error {
			gate := gated(c)
			var in atomic.Int64
			c.protocol.OnMessageRecv = func(*noise.Client) { in.Add(1); <-gate }
			c.protocol.OnMessageSent = c.protocol.OnMessageRecv
			if err := conns(t, c); err != nil {
				return err
			}
			c.peers[0].Send(wire.Msg{Data: []byte("x")})
			c.n.Send(bg, c.stations[0].addr(), []byte("x"))
			t.Await(core.Long, func() bool { return in.Load() == 2 })
			return nil
		}},
		{"writing to peers that do not read", true, nil, func(t *core.T, c *c12node, rng *mrand.Rand) error {
			for i := 0; i < 2; i++ {
				id := wire.NewIdentity(uint16(4000 + i))
				w, err := wire.Dial(loop(c.n), id, &wire.Options{Timeout: core.Long})
				if err != nil {
					return err
				}
				c.conns = append(c.conns, w.Conn)
				t.Cleanup(func() { w.Close() })
				c.hook = func(ctx noise.HandlerContext) {
					for j := 0; j < 8; j++ {
						ctx.Send(make([]byte, 1<<20))
					}
				}
				w.Send(wire.Msg{Data: []byte("x")})
			}
			t.Await(core.Long, func() bool { return c.handled.Load() == 2 })
			time.Sleep(10 * time.Millisecond)
			return nil
		}},
	}
}

// c12states closes nodes in each state, by one caller or several at once.
func c12states(t *core.T) {
	t.Require("nodes closed", 40)
	for round := 0; round < t.N(3, 40); round++ {
		for i, s := range c12all() {
			t.PerturbRound(round + i)
			c, err := newC12(t, s.listen, s.opts...)
			if err != nil {
				t.Inconclusive("%s: %v", s.name, err)
				continue
			}
			if err := s.setup(t, c, t.RNG(s.name, round)); err != nil {
				t.Inconclusive("%s: %v", s.name, err)
			}
			callers := []int{1, 4}[round%2]
			t.Stage("closing a node that is " + s.name)
			done := make(chan struct{})
			go func() {
				defer close(done)
				par(callers, func(int) { c.n.Close() })
			}()
			if !t.Done(core.Long, done) {
				t.Violation("close-hang", "Close does not return (%s, %d callers)\n%s", s.name, callers, core.LibDump(20))
				for _, f := range c.release {
					f()
				}
				t.RunCleanups()
				return
			}
			c.ended(t, s.name)
			t.Case("states/%s/%d/%d", s.name, callers, round)
			t.RunCleanups()
		}
	}
}

// c12calls closes nodes from within handlers and callbacks.
func c12calls(t *core.T) {
	t.Require("nodes closed", 24)
	kinds := []string{"handler", "handler of a request", "connected", "connected outbound", "disconnected", "received", "sent", "ping failed"}
	for round := 0; round < t.N(4, 50); round++ {
		for i, kind := range kinds {
			t.PerturbRound(round + i)
			c, err := newC12(t, true, noise.WithNodeNumWorkers(uint(1+round%3)))
			if err != nil {
				t.Inconclusive("%v", err)
				continue
			}
			done := make(chan struct{})
			var once sync.Once
			closeIt := func() {
				once.Do(func() {
					c.n.Close()
					close(done)
				})
			}
			switch kind {
			case "handler", "handler of a request":
				c.hook = func(noise.HandlerContext) { closeIt() }
			case "connected", "connected outbound":
				c.protocol.OnPeerConnected = func(*noise.Client) { closeIt() }
			case "disconnected":
				c.protocol.OnPeerDisconnected = func(*noise.Client) { closeIt() }
			case "received":
				c.protocol.OnMessageRecv = func(*noise.Client) { closeIt() }
			case "sent":
				c.protocol.OnMessageSent = func(*noise.Client) { closeIt() }
			default:
				c.protocol.OnPingFailed = func(string, error) { closeIt() }
			}
			t.Stage("closing a node in its callback: " + kind)
			switch kind {
			case "connected outbound":
				s := newStation(t)
				c.stations = append(c.stations, s)
				go c.n.Ping(bg, s.addr())
			case "ping failed":
				go c.n.Ping(bg, fmt.Sprintf("127.0.0.1:%d", t.Port()))
			default:
				l, err := c.dialed(t)
				if err != nil {
					if kind == "connected" {
						break
					}
					t.Inconclusive("%v", err)
					break
				}
				switch kind {
				case "handler", "received":
					l.Send(wire.Msg{Data: []byte("x")})
				case "handler of a request", "sent":
					l.Send(wire.Msg{Nonce: 1, Data: []byte("x")})
				case "disconnected":
					l.Close()
				}
			}
			if !t.Done(core.Long, done) {
				t.Violation("close-hang", "Close does not return when it is called by a callback (%s)\n%s", kind, core.LibDump(20))
				return
			}
			c.ended(t, "closed by a callback: "+kind)
			t.Case("calls/%s/%d", kind, round)
			t.RunCleanups()
		}
	}
}

// c12starting closes nodes that could not be started, or are about to be.
func c12starting(t *core.T) {
	t.Require("nodes closed", 40)
	check := func(what string, n *noise.Node, port uint16) {
		t.Stage("closing a node that " + what)
		if !t.Do(core.Long, func() { n.Close() }) {
			t.Violation("close-hang", "Close does not return (%s)\n%s", what, core.LibDump(20))
			return
		}
		c := &c12node{n: n}
		c.ended(t, what)
		if port != 0 {
			l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
			if err != nil {
				t.Violation("port", "the port of a closed node is still taken (%s): %v", what, err)
			} else {
				l.Close()
			}
		}
	}
	node := func(o ...opt) *noise.Node {
		n, err := noise.NewNode(o...)
		if err != nil {
			panic(err)
		}
		return n
	}
	for round := 0; round < t.N(6, 80); round++ {
		t.PerturbRound(round)
		rng := t.RNG("starting", round)
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", t.Port()))
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		n := node(noise.WithNodeBindPort(uint16(portOf(l.Addr().String()))))
		if n.Listen() == nil {
			t.Inconclusive("listening on a taken port succeeded")
		}
		check("could not start on a taken port", n, 0)
		l.Close()

		p := t.Port()
		n = node(noise.WithNodeBindPort(p))
		n.Bind(noise.Protocol{Bind: func(*noise.Node) error { return errors.New("no") }})
		n.Listen()
		check("could not start for a protocol", n, p)

		p = t.Port()
		n = node(noise.WithNodeBindPort(p), noise.WithNodeAddress("nowhere:999999"))
		n.Listen()
		check("could not start for its address", n, p)

		p = t.Port()
		n = node(noise.WithNodeBindPort(p))
		n.Bind(noise.Protocol{Bind: func(n *noise.Node) error { n.Close(); return nil }})
		var ok bool
		if !t.Do(core.Long, func() { ok = n.Listen() == nil }) {
			t.Violation("close-hang", "Listen does not return when the node is closed by a protocol\n%s", core.LibDump(20))
			return
		}
		if ok {
			t.Note("listening succeeded although the node was closed meanwhile")
		}
		check("was closed by one of its protocols", n, p)

		p = t.Port()
		n = node(noise.WithNodeBindPort(p))
		n.Close()
		var lerr error
		if !t.Do(core.Long, func() { lerr = n.Listen() }) {
			t.Violation("listen-hang", "listening on a closed node does not return")
		} else if lerr == nil {
			t.Violation("revived", "a closed node can be started")
		}
		check("was closed before it was started", n, p)

		for i := 0; i < 4; i++ {
			p = t.Port()
			n = node(noise.WithNodeBindPort(p))
			d := time.Duration(rng.Intn(400)) * time.Microsecond
			n.Bind(noise.Protocol{Bind: func(*noise.Node) error { time.Sleep(d / 2); return nil }})
			done := make(chan struct{})
			go func() { defer close(done); n.Listen() }()
			time.Sleep(d)
			t.Stage("closing a node that is being started")
			if !t.Do(core.Long, func() { n.Close() }) || !t.Done(core.Long, done) {
				t.Violation("close-hang", "Close or Listen does not return when both are called at once\n%s", core.LibDump(20))
				return
			}
			check("was closed while it was started", n, p)
			t.Case("starting/race/%d/%d", round, i)
		}
		t.Case("starting/%d", round)
		t.RunCleanups()
	}
}

// c12traffic closes nodes under full load at random moments.
func c12traffic(t *core.T) {
	t.Require("nodes closed", 20)
	for round := 0; round < t.N(24, 300); round++ {
		t.PerturbRound(round)
		rng := t.RNG("traffic", round)
		c, err := newC12(t, true, noise.WithNodeNumWorkers(uint(1+rng.Intn(4))), noise.WithNodeMaxInboundConnections(uint(3+rng.Intn(6))), noise.WithNodeMaxOutboundConnections(8))
		if err != nil {
			t.Inconclusive("%v", err)
			continue
		}
		addr := loop(c.n)
		var st []*station
		for i := 0; i < 4; i++ {
			st = append(st, newStation(t))
		}
		c.stations = st
		var closed atomic.Bool
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < 4; g++ {
			wg.Add(2)
			go func() { // operations of the node
				defer wg.Done()
				rng := t.RNG("op", round*10+g)
				for j := 0; ; j++ {
					select {
					case <-stop:
						return
					default:
					}
					was := closed.Load()
					if op, err := operate(c.n, bg, st[rng.Intn(4)].addr(), rng, 'e', uint32(g), uint32(j)); was && err == nil {
						t.Violation("later-succeeds", "a %s on a closed node succeeded", op)
					}
				}
			}()
			go func() { // peers of it
				defer wg.Done()
				for j := 0; ; j++ {
					select {
					case <-stop:
						return
					default:
					}
					was := closed.Load()
					w, err := wire.Dial(addr, wire.NewIdentity(uint16(4000+g)), &wire.Options{Timeout: core.Long})
					if err != nil {
						time.Sleep(time.Millisecond)
						continue
					}
					if was {
						t.Violation("accepts", "a closed node served a connection")
					}
					l := alive(w)
					mu.Lock()
					c.peers = append(c.peers, l)
					mu.Unlock()
					for i := 0; i < 20; i++ {
						if l.Send(wire.Msg{Nonce: uint64(i), Data: payload('e', 0, uint32(i), 100)}) != nil {
							break
						}
					}
				}
			}()
		}
		time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
		t.Stage("closing a node under load")
		done := make(chan struct{})
		go func() {
			defer close(done)
			par(1+rng.Intn(3), func(int) { c.n.Close(); closed.Store(true) })
		}()
		if !t.Done(core.Long, done) {
			t.Violation("close-hang", "Close does not return under load\n%s", core.LibDump(30))
			return
		}
		time.Sleep(2 * time.Millisecond)
		close(stop)
		wd := make(chan struct{})
		go func() { wg.Wait(); close(wd) }()
		if !t.Done(core.Long, wd) {
			t.Violation("pending", "operations do not return after their node was closed\n%s", core.LibDump(30))
			return
		}
		c.ended(t, "under load")
		t.Case("traffic/%d", round)
		for _, l := range c.peers {
			l.Close()
		}
		t.RunCleanups()
	}
}
