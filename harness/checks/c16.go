package checks

import (
	"bytes"
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:   "C16",
		Rule: "one case per connection that was idle, or active, for several timeouts; distinct by scenario, kind of idleness or traffic, direction, interval and round; non-trivial: the timeout would have passed more than once",
		Assumptions: []string{
			"'within a bounded multiple' is judged as eight timeouts and five seconds",
			"rounds during which the harness itself was stalled for longer than a quarter of the timeout say nothing about active connections, and are repeated",
		},
		Scenarios: []core.Scenario{
			{Name: "reap", Run: c16reap},
			{Name: "handshake", Run: c16handshake},
			{Name: "active", Run: c16active},
			{Name: "disabled", Run: c16disabled},
		},
	})
}

// stalls measures for how long goroutines of this process were not run.
type stalls struct {
	stop chan struct{}
	done chan struct{}
	max  atomic.Int64
}

func newStalls() *stalls {
	s := &stalls{stop: make(chan struct{}), done: make(chan struct{})}
	go func() {
		defer close(s.done)
		last := time.Now()
		for {
			select {
			case <-s.stop:
				return
			case <-time.After(5 * time.Millisecond):
			}
			now := time.Now()
			if d := int64(now.Sub(last)); d > s.max.Load() {
				s.max.Store(d)
			}
			last = now
		}
	}()
	return s
}

func (s *stalls) end() time.Duration {
	close(s.stop)
	<-s.done
	return time.Duration(s.max.Load())
}

func c16limit(timeout time.Duration) time.Duration { return 8*timeout + 5*time.Second }

// clientOf waits for the client of a peer on a monitored node.
func clientOf(t *core.T, m *mon, pub [32]byte) (c *noise.Client) {
	t.Await(core.Long, func() bool {
		for _, e := range m.events() {
			if e.kind == "connected" && [32]byte(e.id.ID) == pub {
				c = e.c
			}
		}
		return c != nil
	})
	return
}

// c16reap: connections that completed the handshake become idle.
func c16reap(t *core.T) {
	t.Require("idle connections", 30)
	kinds := []string{"idle", "after traffic", "after sending", "after receiving", "half a header", "half a message", "not reading", "not reading, several senders", "sending, not reading"}
	for round := 0; round < t.N(2, 20); round++ {
		t.PerturbRound(round)
		timeout := time.Duration(t.Rand.Intn(5)+3) * 100 * time.Millisecond
		m := newMon()
		var mu sync.Mutex
		ctxs := map[[32]byte]noise.HandlerContext{}
		n := mk(t, func(n *noise.Node) {
			n.Bind(m.protocol())
			n.Handle(func(ctx noise.HandlerContext) error {
				mu.Lock()
				if _, ok := ctxs[[32]byte(ctx.ID().ID)]; !ok || !ctx.IsRequest() {
					ctxs[[32]byte(ctx.ID().ID)] = ctx
				}
				mu.Unlock()
				return echo(ctx)
			})
		}, noise.WithNodeIdleTimeout(timeout))
		var idle []*idling
		for _, kind := range kinds {
			for _, outbound := range []bool{false, true} {
				x := &idling{kind: kind, outbound: outbound}
				var err error
				if x.w, _, err = peerOf(t, n, outbound); err != nil {
					t.Inconclusive("connecting: %v", err)
					continue
				}
				if x.c = clientOf(t, m, x.w.Self.Pub()); x.c == nil {
					t.Inconclusive("no connected callback")
					continue
				}
				idle = append(idle, x)
			}
		}
		t.Cleanup(func() {
			for _, x := range idle {
				x.w.Close()
			}
		})
		par(len(idle), func(i int) { idle[i].run(t, timeout, t.RNG("reap", round*100+i), &mu, ctxs) })
		for i, x := range idle {
			if listed(n, x.c) {
				t.Violation("listed", "a connection that was reaped is still listed (%s, timeout %v)", x.what(), timeout)
			}
			t.Count("idle connections", 1)
			t.Case("reap/%s/%v/%v/%d/%d", x.kind, x.outbound, timeout, i, round)
		}
		// Two nodes: the timeouts of both, or that of one only.
		for i := 0; i < 3; i++ {
			var o [2][]opt
			if i != 0 {
				o[0] = opts(noise.WithNodeIdleTimeout(timeout))
			}
			if i != 1 {
				o[1] = opts(noise.WithNodeIdleTimeout(timeout))
			}
			a, b := mk(t, func(n *noise.Node) { n.Handle(echo) }, o[0]...), mk(t, func(n *noise.Node) { n.Handle(echo) }, o[1]...)
			ctx, cancel := ctxT(core.Long)
			if _, err := a.Request(ctx, loop(b), []byte("hello")); err != nil {
				t.Inconclusive("request: %v", err)
			}
			cancel()
			cs := append(a.Outbound(), b.Inbound()...)
			for _, c := range cs {
				if !t.Do(c16limit(timeout), c.WaitUntilClosed) {
					t.Violation("not-reaped", "an idle connection between two nodes is still open after %v (timeouts: %v of the dialer, %v of the other)", c16limit(timeout), i != 0, i != 1)
				} else if c.Error() == nil {
					t.Violation("no-error", "an idle connection was closed, but has no error")
				}
				t.Count("idle connections", 1)
				t.Case("pair/%d/%d", i, round)
			}
			if !t.Await(core.Long, func() bool { return len(a.Outbound())+len(b.Inbound()) == 0 }) {
				t.Violation("listed", "an idle connection between two nodes was closed, but is still listed")
			}
			// The peer is reached again.
			ctx, cancel = ctxT(core.Long)
			if _, err := a.Request(ctx, loop(b), []byte("hello")); err != nil {
				t.Violation("unreachable", "after an idle connection was closed, a request to the same peer fails: %v", err)
			}
			cancel()
		}
		t.RunCleanups()
	}
}

type idling struct {
	kind     string
	outbound bool
	w        *wire.Conn
	c        *noise.Client
}

func (x *idling) what() string {
	return fmt.Sprintf("%s, %s", x.kind, map[bool]string{false: "inbound", true: "outbound"}[x.outbound])
}

func (x *idling) run(t *core.T, timeout time.Duration, rng *mrand.Rand, mu *sync.Mutex, ctxs map[[32]byte]noise.HandlerContext) {
	stop := make(chan struct{})
	defer close(stop)
	say := func() bool {
		if err := x.w.Send(wire.Msg{Data: []byte("note")}); err != nil {
			return false
		}
		return true
	}
	ctxOf := func() (ctx noise.HandlerContext, ok bool) {
		say()
		t.Await(core.Long, func() bool {
			mu.Lock()
			defer mu.Unlock()
			ctx, ok = ctxs[x.w.Self.Pub()]
			return ok
		})
		return
	}
	switch x.kind {
	case "after traffic":
		for i := 0; i < 3; i++ {
			x.w.SetDeadline(time.Now().Add(core.Long))
			if _, err := x.w.Call(uint64(1+i), []byte("request"), nil); err != nil {
				break // reaped meanwhile, if the machine is slow
			}
			time.Sleep(time.Duration(rng.Int63n(int64(timeout / 4))))
		}
		x.w.SetDeadline(time.Time{})
	case "after sending":
		for i := 0; i < 4 && say(); i++ {
			time.Sleep(time.Duration(rng.Int63n(int64(timeout / 4))))
		}
	case "after receiving":
		if ctx, ok := ctxOf(); ok {
			for i := 0; i < 4; i++ {
				ctx.Send([]byte("news"))
				time.Sleep(time.Duration(rng.Int63n(int64(timeout / 4))))
			}
		}
	case "half a header":
		x.w.Conn.Write([]byte{0, 0})
	case "half a message":
		rec := wire.Frame(x.w.Seal(wire.Encode(wire.Msg{Data: make([]byte, 3000)})))
		x.w.Conn.Write(rec[:4+rng.Intn(len(rec)-5)])
	case "not reading", "not reading, several senders", "sending, not reading":
		ctx, ok := ctxOf()
		k := 1
		if x.kind == "not reading, several senders" {
			k = 3
		}
		if x.kind == "sending, not reading" {
			go func() {
				for say() {
					select {
					case <-stop:
						return
					case <-time.After(timeout / 4):
					}
				}
			}()
		}
		for i := 0; ok && i < k; i++ {
			go func() {
				data := make([]byte, 256<<10)
				for j := 0; j < 96/k; j++ { // more than buffers hold
					select {
					case <-stop:
						return
					default:
					}
					if ctx.Send(data) != nil {
						return
					}
					time.Sleep(time.Millisecond)
				}
			}()
		}
	}
	start := time.Now()
	if !t.Do(c16limit(timeout), x.c.WaitUntilClosed) {
		t.Violation("not-reaped", "a connection without traffic is still open after %v, with a timeout of %v (%s)", time.Since(start).Round(time.Millisecond), timeout, x.what())
		return
	}
	if x.c.Error() == nil {
		t.Violation("no-error", "a connection without traffic was closed, but has no error (%s)", x.what())
	}
	if _, closed := closedByPeer(t, x.w.Conn); !closed {
		t.Violation("other-end", "a connection without traffic is over, but its other end is not closed (%s)", x.what())
	}
}

// c16handshake: the remote side stalls in the handshake.
func c16handshake(t *core.T) {
	t.Require("stalled handshakes", 12)
	for round := 0; round < t.N(2, 20); round++ {
		t.PerturbRound(round)
		timeout := time.Duration(t.Rand.Intn(5)+3) * 100 * time.Millisecond
		m := newMon()
		n := mk(t, func(n *noise.Node) { n.Bind(m.protocol()); n.Handle(echo) },
			noise.WithNodeIdleTimeout(timeout), noise.WithNodeMaxDialAttempts(1))
		addr := loop(n)
		par(12, func(i int) {
			stop := i % 6 // 0: silent; 1: hello sent; 2: hello read; 3: id sent, not read; 4: half a hello; 5: half an id
			defer func() {
				t.Count("stalled handshakes", 1)
				t.Case("handshake/%d/%v/%d", stop, i >= 6, round)
			}()
			stall := func(nc net.Conn) {
				switch stop {
				case 0:
				case 4:
					nc.Write([]byte{0, 0, 0, 96, 1, 2, 3})
				case 5:
					c, err := wire.Handshake(nc, wire.NewIdentity(4206), &wire.Options{Stop: 2, Timeout: core.Long})
					if err != wire.ErrStopped {
						t.Inconclusive("handshake: %v", err)
					}
					c.Conn.Write([]byte{0, 0, 0, 100, 7, 7, 7, 7, 7})
				default:
					wire.Handshake(nc, wire.NewIdentity(4206), &wire.Options{Stop: stop, Timeout: core.Long})
				}
			}
			if i < 6 {
				nc, err := net.Dial("tcp", addr)
				if err != nil {
					t.Inconclusive("dial: %v", err)
					return
				}
				defer nc.Close()
				stall(nc)
				start := time.Now()
				closed := make(chan bool, 1)
				go func() {
					_, c := closedByPeer(t, nc)
					closed <- c
				}()
				select {
				case c := <-closed:
					if !c || time.Since(start) > c16limit(timeout) {
						t.Violation("not-reaped", "the remote side stalls in the handshake (stage %d, inbound), but the connection is still open after %v, with a timeout of %v", stop, time.Since(start), timeout)
					}
				case <-time.After(2 * core.Long):
				}
				return
			}
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
			if err != nil {
				t.Inconclusive("listen: %v", err)
				return
			}
			defer l.Close()
			conns := make(chan net.Conn, 8)
			go func() {
				for {
					nc, err := l.Accept()
					if err != nil {
						return
					}
					conns <- nc
					go stall(nc)
				}
			}()
			start := time.Now()
			var cl *noise.Client
			var perr error
			if !t.Do(c16limit(timeout), func() { cl, perr = n.Ping(bg, l.Addr().String()) }) {
				t.Violation("not-reaped", "the remote side stalls in the handshake (stage %d, outbound), and an operation is still waiting after %v, with a timeout of %v", stop, time.Since(start), timeout)
				return
			}
			if stop != 3 && perr == nil {
				t.Violation("no-error", "the remote side stalls in the handshake (stage %d), but the operation succeeded", stop)
			}
			if perr == nil && !t.Do(c16limit(timeout), cl.WaitUntilClosed) {
				t.Violation("not-reaped", "a connection without traffic is still open (stage %d, outbound), with a timeout of %v", stop, timeout)
			}
			select {
			case nc := <-conns:
				if _, closed := closedByPeer(t, nc); !closed {
					t.Violation("other-end", "a stalled connection is over (stage %d, outbound), but its other end is not closed", stop)
				}
				nc.Close()
			default:
			}
		})
		if !t.Await(core.Long, func() bool { return len(n.Inbound())+len(n.Outbound()) == 0 }) {
			t.Violation("listed", "connections that stalled in the handshake are still listed: %d inbound, %d outbound", len(n.Inbound()), len(n.Outbound()))
		}
		t.RunCleanups()
	}
}

// flow is one active connection and its ledger.
type flow struct {
	kind  string
	size  int
	sent  []int // numbers of messages sent, in either direction
	got   [2]map[uint32]int
	mu    sync.Mutex
	err   error
	fails []string
}

func (f *flow) take(dir int, data []byte) {
	p, err := parse(data)
	f.mu.Lock()
	defer f.mu.Unlock()
	if err != nil {
		f.fails = append(f.fails, err.Error())
		return
	}
	f.got[dir][p.b]++
}

// c16active: traffic in one direction or the other keeps a connection open.
func c16active(t *core.T) {
	t.Require("active connections", 30)
	t.Require("messages on active connections", 600)
	rounds, tries := t.N(2, 12), 0
	for round := 0; round < rounds && tries < 3*rounds; tries++ {
		t.Perturb(round % 3)
		timeout := 1200 * time.Millisecond
		interval, over := timeout/5, 6*timeout
		slack := timeout / 4
		if round%2 == 1 {
			timeout = 2 * time.Second
			interval, over = timeout/2, 4*timeout
		}
		w := newStalls()
		violations := c16flows(t, round, timeout, interval, over)
		if max := w.end(); max > slack {
			t.Note("round given up: stalled for %v", max)
			t.RunCleanups()
			continue
		}
		for _, v := range violations {
			t.Violation("reaped", "%s", v)
		}
		round++
		t.RunCleanups()
	}
}

func c16flows(t *core.T, round int, timeout, interval, over time.Duration) (violations []string) {
	var vmu sync.Mutex
	bad := func(format string, args ...any) {
		vmu.Lock()
		violations = append(violations, fmt.Sprintf(format, args...))
		vmu.Unlock()
	}
	type src struct {
		name string
		in   bool // remote to node
		out  bool // node to remote
		req  bool
		size int
		slow bool // the node's handler is slower than the timeout
	}
	srcs := []src{
		{name: "to the node", in: true, size: 40},
		{name: "from the node", out: true, size: 40},
		{name: "both ways", in: true, out: true, size: 40},
		{name: "requests of the remote side", in: true, req: true, size: 40},
		{name: "requests of the node", out: true, req: true, size: 40},
		{name: "large, to the node", in: true, size: 150000},
		{name: "large, from the node", out: true, size: 150000},
		{name: "to the node, whose handler is slow", in: true, size: 30, slow: true},
	}
	count := int(over / interval)
	var wg sync.WaitGroup
	for si, s := range srcs {
		for peer := 0; peer < 4; peer++ { // 0,1: reference peer, inbound or outbound; 2,3: another node with a timeout (2: dialing; 3: dialed)
			if s.slow && peer >= 2 {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				what := fmt.Sprintf("traffic %s every %v, timeout %v, %s", s.name, interval, timeout,
					[]string{"inbound from a reference peer", "outbound to a reference peer", "inbound from a node", "outbound to a node"}[peer])
				var fromRemote, fromNode atomic.Int64 // arrived intact
				m := newMon()
				arrived := make([]atomic.Int64, count)
				var slept atomic.Bool
				kept := make(chan noise.HandlerContext, 2) // of a message over the connection, to send messages back
				n := mk(t, func(n *noise.Node) {
					n.Bind(m.protocol())
					n.Handle(func(ctx noise.HandlerContext) error {
						p, err := parse(ctx.Data())
						if err != nil {
							bad("%s: %v", what, err)
							return nil
						}
						if p.tag == 'k' {
							kept <- ctx
							return nil
						}
						if p.tag == 'i' {
							arrived[p.b].Add(1)
							fromRemote.Add(1)
						}
						if s.slow && p.b == 2 && slept.CompareAndSwap(false, true) {
							time.Sleep(2 * timeout)
						}
						return echo(ctx)
					})
				}, noise.WithNodeIdleTimeout(timeout), noise.WithNodeNumWorkers(map[bool]uint{true: 1, false: 4}[s.slow]))
				back := make([]atomic.Int64, count)
				recv := func(data []byte) {
					p, err := parse(data)
					if err != nil {
						bad("%s: %v", what, err)
						return
					}
					if p.tag == 'o' {
						back[p.b].Add(1)
						fromNode.Add(1)
					}
				}
				var sendIn, sendOut func(i int) error
				var cl *noise.Client
				in := func(i int) []byte { return payload('i', uint32(si), uint32(i), s.size) }
				out := func(i int) []byte { return payload('o', uint32(si), uint32(i), s.size) }
				nodeReq := func(n *noise.Node, addr string, data []byte) error {
					ctx, cancel := ctxT(core.Long)
					defer cancel()
					res, err := n.Request(ctx, addr, data)
					if err == nil && !bytes.Equal(res, echoOf(data)) {
						return fmt.Errorf("wrong response")
					}
					return err
				}
				switch peer {
				case 0, 1:
					if s.out && peer == 0 && s.req {
						return // a node cannot make requests over an inbound connection
					}
					st := newStation(t)
					var w *wire.Conn
					var err error
					if peer == 0 {
						w, err = wire.Dial(loop(n), wire.NewIdentity(4207), &wire.Options{Timeout: core.Long})
						if err != nil {
							t.Inconclusive("connecting: %v", err)
							return
						}
						t.Cleanup(func() { w.Close() })
					} else {
						l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
						if err != nil {
							t.Inconclusive("listen: %v", err)
							return
						}
						defer l.Close()
						ch := make(chan *wire.Conn, 1)
						go func() {
							nc, err := l.Accept()
							if err != nil {
								return
							}
							c, err := wire.Handshake(nc, st.id, &wire.Options{Timeout: core.Long})
							if err == nil {
								ch <- c
							}
						}()
						ctx, cancel := ctxT(core.Long)
						defer cancel()
						if _, err := n.Ping(ctx, l.Addr().String()); err != nil {
							t.Inconclusive("ping: %v", err)
							return
						}
						w = <-ch
						t.Cleanup(func() { w.Close() })
						addr := l.Addr().String()
						sendOut = func(i int) error {
							if s.req {
								return nodeReq(n, addr, out(i))
							}
							return n.Send(bg, addr, out(i))
						}
					}
					if cl = clientOf(t, m, w.Self.Pub()); cl == nil {
						return
					}
					if peer == 0 && s.out {
						w.Send(wire.Msg{Data: payload('k', 0, 0, 0)})
						back := <-kept
						sendOut = func(i int) error { return back.Send(out(i)) }
					}
					resp := make(chan []byte, count+1)
					go func() {
						for {
							msg, err := w.Recv()
							if err != nil {
								return
							}
							if msg.Nonce > 1<<40 {
								resp <- msg.Data
								continue
							}
							recv(msg.Data)
							if msg.Nonce > 0 {
								w.Send(wire.Msg{Nonce: msg.Nonce, Data: echoOf(msg.Data)})
							}
						}
					}()
					sendIn = func(i int) error {
						if !s.req {
							return w.Send(wire.Msg{Data: in(i)})
						}
						if err := w.Send(wire.Msg{Nonce: 1<<40 + 1 + uint64(i), Data: in(i)}); err != nil {
							return err
						}
						select {
						case r := <-resp:
							if !bytes.Equal(r, echoOf(in(i))) {
								return fmt.Errorf("wrong response")
							}
							return nil
						case <-time.After(core.Long):
							return fmt.Errorf("no response")
						}
					}
				default:
					other := mk(t, func(o *noise.Node) {
						o.Handle(func(ctx noise.HandlerContext) error {
							if p, err := parse(ctx.Data()); err == nil && p.tag == 'k' {
								kept <- ctx
								return nil
							}
							recv(ctx.Data())
							return echo(ctx)
						})
					}, noise.WithNodeIdleTimeout(timeout))
					a, b := other, n // a dials
					if peer == 3 {
						a, b = n, other
					}
					ctx, cancel := ctxT(core.Long)
					defer cancel()
					if _, err := a.Ping(ctx, loop(b)); err != nil {
						t.Inconclusive("ping: %v", err)
						return
					}
					if cl = clientOf(t, m, [32]byte(other.ID().ID)); cl == nil {
						return
					}
					via := func(from, to *noise.Node, data []byte) error {
						if s.req {
							return nodeReq(from, loop(to), data)
						}
						return from.Send(bg, loop(to), data)
					}
					// The dialed side sends over the connection of a message it once got.
					if (s.in && peer == 3 || s.out && peer == 2) && s.req {
						return
					}
					if err := a.Send(ctx, loop(b), payload('k', 0, 0, 0)); err != nil {
						t.Inconclusive("send: %v", err)
						return
					}
					back := <-kept
					sendBack := func(data []byte) error { return back.Send(data) }
					sendIn = func(i int) error { return via(other, n, in(i)) }
					sendOut = func(i int) error { return sendBack(out(i)) }
					if peer == 3 {
						sendIn = func(i int) error { return sendBack(in(i)) }
						sendOut = func(i int) error { return via(n, other, out(i)) }
					}
				}
				start := time.Now()
				for i := 0; i < count; i++ {
					time.Sleep(time.Until(start.Add(time.Duration(i) * interval)))
					if s.in {
						if err := sendIn(i); err != nil {
							bad("%s: message %d could not be sent: %v (the node's error: %v)", what, i, err, cl.Error())
							return
						}
					}
					if s.out {
						if err := sendOut(i); err != nil {
							bad("%s: message %d could not be sent: %v (the node's error: %v)", what, i, err, cl.Error())
							return
						}
					}
					t.Count("messages on active connections", 1)
				}
				want := func(on bool) int64 {
					if on {
						return int64(count)
					}
					return 0
				}
				if !t.Await(core.Long, func() bool { return fromRemote.Load() >= want(s.in) && fromNode.Load() >= want(s.out) }) {
					bad("%s: %d of %d messages to the node arrived, %d of %d from it (its error: %v)", what, fromRemote.Load(), want(s.in), fromNode.Load(), want(s.out), cl.Error())
				}
				for i := 0; i < count; i++ {
					if arrived[i].Load() > 1 || back[i].Load() > 1 {
						bad("%s: message %d arrived several times", what, i)
					}
				}
				if err := cl.Error(); err != nil || !listed(n, cl) {
					bad("%s: the connection was closed: %v", what, err)
				}
				t.Count("active connections", 1)
				t.Case("active/%s/%d/%d", s.name, peer, round)
			}()
		}
	}
	wg.Wait()
	return violations
}

// c16disabled: without a timeout, idle connections stay open.
func c16disabled(t *core.T) {
	t.Require("connections idle without a timeout", 8)
	var lists []opt
	lists = append(lists, nil, noise.WithNodeIdleTimeout(0))
	rng := t.RNG("disabled", 0)
	type conn struct {
		n *noise.Node
		l *live
	}
	var cs []conn
	var pairs [][2]*noise.Node
	for _, o := range lists {
		var ol []opt
		if o != nil {
			ol = opts(o)
		}
		n := mk(t, func(n *noise.Node) { n.Handle(echo) }, ol...)
		for i := 0; i < 4; i++ {
			c, _, err := peerOf(t, n, i%2 == 1)
			if err != nil {
				t.Inconclusive("connecting: %v", err)
				continue
			}
			cs = append(cs, conn{n, alive(c)})
			if i >= 2 {
				c.Send(wire.Msg{Data: []byte("note")})
			}
		}
		b := mk(t, func(n *noise.Node) { n.Handle(echo) }, ol...)
		ctx, cancel := ctxT(core.Long)
		if _, err := n.Ping(ctx, loop(b)); err != nil {
			t.Inconclusive("ping: %v", err)
		}
		cancel()
		pairs = append(pairs, [2]*noise.Node{n, b})
	}
	before := make([]*noise.Client, len(pairs))
	for i, p := range pairs {
		for _, c := range p[0].Outbound() {
			if c.ID().ID == p[1].ID().ID {
				before[i] = c
			}
		}
	}
	time.Sleep(time.Duration(t.N(6, 60)) * time.Second)
	for i, c := range cs {
		if !c.l.served(t) {
			t.Violation("reaped-disabled", "a connection that was idle is closed or not served, although there is no timeout")
		}
		t.Count("connections idle without a timeout", 1)
		t.Case("disabled/%d", i)
		c.l.Close()
	}
	for i, p := range pairs {
		if before[i] == nil {
			continue
		}
		req := payload('d', rng.Uint32(), 0, 30)
		ctx, cancel := ctxT(core.Long)
		res, err := p[0].Request(ctx, loop(p[1]), req)
		cancel()
		if err != nil || !bytes.Equal(res, echoOf(req)) {
			t.Violation("reaped-disabled", "a request over an idle connection between two nodes without a timeout failed: %v", err)
		}
		if before[i].Error() != nil || !listed(p[0], before[i]) {
			t.Violation("reaped-disabled", "an idle connection between two nodes without a timeout was closed: %v", before[i].Error())
		}
		t.Count("connections idle without a timeout", 1)
		t.Case("disabled pair/%d", i)
	}
}
