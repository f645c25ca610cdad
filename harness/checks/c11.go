package checks

import (
	"context"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C11",
		Rule:        "one case per burst of concurrent operations, per settled state compared, and per peer that came back; distinct by scenario, what had happened before, and round; non-trivial: the operations were concurrent, or connections had ended",
		Assumptions: []string{"a state has settled once neither the pool nor the peers' view of it changes any more"},
		Scenarios: []core.Scenario{
			{Name: "sharing", Run: c11sharing},
			{Name: "reality", Run: c11reality},
			{Name: "replaced", Run: c11replaced},
			{Name: "restart", Run: c11restart},
			{Name: "sourceport", Run: c11sourceport},
		},
	})
}

// c11sharing: concurrent operations from a cold pool, and after the connection has ended.
func c11sharing(t *core.T) {
	t.Require("bursts", 100)
	for round := 0; round < t.N(40, 500); round++ {
		t.PerturbRound(round)
		a := mk(t, func(n *noise.Node) { n.Handle(echo) })
		s := newStation(t)
		ctx, cancel := ctxT(core.Long)
		for burst := 1; burst <= 3; burst++ {
			var mu sync.Mutex
			cs := map[*noise.Client]bool{}
			par(12, func(i int) {
				rng := t.RNG("burst", round*100+burst*20+i)
				for j := 0; j < 3; j++ {
					if i%3 == 0 {
						c, err := a.Ping(ctx, s.addr())
						if err != nil {
							t.Violation("failed", "a ping among concurrent ones failed: %v", err)
							return
						}
						mu.Lock()
						cs[c] = true
						mu.Unlock()
					} else if op, err := operate(a, ctx, s.addr(), rng, 'e', uint32(i), uint32(j)); err != nil {
						t.Violation("failed", "a %s among concurrent ones failed: %v", op, err)
						return
					}
				}
			})
			if len(cs) != 1 {
				t.Violation("several", "concurrent pings returned %d different connections", len(cs))
			}
			if n := len(s.conns()); n != burst {
				t.Violation("several", "%d connections were made by concurrent operations where one is enough (burst %d)", n-burst+1, burst)
			}
			if l := a.Outbound(); len(l) != 1 || !cs[l[0]] {
				t.Violation("pool", "the pool lists %d connections after concurrent operations on one", len(l))
			}
			t.Count("bursts", 1)
			t.Case("sharing/%d/%d", round, burst)
			var c *noise.Client
			for c = range cs {
			}
			switch (round + burst) % 3 {
			case 0:
				c.Close()
			case 1:
				s.conns()[len(s.conns())-1].Close()
			default:
				for _, x := range s.conns() {
					x.Conn.Conn.(*net.TCPConn).SetLinger(0)
					x.Close()
				}
			}
			if (round+burst)%3 != 0 || round%2 == 0 {
				c.WaitUntilClosed()
			}
			if burst == 3 && len(s.conns()) != 3 {
				break
			}
		}
		cancel()
		t.RunCleanups()
	}
}

// c11reality: connections come and go in many ways; then the pool is compared with what is open.
func c11reality(t *core.T) {
	t.Require("settled states", 60)
	for round := 0; round < t.N(8, 100); round++ {
		t.PerturbRound(round)
		a := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				if string(ctx.Data()) == "fail" {
					return fmt.Errorf("refused")
				}
				return echo(ctx)
			})
		}, noise.WithNodeMaxDialAttempts(1))
		var st []*station
		for i := 0; i < 5; i++ {
			st = append(st, newStation(t))
		}
		mute, err := silent(t, 1)
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		dead := fmt.Sprintf("127.0.0.1:%d", t.Port())
		var mu sync.Mutex
		in := map[[32]byte]*live{}
		var port atomic.Int32
		for step := 0; step < 10; step++ {
			par(6, func(g int) {
				rng := t.RNG("step", round*1000+step*10+g)
				for i := 0; i < 5; i++ {
					ctx, cancel := ctxT(core.Long)
					switch rng.Intn(10) {
					case 0, 1, 2:
						a.Ping(ctx, st[rng.Intn(len(st))].addr())
					case 3: // fails in the handshake
						c, cc := context.WithTimeout(ctx, time.Duration(rng.Intn(10))*time.Millisecond)
						a.Ping(c, mute)
						cc()
					case 4:
						a.Ping(ctx, dead)
					case 5, 6:
						id := wire.NewIdentity(uint16(1000 + port.Add(1)))
						if c, err := wire.Dial(loop(a), id, &wire.Options{Timeout: core.Long}); err == nil {
							mu.Lock()
							in[id.Pub()] = alive(c)
							mu.Unlock()
						}
					case 7: // an inbound one ends
						mu.Lock()
						for _, l := range in {
							switch rng.Intn(3) {
							case 0:
								l.Close()
							case 1:
								l.Send(wire.Msg{Data: []byte("fail")})
							default:
								l.WriteRecord(make([]byte, 50))
							}
							break
						}
						mu.Unlock()
					case 8: // an outbound one ends at the peer
						if l := st[rng.Intn(len(st))].conns(); len(l) > 0 {
							l[len(l)-1].Close()
						}
					default: // or here
						l := append(a.Outbound(), a.Inbound()...)
						if len(l) > 0 {
							l[rng.Intn(len(l))].Close()
						}
					}
					cancel()
				}
			})
			// What is open, as the peers see it.
			view := func() (map[string]int, map[[32]byte]bool, int) {
				out, inb, k := map[string]int{}, map[[32]byte]bool{}, 0
				for _, s := range st {
					if n := s.open(); n > 0 {
						out[s.addr()] = n
						k += n
					}
				}
				mu.Lock()
				for id, l := range in {
					if !l.closed.Load() {
						inb[id] = true
						k++
					}
				}
				mu.Unlock()
				return out, inb, k
			}
			quiet(t, func() int { _, _, k := view(); return k*1000 + len(a.Outbound()) + len(a.Inbound()) })
			same := func() string {
				out, inb, _ := view()
				ids := map[[32]byte]string{}
				for _, s := range st {
					ids[s.id.Pub()] = s.addr()
				}
				lo, li := map[string]int{}, map[[32]byte]bool{}
				for _, c := range a.Outbound() {
					if err := c.Error(); err != nil {
						return fmt.Sprintf("an outbound connection that failed is listed (%v)", err)
					}
					lo[ids[c.ID().ID]]++
				}
				for _, c := range a.Inbound() {
					if err := c.Error(); err != nil {
						return fmt.Sprintf("an inbound connection that failed is listed (%v)", err)
					}
					if li[c.ID().ID] {
						return "an inbound connection is listed twice"
					}
					li[c.ID().ID] = true
				}
				for addr, n := range out {
					if n > 1 {
						return fmt.Sprintf("%d connections to one address are open", n)
					}
					if lo[addr] != 1 {
						return fmt.Sprintf("an open outbound connection is listed %d times", lo[addr])
					}
				}
				if len(lo) != len(out) {
					return fmt.Sprintf("%d outbound connections are listed, %d are open", len(lo), len(out))
				}
				for id := range inb {
					if !li[id] {
						return "an open inbound connection is not listed"
					}
				}
				if len(li) != len(inb) {
					return fmt.Sprintf("%d inbound connections are listed, %d are open", len(li), len(inb))
				}
				return ""
			}
			why := ""
			if !t.Await(core.Long, func() bool { why = same(); return why == "" }) {
				t.Violation("pool", "once things have settled, %s", why)
			}
			out, inb, _ := view()
			t.Count("settled states", 1)
			t.Count("open connections compared", len(out)+len(inb))
			t.Case("reality/%d/%d", round, step)
		}
		// Every peer can still be reached.
		ctx, cancel := ctxT(core.Long)
		for _, s := range st {
			n := s.open()
			before := len(s.conns())
			if _, err := a.Request(ctx, s.addr(), payload('e', 0, 0, 30)); err != nil {
				t.Violation("unreachable", "a peer that is up cannot be reached after connections came and went: %v", err)
			}
			if n == 1 && len(s.conns()) != before {
				t.Violation("several", "another connection was made although there was a live one")
			}
		}
		cancel()
		mu.Lock()
		for _, l := range in {
			l.Close()
		}
		mu.Unlock()
		t.RunCleanups()
	}
}

// c11replaced: a connection is replaced by the next one while it is still being taken down.
func c11replaced(t *core.T) {
	t.Require("replacements", 300)
	for round := 0; round < t.N(8, 100); round++ {
		t.PerturbRound(round)
		slow := round%2 == 0
		a := mk(t, func(n *noise.Node) {
			n.Bind(noise.Protocol{OnPeerDisconnected: func(*noise.Client) {
				if slow {
					time.Sleep(2 * time.Millisecond)
				}
			}})
		})
		s := newStation(t)
		ctx, cancel := ctxT(2 * core.Long)
		rng := t.RNG("replace", round)
		var old []*noise.Client
		for i := 0; i < 50; i++ {
			c, err := a.Ping(ctx, s.addr())
			if err != nil {
				t.Violation("unreachable", "connecting after the previous connection was closed failed: %v", err)
				break
			}
			old = append(old, c)
			if i == 49 {
				break
			}
			if rng.Intn(3) == 0 {
				time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
			}
			c.Close()
			t.Count("replacements", 1)
		}
		for _, c := range old[:max(len(old)-1, 0)] {
			if !t.Do(core.Long, c.WaitUntilClosed) {
				t.Violation("kept", "a closed connection never ends")
				break
			}
		}
		if len(old) == 50 {
			last := old[49]
			l := a.Outbound()
			if last.Error() == nil && (len(l) != 1 || l[0] != last) {
				t.Violation("pool", "the end of earlier connections removed the live one from the pool, which lists %d", len(l))
			}
			n := len(s.conns())
			if c, err := a.Ping(ctx, s.addr()); err != nil || c != last || len(s.conns()) != n {
				t.Violation("several", "a new connection was made although there is a live one (%v)", err)
			}
			if !t.Await(core.Long, func() bool { return s.open() == 1 }) {
				t.Violation("several", "%d connections to one address are open", s.open())
			}
		}
		cancel()
		t.Case("replaced/%d", round)
		t.RunCleanups()
	}
}

// c11restart: a peer goes away and comes back at its address.
func c11restart(t *core.T) {
	t.Require("restarts", 60)
	for round := 0; round < t.N(16, 200); round++ {
		t.PerturbRound(round)
		port := t.Port()
		_, key, err := noise.GenerateKeys(nil)
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		var b *noise.Node
		up := func() bool {
			return t.Await(core.Long, func() bool {
				o := opts(noise.WithNodeBindPort(port))
				if round%2 == 0 {
					o = append(o, noise.WithNodePrivateKey(key))
				}
				n, err := noise.NewNode(o...)
				if err != nil {
					return false
				}
				n.Handle(echo)
				if n.Listen() != nil {
					return false
				}
				b = n
				return true
			})
		}
		a := mk(t, func(n *noise.Node) { n.Handle(echo) })
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		for i := 0; i < 5; i++ {
			if !up() {
				t.Inconclusive("cannot listen on port %d again", port)
				break
			}
			ctx, cancel := ctxT(core.Long)
			var cs []*noise.Client
			par(4, func(j int) {
				req := payload('e', uint32(i), uint32(j), 30)
				if _, err := a.Request(ctx, addr, req); err != nil {
					t.Violation("unreachable", "a peer that came back at its address (time %d) cannot be reached: %v", i, err)
				}
			})
			cs = a.Outbound()
			if len(cs) != 1 || cs[0].ID().ID != b.ID().ID {
				t.Violation("pool", "the pool does not list the connection to the peer that came back")
			}
			shut(t, b)
			t.Count("restarts", 1)
			t.Case("restart/%d/%d", round, i)
			if i%2 == 0 { // operations while it is down
				for _, c := range cs {
					if !t.Do(core.Long, c.WaitUntilClosed) {
						t.Violation("kept", "a connection to a peer that was shut down never ends")
					}
				}
				c, cc := ctxT(core.Long)
				if _, err := a.Request(c, addr, []byte("x")); err == nil {
					t.Violation("made-up", "a request to a peer that is down succeeded")
				}
				cc()
				if l := a.Outbound(); len(l) != 0 {
					t.Violation("pool", "the pool lists %d connections to a peer that is down", len(l))
				}
			} else {
				t.Await(core.Long, func() bool { return len(a.Outbound()) == 0 })
			}
			cancel()
		}
		t.RunCleanups()
	}
}

// fromPort connects from a given local port.
func fromPort(port int, addr string) (net.Conn, error) {
	d := net.Dialer{
		LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port},
		Timeout:   core.Long,
		Control: func(_, _ string, c syscall.RawConn) error {
			var err error
			c.Control(func(fd uintptr) {
				err = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
			})
			return err
		},
	}
	return d.Dial("tcp", addr)
}

// c11sourceport: a peer's next connection comes from the same port as its last one.
func c11sourceport(t *core.T) {
	t.Require("connections from a known port", 100)
	for round := 0; round < t.N(6, 80); round++ {
		t.PerturbRound(round)
		gate := make(chan struct{})
		var hold atomic.Bool
		n := mk(t, func(n *noise.Node) {
			n.Bind(noise.Protocol{OnPeerDisconnected: func(*noise.Client) {
				if hold.Load() {
					<-gate
				} else if round%2 == 1 {
					time.Sleep(3 * time.Millisecond)
				}
			}})
			n.Handle(echo)
		})
		port := int(t.Port())
		var last *live
		for i := 0; i < 20; i++ {
			var nc net.Conn
			var err error
			if !t.Await(core.Long/4, func() bool { nc, err = fromPort(port, loop(n)); return err == nil }) {
				t.Inconclusive("cannot connect from port %d again: %v", port, err)
				break
			}
			hold.Store(i == 10)
			id := wire.NewIdentity(uint16(5000 + i))
			c, err := wire.Handshake(nc, id, &wire.Options{Timeout: core.Long})
			if err != nil {
				t.Violation("refused", "connection %d from a port that was used before is not served: %v", i, err)
				nc.Close()
				continue
			}
			l := alive(c)
			if !l.served(t) {
				t.Violation("refused", "connection %d from a port that was used before is not served", i)
			}
			ok := t.Await(core.Long, func() bool {
				in := n.Inbound()
				return len(in) == 1 && in[0].ID().ID == noise.PublicKey(id.Pub()) && in[0].Error() == nil
			})
			if !ok {
				t.Violation("pool", "a connection from a port that was used before is not what the pool lists (%d connections)", len(n.Inbound()))
			}
			t.Count("connections from a known port", 1)
			t.Case("sourceport/%d/%d", round, i)
			if i == 19 {
				last = l
				break
			}
			nc.(*net.TCPConn).SetLinger(0)
			nc.Close()
		}
		close(gate)
		if last != nil {
			time.Sleep(20 * time.Millisecond) // earlier ones end by now
			if !last.served(t) || len(n.Inbound()) != 1 {
				t.Violation("pool", "the end of earlier connections from its port took a live one out of the pool (%d listed)", len(n.Inbound()))
			}
			last.Close()
			if !t.Await(core.Long, func() bool { return len(n.Inbound()) == 0 }) {
				t.Violation("kept", "%d connections are listed after all were closed", len(n.Inbound()))
			}
		}
		t.RunCleanups()
	}
}
