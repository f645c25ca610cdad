package checks

import (
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C13",
		Rule:        "one case per connection that ended; distinct by scenario, stage it was in, how it ended, direction and round; non-trivial: callers were waiting for it, or something of it was still running",
		Assumptions: []string{"handlers run on the node's workers, and are not part of a connection"},
		Scenarios: []core.Scenario{
			{Name: "stages", Run: c13stages},
			{Name: "causes", Run: c13causes},
			{Name: "callbacks", Run: c13callbacks},
			{Name: "churn", Run: c13churn},
		},
	})
}

// errWatch sees to it that a connection's error never changes once there is one.
type errWatch struct {
	c     *noise.Client
	stop  chan struct{}
	done  chan struct{}
	first error
}

func sameErr(a, b error) (same bool) {
	defer func() {
		if recover() != nil { // not comparable
			same = a.Error() == b.Error()
		}
	}()
	return a == b
}

func watchErr(t *core.T, c *noise.Client) *errWatch {
	w := &errWatch{c: c, stop: make(chan struct{}), done: make(chan struct{})}
	go func() {
		defer close(w.done)
		for {
			err := c.Error()
			if w.first == nil {
				w.first = err
			} else if err == nil || !sameErr(w.first, err) {
				t.Violation("overwritten", "the error of a connection was %q, and then became %v", w.first, err)
				return
			}
			select {
			case <-w.stop:
				return
			case <-time.After(100 * time.Microsecond):
			}
		}
	}()
	return w
}

func (w *errWatch) end() error {
	close(w.stop)
	<-w.done
	return w.first
}

func listed(n *noise.Node, c *noise.Client) bool {
	for _, x := range append(n.Inbound(), n.Outbound()...) {
		if x == c {
			return true
		}
	}
	return false
}

// c13stages ends connections in every stage, in several ways.
func c13stages(t *core.T) {
	t.Require("connections ended", 150)
	hows := []string{"close", "close at once", "close twice", "node", "peer"}
	for round := 0; round < t.N(2, 20); round++ {
		for i, s := range c12all() {
			for j, how := range hows {
				if !t.Thorough && (i+j+round)%2 == 0 {
					continue
				}
				t.PerturbRound(round + i + j)
				c, err := newC12(t, s.listen, s.opts...)
				if err != nil {
					t.Inconclusive("%s: %v", s.name, err)
					continue
				}
				base := 0
				if s.listen {
					base = len(core.LibStacks())
				}
				if err := s.setup(t, c, t.RNG(s.name, round)); err != nil {
					t.Inconclusive("%s: %v", s.name, err)
				}
				cs := append(c.n.Inbound(), c.n.Outbound()...)
				if len(cs) == 0 {
					shut(t, c.n)
					for _, f := range c.release {
						f()
					}
					t.RunCleanups()
					continue
				}
				var watch []*errWatch
				var ready, closed atomic.Int64
				for _, x := range cs {
					watch = append(watch, watchErr(t, x))
					for k := 0; k < 2; k++ {
						go func() { x.WaitUntilReady(); ready.Add(1) }()
						go func() { x.WaitUntilClosed(); closed.Add(1) }()
					}
				}
				t.Stage(fmt.Sprintf("ending a connection of a node that is %s (%s)", s.name, how))
				ok := t.Do(core.Long, func() {
					switch how {
					case "close":
						for _, x := range cs {
							x.Close()
						}
					case "close at once":
						par(4*len(cs), func(i int) { cs[i%len(cs)].Close() })
					case "close twice":
						for _, x := range append(cs, cs...) {
							x.Close()
						}
					case "node":
						c.n.Close()
					default:
						for _, l := range c.peers {
							l.Close()
						}
						for _, s := range c.stations {
							for _, l := range s.conns() {
								l.Close()
							}
						}
						for _, nc := range c.conns {
							nc.Close()
						}
						for _, x := range cs { // those whose peer cannot end them
							if x.Error() == nil {
								x.Close()
							}
						}
					}
				})
				if !ok {
					t.Violation("close-hang", "closing a connection does not return (%s, %s)\n%s", s.name, how, core.LibDump(20))
				}
				if how == "node" && s.name == "trying to dial over and over" {
					for _, f := range c.release {
						f()
					}
					c.release = nil
				}
				for _, f := range c.release {
					if s.name == "trying to dial over and over" {
						break // its operation goes on
					}
					f()
				}
				if !t.Await(core.Long, func() bool { return ready.Load() == 2*int64(len(cs)) }) {
					t.Violation("ready-hang", "waiting until a connection is ready does not return after it was ended (%s, %s)\n%s", s.name, how, core.LibDump(20))
				}
				if !t.Await(core.Long, func() bool { return closed.Load() == 2*int64(len(cs)) }) {
					t.Violation("closed-hang", "waiting until a connection is closed does not return after it was ended (%s, %s)\n%s", s.name, how, core.LibDump(20))
					t.RunCleanups()
					continue
				}
				for k, x := range cs {
					if listed(c.n, x) {
						t.Violation("listed", "a connection is listed after waiting until it was closed (%s, %s)", s.name, how)
					}
					if x.Error() == nil {
						t.Violation("no-error", "a connection that has ended has no error (%s, %s)", s.name, how)
					}
					x.Close()
					first := watch[k].end()
					if err := x.Error(); first != nil && err != nil && !sameErr(first, err) {
						t.Violation("overwritten", "the error of a connection was %q, and then became %q", first, err)
					}
					if !t.Do(core.Long, func() { x.WaitUntilReady(); x.WaitUntilClosed() }) {
						t.Violation("closed-hang", "waiting for a connection that has ended does not return")
					}
					t.Count("connections ended", 1)
				}
				retries := strings.HasPrefix(s.name, "dialing") || strings.HasPrefix(s.name, "trying") || s.name == "handshaking outbound" || s.name == "in the connected callback"
				if s.listen && how != "node" && !retries {
					if !t.Await(core.Long/10, func() bool { return len(core.LibStacks()) <= base }) {
						t.Violation("goroutines", "goroutines of a connection still run after waiting until it was closed (%s, %s)\n%s", s.name, how, core.LibDump(20))
					}
				}
				t.Case("stages/%s/%s/%d", s.name, how, round)
				shut(t, c.n)
				if s.name == "trying to dial over and over" {
					for _, f := range c.release {
						f()
					}
				}
				t.RunCleanups()
			}
		}
	}
}

// c13causes: ends of a known cause.
func c13causes(t *core.T) {
	t.Require("causes compared", 80)
	errA, errB := errors.New("first refusal"), errors.New("second refusal")
	type cause struct {
		name string
		do   func(l *wire.Conn)
		is   func(err error) bool
	}
	causes := []cause{
		{"handler error", func(l *wire.Conn) { l.Send(wire.Msg{Data: []byte("fail")}) }, func(err error) bool { return errors.Is(err, errA) }},
		{"handler error of a request", func(l *wire.Conn) { l.Send(wire.Msg{Nonce: 4, Data: []byte("fail")}) }, func(err error) bool { return errors.Is(err, errA) }},
		{"too large", func(l *wire.Conn) { l.Write([]byte{0x40, 0, 0, 0}) }, func(err error) bool { return errors.Is(err, noise.ErrMessageTooLarge) }},
		{"end of stream", func(l *wire.Conn) { l.Close() }, func(err error) bool { return errors.Is(err, io.EOF) }},
		{"truncated", func(l *wire.Conn) { l.Write([]byte{0, 0, 0, 9, 1, 2}); l.Close() }, func(err error) bool { return errors.Is(err, io.ErrUnexpectedEOF) }},
		{"message too short", func(l *wire.Conn) { l.WriteRecord(l.Seal([]byte{1, 2, 3})) }, func(err error) bool { return errors.Is(err, io.ErrUnexpectedEOF) }},
		{"not authentic", func(l *wire.Conn) { l.WriteRecord(make([]byte, 60)) }, func(err error) bool { return !errors.Is(err, io.EOF) && !isClosedErr(err) }},
		{"reset", func(l *wire.Conn) { l.Conn.(*net.TCPConn).SetLinger(0); l.Close() }, func(err error) bool { return !isClosedErr(err) }},
	}
	for round := 0; round < t.N(6, 80); round++ {
		for i, cs := range causes {
			for _, outbound := range []bool{false, true} {
				t.PerturbRound(round + i)
				n := mk(t, func(n *noise.Node) {
					n.Handle(func(ctx noise.HandlerContext) error {
						switch string(ctx.Data()) {
						case "fail":
							return errA
						case "again":
							return errB
						}
						return nil
					})
				}, noise.WithNodeNumWorkers(1))
				c, cl, err := peerOf(t, n, outbound)
				if err != nil {
					t.Inconclusive("%v", err)
					t.RunCleanups()
					continue
				}
				if cl == nil {
					t.Await(core.Long, func() bool { return len(n.Inbound()) == 1 })
					cl = n.Inbound()[0]
				}
				cl.WaitUntilReady()
				if err := cl.Error(); err != nil {
					t.Violation("early", "a connection that is up has the error %v", err)
				}
				w := watchErr(t, cl)
				cs.do(c)
				if i > 1 && round%2 == 0 { // what comes afterwards does not count
					c.Send(wire.Msg{Data: []byte("again")})
					c.Write([]byte{0xff, 0xff, 0xff, 0xff, 0})
				}
				if !t.Do(core.Long, cl.WaitUntilClosed) {
					t.Violation("closed-hang", "a connection does not end (%s)\n%s", cs.name, core.LibDump(20))
					t.RunCleanups()
					continue
				}
				got := cl.Error()
				if got == nil {
					t.Violation("no-error", "a connection that has ended has no error (%s)", cs.name)
				} else if !cs.is(got) {
					t.Violation("cause", "a connection that ended for %q has the error %q", cs.name, got)
				}
				cl.Close()
				n.Close()
				if now := cl.Error(); got != nil && (now == nil || !sameErr(now, got)) {
					t.Violation("overwritten", "the error of a connection was %q, and then became %v", got, now)
				}
				w.end()
				t.Count("causes compared", 1)
				t.Case("causes/%s/%v/%d", cs.name, outbound, round)
				c.Close()
				t.RunCleanups()
			}
		}
	}
}

func isClosedErr(err error) bool { return errors.Is(err, net.ErrClosed) }

// lifeMon tracks the callbacks that are running for each connection.
type lifeMon struct {
	t      *core.T
	mu     sync.Mutex
	active map[*noise.Client]int
	over   map[*noise.Client]bool // WaitUntilClosed has returned
	rng    *mrand.Rand
	slow   bool
}

func (m *lifeMon) call(kind string, c *noise.Client) {
	m.mu.Lock()
	m.active[c]++
	if m.over[c] {
		m.t.Violation("callback-after", "a %s callback was called for a connection after waiting until it was closed", kind)
	}
	d := time.Duration(0)
	if m.slow {
		d = time.Duration(m.rng.Intn(1500)) * time.Microsecond
	}
	m.mu.Unlock()
	m.t.Count("callbacks", 1)
	if d > 0 {
		time.Sleep(d)
	}
	m.mu.Lock()
	m.active[c]--
	m.mu.Unlock()
}

func (m *lifeMon) protocol() noise.Protocol {
	return noise.Protocol{
		OnPeerConnected:    func(c *noise.Client) { m.call("connected", c) },
		OnPeerDisconnected: func(c *noise.Client) { m.call("disconnected", c) },
		OnMessageRecv:      func(c *noise.Client) { m.call("received", c) },
		OnMessageSent:      func(c *noise.Client) { m.call("sent", c) },
	}
}

// wait waits until c is closed and checks what must hold at once.
func (m *lifeMon) wait(n *noise.Node, c *noise.Client, what string) {
	if !m.t.Do(core.Long, func() {
		c.WaitUntilClosed()
		m.mu.Lock()
		m.over[c] = true
		k := m.active[c]
		m.mu.Unlock()
		if k > 0 {
			m.t.Violation("callback-running", "%d callbacks of a connection are running when waiting until it was closed returns (%s)", k, what)
		}
		if listed(n, c) {
			m.t.Violation("listed", "a connection is listed when waiting until it was closed returns (%s)", what)
		}
		if c.Error() == nil {
			m.t.Violation("no-error", "a connection has no error when waiting until it was closed returns (%s)", what)
		}
	}) {
		m.t.Violation("closed-hang", "waiting until a connection is closed does not return (%s)\n%s", what, core.LibDump(20))
	}
}

// c13callbacks: connections with traffic and slow callbacks are ended; nothing of them is left when waiting returns.
func c13callbacks(t *core.T) {
	t.Require("connections ended", 80)
	t.Require("callbacks", 1000)
	hows := []string{"close", "peer", "handler", "node", "reset"}
	for round := 0; round < t.N(50, 600); round++ {
		t.PerturbRound(round)
		how := hows[round%len(hows)]
		m := &lifeMon{t: t, active: map[*noise.Client]int{}, over: map[*noise.Client]bool{}, rng: t.RNG("slow", round), slow: round%3 > 0}
		n := mk(t, func(n *noise.Node) {
			n.Bind(m.protocol())
			n.Handle(func(ctx noise.HandlerContext) error {
				if string(ctx.Data()) == "fail" {
					return errors.New("refused")
				}
				return echo(ctx)
			})
		})
		var peers []*live
		c, err := wire.Dial(loop(n), wire.NewIdentity(4000), &wire.Options{Timeout: core.Long})
		if err != nil {
			t.Inconclusive("%v", err)
			t.RunCleanups()
			continue
		}
		peers = append(peers, alive(c))
		s := newStation(t)
		ctx, cancel := ctxT(core.Long)
		out, err := n.Ping(ctx, s.addr())
		if err != nil || !t.Await(core.Long, func() bool { return len(n.Inbound()) == 1 && s.open() == 1 }) {
			t.Inconclusive("%v", err)
			cancel()
			t.RunCleanups()
			continue
		}
		peers = append(peers, s.conns()[0])
		clients := []*noise.Client{n.Inbound()[0], out}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for _, p := range peers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 1; ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					if p.Send(wire.Msg{Nonce: uint64(i), Data: payload('e', 0, uint32(i), 50)}) != nil {
						return
					}
					if i%8 == 0 {
						time.Sleep(time.Millisecond)
					}
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				n.Send(ctx, s.addr(), payload('m', 0, uint32(i), 50))
				select {
				case <-stop:
					return
				default:
				}
			}
		}()
		time.Sleep(time.Duration(t.RNG("delay", round).Intn(8)) * time.Millisecond)
		var ww sync.WaitGroup
		for _, c := range clients {
			for k := 0; k < 2; k++ {
				ww.Add(1)
				go func() { defer ww.Done(); m.wait(n, c, how) }()
			}
		}
		switch how {
		case "close":
			for _, c := range clients {
				c.Close()
			}
		case "peer":
			for _, p := range peers {
				p.Close()
			}
		case "handler":
			for _, p := range peers {
				p.Send(wire.Msg{Data: []byte("fail")})
			}
		case "node":
			n.Close()
		default:
			for _, p := range peers {
				p.Conn.Conn.(*net.TCPConn).SetLinger(0)
				p.Close()
			}
		}
		ww.Wait()
		close(stop)
		wg.Wait()
		cancel()
		t.Count("connections ended", 2)
		t.Case("callbacks/%s/%d", how, round)
		for _, p := range peers {
			p.Close()
		}
		t.RunCleanups()
	}
}

// c13churn: connections are closed at arbitrary moments, from their first to their last.
func c13churn(t *core.T) {
	t.Require("connections ended", 400)
	for round := 0; round < t.N(6, 80); round++ {
		t.PerturbRound(round)
		m := &lifeMon{t: t, active: map[*noise.Client]int{}, over: map[*noise.Client]bool{}, rng: t.RNG("slow", round), slow: round%2 > 0}
		n := mk(t, func(n *noise.Node) { n.Bind(m.protocol()); n.Handle(echo) })
		s := newStation(t)
		var seen sync.Map
		stop := make(chan struct{})
		var wg, waits sync.WaitGroup
		for g := 0; g < 2; g++ { // finds connections as soon as they are listed and ends them
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := t.RNG("closer", round*2+g)
				for {
					select {
					case <-stop:
						return
					default:
					}
					for _, c := range append(n.Inbound(), n.Outbound()...) {
						if _, dup := seen.LoadOrStore(c, true); dup {
							continue
						}
						waits.Add(1)
						d := time.Duration(rng.Intn(2000)) * time.Microsecond
						go func() {
							defer waits.Done()
							if d%3 > 0 {
								time.Sleep(d)
							}
							par(1+int(d)%2, func(int) { c.Close() })
							if !t.Do(core.Long, c.WaitUntilReady) {
								t.Violation("ready-hang", "waiting until a connection is ready does not return after it was closed\n%s", core.LibDump(20))
							}
							m.wait(n, c, "churn")
							t.Count("connections ended", 1)
						}()
					}
					time.Sleep(50 * time.Microsecond)
				}
			}()
		}
		par(6, func(g int) {
			rng := t.RNG("user", round*10+g)
			for j := 0; j < 40; j++ {
				if g%2 == 0 {
					ctx, cancel := ctxT(core.Long)
					operate(n, ctx, s.addr(), rng, 'e', uint32(g), uint32(j))
					cancel()
				} else if c, err := wire.Dial(loop(n), wire.NewIdentity(4000), &wire.Options{Timeout: core.Long}); err == nil {
					c.Send(wire.Msg{Nonce: 1, Data: []byte("x")})
					time.Sleep(time.Duration(rng.Intn(1000)) * time.Microsecond)
					c.Close()
				}
			}
		})
		close(stop)
		wg.Wait()
		waits.Wait()
		t.Case("churn/%d", round)
		t.RunCleanups()
	}
}
