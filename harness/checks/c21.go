package checks

import (
	"errors"
	"fmt"
	"net"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:   "C21",
		Rule: "one case per node that was set up, started or failed to start; distinct by scenario, way of registering or failing, host and round; non-trivial: registrations were concurrent, or there was something that could have been left behind",
		Assumptions: []string{
			"registrations that are concurrent with the call of Listen may or may not take effect, but never partly",
			"whether a loopback or unspecified host can be used in a public address is left open",
		},
		Scenarios: []core.Scenario{
			{Name: "register", Run: c21register},
			{Name: "late", Run: c21late},
			{Name: "fail", Run: c21fail},
			{Name: "twice", Run: c21twice},
			{Name: "where", Run: c21where},
		},
	})
}

// seqLog is what a node's handlers and protocols did, in order.
type seqLog struct {
	mu   sync.Mutex
	bind []string
	conn map[[32]byte][]string
	disc map[[32]byte][]string
	hand map[string][]string
}

func newSeqLog() *seqLog {
	return &seqLog{conn: map[[32]byte][]string{}, disc: map[[32]byte][]string{}, hand: map[string][]string{}}
}

func (l *seqLog) handler(name string) noise.Handler {
	return func(ctx noise.HandlerContext) error {
		l.mu.Lock()
		defer l.mu.Unlock()
		l.hand[string(ctx.Data())] = append(l.hand[string(ctx.Data())], name)
		return nil
	}
}

func (l *seqLog) protocol(name string) noise.Protocol {
	return noise.Protocol{
		Bind: func(*noise.Node) error {
			l.mu.Lock()
			defer l.mu.Unlock()
			l.bind = append(l.bind, name)
			return nil
		},
		OnPeerConnected: func(c *noise.Client) {
			l.mu.Lock()
			defer l.mu.Unlock()
			l.conn[[32]byte(c.ID().ID)] = append(l.conn[[32]byte(c.ID().ID)], name)
		},
		OnPeerDisconnected: func(c *noise.Client) {
			l.mu.Lock()
			defer l.mu.Unlock()
			l.disc[[32]byte(c.ID().ID)] = append(l.disc[[32]byte(c.ID().ID)], name)
		},
	}
}

// c21patience is how long what was observed may differ from what is expected.
var c21patience = core.Long

// observe connects, sends a message, and returns which handlers and protocols took part, in order. It ends once they are
// those expected, or time is up.
func (l *seqLog) observe(t *core.T, n *noise.Node, tag string, handled, seen func([]string) bool) (hand, conn, disc []string, err error) {
	id := wire.NewIdentity(4210)
	c, err := wire.Dial(loop(n), id, &wire.Options{Timeout: core.Long})
	if err != nil {
		return nil, nil, nil, err
	}
	defer c.Close()
	c.Send(wire.Msg{Data: []byte(tag)})
	pub := id.Pub()
	await := func(cond func() bool) {
		if !t.Await(c21patience, func() bool {
			l.mu.Lock()
			defer l.mu.Unlock()
			return cond()
		}) {
			c21patience = 100 * time.Millisecond
		}
	}
	await(func() bool { return handled(l.hand[tag]) && seen(l.conn[pub]) })
	time.Sleep(5 * time.Millisecond) // there may be more
	c.Close()
	await(func() bool { return seen(l.disc[pub]) })
	time.Sleep(2 * time.Millisecond)
	l.mu.Lock()
	defer l.mu.Unlock()
	cp := func(s []string) []string { return append([]string{}, s...) }
	return cp(l.hand[tag]), cp(l.conn[pub]), cp(l.disc[pub]), nil
}

// c21groups checks that got is made up of whole groups, each at most once, those of one goroutine in order. It returns
// the groups found.
func c21groups(got []string, groups map[string][]string, by func(group string) (g, i int)) (found map[string]bool, problem string) {
	found = map[string]bool{}
	next := map[int]int{}
	for i := 0; i < len(got); {
		var name string
		for k, members := range groups {
			if members[0] == got[i] {
				name = k
			}
		}
		if name == "" {
			return found, fmt.Sprintf("%s is not where it should be", got[i])
		}
		if found[name] {
			return found, fmt.Sprintf("%s takes effect twice", name)
		}
		found[name] = true
		for j, m := range groups[name] {
			if i+j >= len(got) || got[i+j] != m {
				return found, fmt.Sprintf("%s is incomplete or out of order", name)
			}
		}
		i += len(groups[name])
		g, k := by(name)
		if k < next[g] {
			return found, fmt.Sprintf("%s is behind a later registration of the same goroutine", name)
		}
		next[g] = k
	}
	return found, ""
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// c21register: registrations before, during and after Listen, by several goroutines.
func c21register(t *core.T) {
	t.Require("registrations followed", 1500)
	for round := 0; round < t.N(30, 300); round++ {
		t.PerturbRound(round)
		log := newSeqLog()
		goroutines := 1 + round%8
		var listenBegan, listenEnded atomic.Bool
		var mu sync.Mutex
		hands, protos := map[string][]string{}, map[string][]string{}
		must, mustNot := map[string]bool{}, map[string]bool{}
		by := func(name string) (g, i int) {
			fmt.Sscanf(name[1:], "%d.%d", &g, &i)
			return
		}
		during := round%3 > 0
		n, err := noise.NewNode(noise.WithNodeBindPort(t.Port()))
		if err != nil {
			t.Inconclusive("node: %v", err)
			continue
		}
		t.Cleanup(func() { shut(t, n) })
		stop := make(chan struct{})
		var before, all sync.WaitGroup
		for g := 0; g < goroutines; g++ {
			before.Add(1)
			all.Add(1)
			rng := t.RNG("register", round*100+g)
			go func() {
				defer all.Done()
				released := false
				for i := 0; i < 40; i++ {
					if i >= 8 && !released {
						released = true
						before.Done()
						if !during {
							return
						}
					}
					if i >= 8 {
						select {
						case <-stop:
							return
						default:
						}
					}
					name := fmt.Sprintf("h%d.%d", g, i)
					isProto := rng.Intn(2) == 0
					if isProto {
						name = "p" + name[1:]
					}
					var members []string
					for k := 1 + rng.Intn(3); k > 0; k-- {
						members = append(members, fmt.Sprint(name, "/", k))
					}
					mu.Lock()
					if isProto {
						protos[name] = members
					} else {
						hands[name] = members
					}
					mu.Unlock()
					after := listenEnded.Load()
					if isProto {
						var ps []noise.Protocol
						for _, m := range members {
							ps = append(ps, log.protocol(m))
						}
						n.Bind(ps...)
					} else {
						var hs []noise.Handler
						for _, m := range members {
							hs = append(hs, log.handler(m))
						}
						n.Handle(hs...)
					}
					mu.Lock()
					if !listenBegan.Load() {
						must[name] = true
					}
					if after {
						mustNot[name] = true
					}
					mu.Unlock()
				}
				if !released {
					before.Done()
				}
			}()
		}
		before.Wait()
		listenBegan.Store(true)
		err = n.Listen()
		listenEnded.Store(true)
		time.Sleep(time.Millisecond)
		close(stop)
		all.Wait()
		if err != nil {
			t.Inconclusive("listen: %v", err)
			t.RunCleanups()
			continue
		}
		n.Handle(log.handler("late handler"))
		n.Bind(log.protocol("late protocol"))
		anyHandler := false
		for name := range must {
			anyHandler = anyHandler || name[0] == 'h'
		}
		if !anyHandler {
			t.RunCleanups()
			continue
		}
		bound := func(got []string) bool { return sameStrings(got, log.bind) }
		hand, conn, disc, err := log.observe(t, n, "a", func(got []string) bool {
			found, problem := c21groups(got, hands, by)
			for name := range hands {
				if must[name] && !found[name] {
					return false
				}
			}
			return problem == ""
		}, bound)
		hand2, conn2, disc2, err2 := log.observe(t, n, "b", func(got []string) bool { return sameStrings(got, log.hand["a"]) }, bound)
		if err == nil && err2 == nil { // the handlers of either may have taken their time
			t.Await(c21patience, func() bool {
				log.mu.Lock()
				defer log.mu.Unlock()
				hand, hand2 = append([]string{}, log.hand["a"]...), append([]string{}, log.hand["b"]...)
				return sameStrings(hand, hand2)
			})
		}
		if err != nil || err2 != nil {
			t.Violation("unserved", "a node cannot be connected to after registrations: %v %v", err, err2)
			t.RunCleanups()
			continue
		}
		log.mu.Lock()
		bind := append([]string{}, log.bind...)
		log.mu.Unlock()
		if !sameStrings(hand, hand2) {
			t.Violation("not-frozen", "two messages are handled by different handlers: %v and %v", hand, hand2)
		}
		for _, l := range [][]string{conn, conn2, disc, disc2} {
			if !sameStrings(l, bind) {
				t.Violation("not-frozen", "protocols %v were set up, but a connection is seen by %v", bind, l)
			}
		}
		judge := func(kind string, got []string, groups map[string][]string) {
			found, problem := c21groups(got, groups, by)
			if problem != "" {
				t.Violation("order", "%s take effect as %v: %s (%d goroutines)", kind, got, problem, goroutines)
				return
			}
			for name := range groups {
				if must[name] && !found[name] {
					t.Violation("lost", "%s: %s was registered before listening, but has no effect (%d goroutines)", kind, name, goroutines)
				}
				if mustNot[name] && found[name] {
					t.Violation("late", "%s: %s was registered after listening, but has an effect (%d goroutines)", kind, name, goroutines)
				}
				t.Count("registrations followed", 1)
			}
			t.Case("register/%s/%d/%v/%d", kind, goroutines, during, round)
		}
		judge("handlers", hand, hands)
		judge("protocols", bind, protos)
		t.RunCleanups()
	}
}

// c21late: registrations within the setup of a protocol take effect, and those once listening has succeeded do not.
func c21late(t *core.T) {
	t.Require("setups", 20)
	for round := 0; round < t.N(24, 200); round++ {
		t.PerturbRound(round)
		log := newSeqLog()
		withSetup := round%2 == 0
		var inSetup atomic.Int64
		n := mk(t, func(n *noise.Node) {
			*log = seqLog{conn: map[[32]byte][]string{}, disc: map[[32]byte][]string{}, hand: map[string][]string{}}
			inSetup.Store(0)
			n.Handle(log.handler("h0"))
			p := log.protocol("p0")
			b := p.Bind
			p.Bind = func(n *noise.Node) error {
				b(n)
				inSetup.Add(1)
				if withSetup {
					n.Handle(log.handler("h1"))
					n.RegisterMessage(c18string(""), func(b []byte) (c18string, error) { return c18string(b), nil })
				}
				if n.ID().ID == noise.ZeroPublicKey || n.Addr() == "" {
					t.Violation("setup", "a protocol is set up before the node's identity %v and address %q are known", n.ID(), n.Addr())
				}
				return nil
			}
			n.Bind(p, noise.Protocol{}, log.protocol("p1"))
		})
		if k := inSetup.Load(); k != 1 {
			t.Violation("setup", "a protocol was set up %d times", k)
		}
		par(4, func(i int) {
			n.Handle(log.handler(fmt.Sprint("late", i)))
			n.Bind(log.protocol(fmt.Sprint("late", i)))
		})
		want, protos := []string{"h0"}, []string{"p0", "p1"}
		if withSetup {
			want = append(want, "h1")
		}
		for i := 0; i < 2; i++ {
			hand, conn, disc, err := log.observe(t, n, fmt.Sprint("m", i),
				func(got []string) bool { return sameStrings(got, want) }, func(got []string) bool { return sameStrings(got, protos) })
			if err != nil {
				t.Violation("unserved", "a node cannot be connected to: %v", err)
				break
			}
			if !sameStrings(hand, want) {
				t.Violation("late", "a message is handled by %v, should be %v", hand, want)
			}
			if !sameStrings(conn, protos) || !sameStrings(disc, protos) {
				t.Violation("late", "a connection is seen by %v and %v, should be %v", conn, disc, protos)
			}
		}
		t.Count("setups", 1)
		t.Case("late/%v/%d", withSetup, round)
		t.RunCleanups()
	}
}

// portFree reports whether a port can be bound.
func portFree(t *core.T, port int) bool {
	return t.Await(2*time.Second, func() bool {
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
		if err == nil {
			l.Close()
		}
		return err == nil
	})
}

// c21fail: Listen fails, and nothing is left behind.
func c21fail(t *core.T) {
	t.Require("failed starts", 60)
	boom := errors.New("boom")
	addresses := []string{"nonsense", "1.2.3.4", "1.2.3.4:99999", "1.2.3.4:-1", "1.2.3.4:port of nothing", "[1:2:3", "1:2:3", "[1.2.3.4:80", ":::", "1.2.3.4:80:90"}
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		base := len(core.LibStacks())
		type way struct {
			name string
			o    []opt
			bind int // index of the protocol whose setup fails
			prep func(port int) func()
			want error
		}
		ways := []way{
			{name: "taken port", bind: -1, prep: func(port int) func() {
				l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
				if err != nil {
					t.Inconclusive("listen: %v", err)
					return func() {}
				}
				return func() { l.Close() }
			}},
			{name: "port of another node", bind: -1, prep: func(port int) func() {
				o, err := noise.NewNode(noise.WithNodeBindPort(uint16(port)))
				if err == nil {
					err = o.Listen()
				}
				if err != nil {
					t.Inconclusive("listen: %v", err)
				}
				return func() { o.Close() }
			}},
			{name: "host of nobody", bind: -1, o: opts(noise.WithNodeBindHost(net.ParseIP("203.0.113.77")))},
			{name: "first setup", bind: 0, want: boom},
			{name: "second setup", bind: 1, want: boom},
			{name: "last setup", bind: 2, want: boom},
		}
		for _, a := range addresses {
			ways = append(ways, way{name: "address " + a, bind: -1, o: opts(noise.WithNodeAddress(a))})
		}
		for _, w := range ways {
			port := int(t.Port())
			undo := func() {}
			if w.prep != nil {
				undo = w.prep(port)
			}
			n, err := noise.NewNode(append(opts(noise.WithNodeBindPort(uint16(port))), w.o...)...)
			if err != nil {
				t.Inconclusive("node: %v", err)
				undo()
				continue
			}
			var setups [3]atomic.Int64
			var early net.Conn
			for i := range setups {
				n.Bind(noise.Protocol{Bind: func(n *noise.Node) error {
					setups[i].Add(1)
					if i != w.bind {
						return nil
					}
					// Somebody connects right now.
					early, _ = net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), core.Long)
					time.Sleep(time.Duration(round%3) * time.Millisecond)
					return boom
				}})
			}
			n.Handle(func(ctx noise.HandlerContext) error {
				t.Violation("handled", "a node that failed to listen (%s) handles a message", w.name)
				return nil
			})
			var lerr error
			if !t.Do(core.Long, func() { lerr = n.Listen() }) {
				t.Violation("hang", "Listen does not return (%s)", w.name)
				undo()
				continue
			}
			if lerr == nil {
				t.Violation("false-success", "listening succeeded (%s)", w.name)
			}
			if w.want != nil && !isErr(lerr, w.want) {
				t.Violation("other-error", "a protocol's setup failed with %q, but Listen returns %v", w.want, lerr)
			}
			for i := range setups {
				want := int64(0)
				if w.bind >= i {
					want = 1
				}
				if got := setups[i].Load(); got != want {
					t.Violation("setup", "listening failed (%s); protocol %d was set up %d times, should be %d", w.name, i, got, want)
				}
			}
			if early != nil {
				if _, closed := closedByPeer(t, early); !closed {
					t.Violation("left-behind", "listening failed (%s), but a connection made meanwhile stays open", w.name)
				}
				early.Close()
			}
			undo()
			if w.name == "port of another node" || w.name == "taken port" {
				t.Await(core.Long, func() bool { return portFree(t, port) })
			}
			if !portFree(t, port) {
				t.Violation("port-bound", "listening failed (%s), but port %d stays bound", w.name, port)
			}
			shut(t, n)
			if !portFree(t, port) {
				t.Violation("port-bound", "listening failed (%s) and the node was closed, but port %d stays bound", w.name, port)
			}
			t.Count("failed starts", 1)
			t.Case("fail/%s/%d", w.name, round)
		}
		// Closed before it starts.
		port := int(t.Port())
		n, err := noise.NewNode(noise.WithNodeBindPort(uint16(port)))
		if err != nil {
			t.Inconclusive("node: %v", err)
			continue
		}
		n.Close()
		if n.Listen() == nil {
			t.Violation("false-success", "listening succeeded on a closed node")
		}
		if !portFree(t, port) {
			t.Violation("port-bound", "listening failed on a closed node, but port %d stays bound", port)
		}
		t.Count("failed starts", 1)
		t.Case("fail/closed/%d", round)
		t.RunCleanups()
		if !t.Await(core.Long, func() bool { return len(core.LibStacks()) <= base }) {
			t.Violation("left-behind", "after failed starts, goroutines are left:\n%s", core.LibDump(5))
			return
		}
	}
}

// c21twice: a node that listens keeps doing so.
func c21twice(t *core.T) {
	t.Require("second attempts to listen", 20)
	for round := 0; round < t.N(12, 100); round++ {
		t.PerturbRound(round)
		var handled, setups atomic.Int64
		n := mk(t, func(n *noise.Node) {
			setups.Store(0)
			n.Bind(noise.Protocol{Bind: func(*noise.Node) error { setups.Add(1); return nil }})
			n.Handle(func(ctx noise.HandlerContext) error { handled.Add(1); return echo(ctx) })
		})
		c, _, err := peerOf(t, n, round%2 == 0)
		if err != nil {
			t.Inconclusive("connecting: %v", err)
			continue
		}
		l := alive(c)
		id, addr := n.ID(), n.Addr()
		for i := 0; i < 2; i++ {
			var err error
			if !t.Do(core.Long, func() { err = n.Listen() }) {
				t.Violation("hang", "listening a second time does not return")
			} else if err == nil {
				t.Violation("false-success", "listening a second time succeeded")
			}
			t.Count("second attempts to listen", 1)
		}
		if !equalID(n.ID(), id) || n.Addr() != addr {
			t.Violation("changed", "listening a second time changed the node's identity or address: %s %q, before: %s %q", showID(n.ID()), n.Addr(), showID(id), addr)
		}
		if setups.Load() != 1 {
			t.Violation("setup", "listening a second time set up a protocol again (%d times)", setups.Load())
		}
		before := handled.Load()
		if !l.served(t) {
			t.Violation("unserved", "after listening a second time was attempted, a connection is not served any more")
		}
		if err := probe(loop(n), wire.NewIdentity(4211), t.RNG("twice", round)); err != nil {
			t.Violation("unserved", "after listening a second time was attempted, a new connection is not served: %v", err)
		}
		if got := handled.Load() - before; got != 2 {
			t.Violation("handled", "two messages were handled %d times", got)
		}
		n.Bind(noise.Protocol{OnPeerConnected: func(*noise.Client) {
			t.Violation("late", "a protocol registered after a second attempt to listen has an effect")
		}})
		if err := probe(loop(n), wire.NewIdentity(4212), t.RNG("twice again", round)); err != nil {
			t.Violation("unserved", "after listening a second time was attempted, a new connection is not served: %v", err)
		}
		port := portOf(n.Addr())
		shut(t, n)
		if !portFree(t, port) {
			t.Violation("port-bound", "after listening a second time was attempted and the node was closed, its port stays bound")
		}
		t.Case("twice/%d", round)
		c.Close()
		t.RunCleanups()
	}
}

// localHosts are the hosts of this machine at which something can be reached.
func localHosts() (l []net.IP) {
	cand := []net.IP{net.ParseIP("127.0.0.1"), net.ParseIP("127.0.0.2"), net.ParseIP("::1")}
	addrs, _ := net.InterfaceAddrs()
	for _, a := range addrs {
		if n, ok := a.(*net.IPNet); ok && !n.IP.IsLoopback() && !n.IP.IsLinkLocalUnicast() {
			cand = append(cand, n.IP)
		}
	}
	for _, ip := range cand {
		x, err := net.Listen("tcp", net.JoinHostPort(ip.String(), "0"))
		if err != nil {
			continue
		}
		if c, err := net.DialTimeout("tcp", x.Addr().String(), time.Second); err == nil {
			c.Close()
			l = append(l, ip)
		}
		x.Close()
	}
	return l
}

// c21where: a node is reached where it is bound to, and nowhere else.
func c21where(t *core.T) {
	t.Require("hosts probed", 20)
	hosts := localHosts()
	t.Note("hosts of this machine: %v", hosts)
	for round := 0; round < t.N(2, 10); round++ {
		for _, bind := range append([]net.IP{nil, net.IPv4zero, net.IPv6zero}, hosts...) {
			var o []opt
			if bind != nil {
				if bind.To4() != nil && round%2 == 1 {
					bind = bind.To4()
				}
				o = opts(noise.WithNodeBindHost(bind))
			}
			port := int(t.Port())
			o = append(o, noise.WithNodeBindPort(uint16(port)))
			mk(t, func(n *noise.Node) { n.Handle(echo) }, o...)
			everywhere := bind == nil || bind.IsUnspecified()
			for _, h := range hosts {
				if everywhere && h.To4() == nil && bind != nil && bind.To4() != nil {
					continue // whether 0.0.0.0 includes IPv6 is up to the system
				}
				at := net.JoinHostPort(h.String(), strconv.Itoa(port))
				err := probe(at, wire.NewIdentity(4213), t.RNG(at, round))
				should := everywhere || h.Equal(bind)
				if should && err != nil {
					t.Violation("unreachable", "a node bound to %v is not served at %v: %v", bind, h, err)
				}
				if !should && err == nil {
					if bind.IsLoopback() {
						t.Finding(map[bool]string{true: "loopback-v4", false: "loopback-v6"}[bind.To4() != nil], "a node bound to the loopback host %v is reached at %v, too", bind, h)
					} else {
						t.Violation("elsewhere", "a node bound to %v is reached at %v, too", bind, h)
					}
				}
				t.Count("hosts probed", 1)
				t.Case("where/%v/%v", bind, h)
			}
			t.RunCleanups()
		}
	}
}
