package checks

import (
	"bufio"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C05",
		Rule:        "one hostile connection per case; distinct by stage, what was sent and how it ended; non-trivial: hostile bytes reached the node, and honest probes were answered meanwhile and afterwards",
		Assumptions: []string{"memory exhaustion by sheer number of hostile connections is not driven", "probes are given 20 s before the node counts as disabled"},
		Scenarios: []core.Scenario{
			{Name: "raw", Run: c05raw},
			{Name: "records", Run: c05records},
			{Name: "dialed", Run: c05dialed},
			{Name: "load", Run: c05load},
			{Name: "fds", Run: c05fds},
			{Name: "ports", Run: c05ports},
		},
	})
	core.Helpers["c05fds"] = c05fdsHelper
}

// full is a node with everything on it: overlay, gossip, and an application that echoes.
type full struct {
	n  *noise.Node
	k  *kademlia.Protocol
	g  *gossip.Protocol
	on func(n *noise.Node)
}

func (f *full) setup(n *noise.Node) {
	f.n = n
	f.k = kademlia.New(kademlia.WithProtocolPingTimeout(150 * time.Millisecond))
	f.g = gossip.New(f.k)
	n.Bind(f.k.Protocol(), f.g.Protocol())
	n.Handle(echo)
	if f.on != nil {
		f.on(n)
	}
}

// prober probes a node until stopped.
func prober(t *core.T, addr string) (stop func()) {
	quit := make(chan struct{})
	done := make(chan struct{})
	id := wire.NewIdentity(1)
	rng := t.RNG("probe", 0)
	go func() {
		defer close(done)
		for {
			if err := probe(addr, id, rng); err != nil {
				t.Violation("disabled", "a well-behaved peer is not served: %v\n%s", err, core.LibDump(20))
				return
			}
			t.Count("probes answered", 1)
			select {
			case <-quit:
				return
			case <-time.After(30 * time.Millisecond):
			}
		}
	}()
	return func() { close(quit); <-done }
}

// settled checks that nothing is left of hostile connections.
func settled(t *core.T, n *noise.Node, goroutines, socks int) {
	if !t.Await(core.Long, func() bool { return len(n.Inbound()) == 0 && len(n.Outbound()) == 0 }) {
		t.Violation("neither", "%d inbound and %d outbound connections are neither served nor closed\n%s", len(n.Inbound()), len(n.Outbound()), core.LibDump(20))
		return
	}
	if !t.Await(core.Long, func() bool { return len(core.LibStacks()) <= goroutines && core.Sockets() <= socks }) {
		t.Violation("neither", "%d goroutines and %d sockets are left of hostile connections (before: %d, %d)\n%s", len(core.LibStacks()), core.Sockets(), goroutines, socks, core.LibDump(20))
	}
}

// hostileEnd ends a connection in one of several ways, and returns how.
func hostileEnd(t *core.T, rng *mrand.Rand, nc net.Conn, mustClose bool) string {
	switch rng.Intn(4) {
	case 0:
		if tc, ok := nc.(*net.TCPConn); ok {
			tc.SetLinger(0)
		}
		nc.Close()
		return "reset"
	case 1:
		nc.Close()
		return "close"
	case 2:
		if tc, ok := nc.(*net.TCPConn); ok {
			tc.CloseWrite()
		}
		if _, closed := closedByPeer(t, nc); !closed {
			t.Violation("neither", "a connection whose other end has finished is not closed")
		}
		nc.Close()
		return "half-close"
	}
	if mustClose {
		if _, closed := closedByPeer(t, nc); !closed {
			t.Violation("neither", "a silent connection is neither served nor closed, although there is an idle timeout")
		}
	}
	nc.Close()
	return "silence"
}

func c05raw(t *core.T) {
	t.Require("hostile connections", 150)
	t.Require("probes answered", 10)
	f := &full{}
	n := mk(t, f.setup, noise.WithNodeIdleTimeout(700*time.Millisecond), noise.WithNodeNumWorkers(2))
	g0, s0 := len(core.LibStacks()), core.Sockets()
	stop := prober(t, loop(n))
	per := t.N(25, 500)
	for round := 0; round < 2; round++ {
		t.PerturbRound(round + 1)
		par(8, func(i int) {
			rng := t.RNG("raw", round*8+i)
			for j := 0; j < per/2; j++ {
				nc, err := net.Dial("tcp", loop(n))
				if err != nil {
					t.Violation("disabled", "the node no longer accepts connections: %v", err)
					return
				}
				kind := rng.Intn(9)
				var b []byte
				switch kind {
				case 0: // nothing
				case 1: // noise
					b = make([]byte, rng.Intn(5000))
					rng.Read(b)
				case 2: // noise in a frame
					b = make([]byte, rng.Intn(300))
					rng.Read(b)
					b = wire.Frame(b)
				case 3: // a frame of the size of a hello
					b = make([]byte, 96)
					rng.Read(b)
					b = wire.Frame(b)
				case 4: // a length and less than it
					b = make([]byte, 4+rng.Intn(200))
					binary.BigEndian.PutUint32(b, uint32(rng.Intn(5<<20)))
				case 5: // many empty frames
					b = make([]byte, 4*rng.Intn(1000))
				case 6: // a weak key with a forged signature
					h := append([]byte{}, weakPoints[rng.Intn(len(weakPoints))]...)
					sig := make([]byte, 64)
					sig[0] = 1
					b = wire.Frame(append(h, sig...))
				default: // a handshake that stops or breaks half way
					o := &wire.Options{Timeout: core.Long, Stop: 1 + rng.Intn(3)}
					if rng.Intn(2) == 0 {
						o.IDRecord = func(c *wire.Conn, rec []byte) []byte { return rec[:rng.Intn(len(rec))] }
					}
					if rng.Intn(2) == 0 {
						o.IDBody = func(c *wire.Conn, b []byte) []byte { return b[:rng.Intn(len(b)+1)] }
					}
					wire.Handshake(nc, wire.NewIdentity(uint16(rng.Intn(65536))), o)
				}
				for len(b) > 0 && rng.Intn(3) == 0 { // in pieces
					k := 1 + rng.Intn(len(b))
					nc.Write(b[:k])
					b = b[k:]
				}
				nc.Write(b)
				end := hostileEnd(t, rng, nc, j%4 == 0)
				t.Count("hostile connections", 1)
				t.Case("raw/%d/%s/%d", kind, end, i*1000+j)
			}
		})
	}
	stop()
	settled(t, n, g0, s0)
}

// hostileRecord makes up the content of a record for an authenticated peer.
func hostileRecord(rng *mrand.Rand, known [][]byte) []byte {
	junk := func(n int) []byte {
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	var id [][]byte
	for i := 0; i < 3; i++ {
		k := junk(32)
		switch rng.Intn(5) {
		case 0:
			k = make([]byte, 32)
		case 1:
			k = append([]byte{}, known[rng.Intn(len(known))]...)
			if rng.Intn(2) == 0 {
				k[rng.Intn(32)] ^= 1 << rng.Intn(8)
			}
		}
		host := net.IP(junk(16))
		if rng.Intn(3) > 0 {
			host = net.IPv4(127, 0, 0, 1)
		}
		id = append(id, wire.EncodeID(k, host, uint16(rng.Intn(65536))))
	}
	body := func() []byte {
		switch rng.Intn(7) {
		case 0:
			return nil
		case 1:
			return junk(rng.Intn(80))
		case 2:
			return id[0][:32]
		case 3: // a response with a count that does not fit
			b := []byte{byte(rng.Intn(256))}
			for i := 0; i < rng.Intn(4); i++ {
				b = append(b, id[i%3]...)
			}
			if rng.Intn(2) == 0 && len(b) > 1 {
				b = b[:1+rng.Intn(len(b)-1)]
			}
			return b
		case 4:
			return append([]byte{3}, append(append(append([]byte{}, id[0]...), id[1]...), id[2]...)...)
		case 5:
			return junk(rng.Intn(20000))
		}
		return id[0][:31+rng.Intn(3)]
	}
	nonce := []uint64{0, 0, 1, 2, 3, uint64(rng.Intn(100)), 1 << 63, ^uint64(0)}[rng.Intn(8)]
	op := []uint16{0, 1, 2, 3, 4, 4, 2, 3, 5, 65535, 256, uint16(rng.Intn(65536))}[rng.Intn(12)]
	switch rng.Intn(8) {
	case 0:
		return junk(rng.Intn(8)) // too short to be a message
	case 1:
		return wire.Encode(wire.Msg{Nonce: nonce, Data: junk(rng.Intn(3))})
	}
	return wire.Encode(wire.Msg{Nonce: nonce, Data: append([]byte{byte(op >> 8), byte(op)}, body()...)})
}

func c05identity(rng *mrand.Rand) *wire.Identity {
	id := wire.NewIdentity(uint16(rng.Intn(65536)))
	switch rng.Intn(6) {
	case 0:
		id.Port = 0
	case 1:
		id.Host = net.IPv4zero
	case 2:
		id.Host = net.IPv6zero
	case 3:
		id.Host = net.IPv4(255, 255, 255, 255)
	}
	return id
}

func c05records(t *core.T) {
	t.Require("hostile connections", 150)
	t.Require("hostile records", 800)
	t.Require("probes answered", 10)
	f := &full{}
	n := mk(t, f.setup, noise.WithNodeIdleTimeout(700*time.Millisecond), noise.WithNodeNumWorkers(2), noise.WithNodeMaxDialAttempts(1))
	g0, s0 := len(core.LibStacks()), core.Sockets()
	stop := prober(t, loop(n))
	per := t.N(30, 500)
	self := n.ID().ID
	for round := 0; round < 2; round++ {
		t.PerturbRound(round + 1)
		par(8, func(i int) {
			rng := t.RNG("records", round*8+i)
			for j := 0; j < per/2; j++ {
				id := c05identity(rng)
				pub := id.Pub()
				c, err := wire.Dial(loop(n), id, &wire.Options{Timeout: core.Long})
				if err != nil {
					t.Violation("disabled", "a peer that follows the handshake was not accepted: %v", err)
					return
				}
				k := 1 + rng.Intn(12)
				for r := 0; r < k; r++ {
					if rng.Intn(12) == 0 {
						b := hostileRecord(rng, [][]byte{self[:], pub[:]})
						c.WriteRecord(b[:rng.Intn(len(b)+1)]) // in clear
						continue
					}
					c.WriteRecord(c.Seal(hostileRecord(rng, [][]byte{self[:], pub[:]})))
					t.Count("hostile records", 1)
				}
				end := hostileEnd(t, rng, c.Conn, j%5 == 0)
				t.Count("hostile connections", 1)
				t.Case("records/%d/%s/%d", k, end, i*1000+j)
			}
		})
	}
	stop()
	settled(t, n, g0, s0)
}

// c05dialed: the node connects to hostile peers, and uses its overlay through them.
func c05dialed(t *core.T) {
	t.Require("hostile connections", 60)
	t.Require("probes answered", 10)
	f := &full{}
	n := mk(t, f.setup, noise.WithNodeIdleTimeout(700*time.Millisecond), noise.WithNodeNumWorkers(2), noise.WithNodeMaxDialAttempts(2))
	g0 := len(core.LibStacks())
	s0 := core.Sockets()
	stop := prober(t, loop(n))
	self := n.ID().ID
	var served atomic.Int64
	var ls []net.Listener
	var addrs []string
	var ids []*wire.Identity
	for i := 0; i < 24; i++ {
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		i := i
		ls = append(ls, l)
		addrs = append(addrs, l.Addr().String())
		id := wire.NewIdentity(uint16(portOf(l.Addr().String())))
		ids = append(ids, id)
		var k atomic.Int64
		go func() {
			for {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				rng := t.RNG("dialed", i*10000+int(k.Add(1)))
				served.Add(1)
				go func() {
					defer nc.Close()
					mode := i % 6
					switch mode {
					case 0: // noise
						b := make([]byte, rng.Intn(400))
						rng.Read(b)
						nc.Write(b)
						return
					case 1: // silence
						closedByPeer(t, nc)
						return
					}
					pub := id.Pub()
					c, err := wire.Handshake(nc, id, &wire.Options{Timeout: core.Long, Stop: []int{0, 0, 0, 0, 0, 2}[mode]})
					if err != nil {
						return
					}
					nc.SetReadDeadline(time.Now().Add(core.Long))
					for {
						m, err := c.Recv()
						if err != nil {
							return
						}
						switch {
						case mode == 2: // anything as the response
							c.Send(wire.Msg{Nonce: m.Nonce, Data: hostileRecord(rng, [][]byte{self[:], pub[:]})[min(8, 0):]})
						case mode == 3: // malformed lists of peers
							b := []byte{0, 3, byte(rng.Intn(256))}
							for x := rng.Intn(300); x > 0; x-- {
								b = append(b, byte(rng.Intn(256)))
							}
							c.Send(wire.Msg{Nonce: m.Nonce, Data: b})
						default: // a list of peers that are the node itself, zero, or at addresses where nobody is
							b := []byte{0, 3, 4}
							b = append(b, wire.EncodeID(self[:], net.IPv4(127, 0, 0, 1), n.ID().Port)...)
							b = append(b, wire.EncodeID(make([]byte, 32), net.IPv4(127, 0, 0, 1), 1)...)
							o := ids[rng.Intn(len(ids))]
							b = append(b, o.Marshal()...)
							b = append(b, wire.EncodeID(pub[:], net.IPv4(127, 0, 0, 1), 0)...)
							c.Send(wire.Msg{Nonce: m.Nonce, Data: b})
							c.Send(wire.Msg{Nonce: m.Nonce, Data: b}) // twice
							c.Send(wire.Msg{Nonce: m.Nonce + 1, Data: b})
						}
						if rng.Intn(4) == 0 {
							return
						}
					}
				}()
			}
		}()
	}
	for round := 0; round < t.N(3, 25); round++ {
		t.PerturbRound(round)
		if !t.Do(3*core.Long, func() {
			par(len(addrs), func(i int) {
				rng := t.RNG("op", round*100+i)
				for j := 0; j < 3; j++ {
					ctx, cancel := ctxT(time.Duration(50+rng.Intn(400)) * time.Millisecond)
					switch rng.Intn(4) {
					case 0:
						f.k.Ping(ctx, addrs[i])
					case 1:
						n.Send(ctx, addrs[i], payload('d', 1, 1, 100))
					case 2:
						n.RequestMessage(ctx, addrs[i], kademlia.FindNodeRequest{Target: self})
					default:
						n.Request(ctx, addrs[i], payload('d', 1, 1, 100))
					}
					cancel()
					t.Case("dialed/%d/%d", i%6, round*1000+i*10+j)
				}
			})
		}) {
			t.Violation("stuck", "operations towards hostile peers never return\n%s", core.LibDump(40))
			return
		}
		if !t.Do(3*core.Long, func() {
			f.k.Discover(kademlia.WithIteratorLookupTimeout(200 * time.Millisecond))
			var target noise.PublicKey
			t.Rand.Read(target[:])
			f.k.Find(target, kademlia.WithIteratorLookupTimeout(200*time.Millisecond))
		}) {
			t.Violation("stuck", "a lookup among hostile peers does not end\n%s", core.LibDump(40))
			return
		}
	}
	t.Count("hostile connections", int(served.Load()))
	stop()
	for _, l := range ls {
		l.Close()
	}
	settled(t, n, g0, s0)
}

// c05load: stalled, flooding and half-open peers while others are to be served.
func c05load(t *core.T) {
	t.Require("probes answered", 10)
	t.Require("hostile connections", 100)
	f := &full{}
	n := mk(t, f.setup, noise.WithNodeNumWorkers(2), noise.WithNodeMaxInboundConnections(64), noise.WithNodeIdleTimeout(2*time.Second))
	g0, s0 := len(core.LibStacks()), core.Sockets()
	rounds := t.N(2, 12)
	for round := 0; round < rounds; round++ {
		t.PerturbRound(round)
		stop := prober(t, loop(n))
		var wg sync.WaitGroup
		// Peers that ask for much and read nothing.
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c, err := wire.Dial(loop(n), wire.NewIdentity(2), &wire.Options{Timeout: core.Long})
				if err != nil {
					t.Violation("disabled", "a peer that follows the handshake was not accepted: %v", err)
					return
				}
				defer c.Close()
				c.SetWriteDeadline(time.Now().Add(3 * time.Second))
				big := make([]byte, 100000)
				for j := 0; j < 120; j++ {
					big[0] = byte(100 + j)
					if c.Send(wire.Msg{Nonce: uint64(j + 1), Data: big}) != nil {
						break
					}
				}
				t.Count("hostile connections", 1)
				time.Sleep(300 * time.Millisecond)
				t.Case("load/stalled/%d/%d", round, i)
			}()
		}
		// Peers that flood.
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c, err := wire.Dial(loop(n), wire.NewIdentity(3), &wire.Options{Timeout: core.Long})
				if err != nil {
					t.Violation("disabled", "a peer that follows the handshake was not accepted: %v", err)
					return
				}
				defer c.Close()
				c.SetWriteDeadline(time.Now().Add(5 * time.Second))
				rng := t.RNG("flood", round*10+i)
				for j := 0; j < 4000; j++ {
					if c.Send(wire.Msg{Nonce: uint64(j % 2), Data: []byte{0, byte(rng.Intn(6)), 'f'}}) != nil {
						break
					}
				}
				t.Count("hostile connections", 1)
				t.Case("load/flood/%d/%d", round, i)
			}()
		}
		wg.Wait()
		stop()
		// Peers that never finish the handshake, more than there is room for. They may push out others meanwhile, but
		// not those who come afterwards.
		var open []net.Conn
		for i := 0; i < 150; i++ {
			nc, err := net.Dial("tcp", loop(n))
			if err != nil {
				t.Violation("disabled", "the node no longer accepts connections: %v", err)
				break
			}
			if i%3 == 0 {
				nc.Write([]byte{0, 0, 0, 96, 1, 2, 3})
			}
			open = append(open, nc)
			t.Count("hostile connections", 1)
			t.Case("load/half-open/%d/%d", round, i)
			if i%30 == 29 {
				time.Sleep(5 * time.Millisecond)
			}
		}
		if err := probe(loop(n), wire.NewIdentity(1), t.Rand); err != nil {
			t.Violation("disabled", "a well-behaved peer is not served after many that never finish the handshake: %v", err)
		}
		for i, nc := range open {
			if i%10 == 0 {
				if _, closed := closedByPeer(t, nc); !closed {
					t.Violation("neither", "a connection that never finishes the handshake is neither served nor closed")
					break
				}
			}
		}
		for _, nc := range open {
			nc.Close()
		}
	}
	if err := probe(loop(n), wire.NewIdentity(1), t.Rand); err != nil {
		t.Violation("disabled", "afterwards a well-behaved peer is not served: %v", err)
	}
	settled(t, n, g0, s0)
}

// c05fds: the node runs out of file descriptors for a while.
func c05fds(t *core.T) {
	t.Require("probes answered", 3)
	for round := 0; round < t.N(2, 10); round++ {
		p, err := t.Helper("c05fds")
		if err != nil {
			t.Inconclusive("helper: %v", err)
			return
		}
		addr, ok := p.Line(t, "ADDR ")
		if !ok {
			t.Inconclusive("the helper did not start")
			return
		}
		if err := probe(addr, wire.NewIdentity(1), t.Rand); err != nil {
			t.Violation("disabled", "before: %v", err)
			return
		}
		var open []net.Conn
		for i := 0; i < 150; i++ {
			nc, err := net.DialTimeout("tcp", addr, 5*time.Second)
			if err != nil {
				break
			}
			open = append(open, nc)
			t.Case("fds/%d/%d", round, i)
		}
		t.Count("hostile connections", len(open))
		time.Sleep(500 * time.Millisecond)
		p.Say("FDS")
		used, _ := p.Line(t, "FDS ")
		exhausted := used == "exhausted"
		for i, nc := range open {
			if round%2 == 0 {
				nc.(*net.TCPConn).SetLinger(0)
			}
			if i%2 == 0 {
				nc.Write([]byte("garbage that is no frame"))
			}
			nc.Close()
		}
		if t.Await(300*time.Millisecond, p.Exited) {
			t.Violation("crash", "the process of a node that ran out of file descriptors has exited (%v)", p.Cmd.ProcessState)
			return
		}
		for i := 0; i < 2; i++ {
			if err := probe(addr, wire.NewIdentity(1), t.Rand); err != nil {
				t.Violation("disabled", "after file descriptors ran out once, a well-behaved peer is not served: %v (process exited: %v)", err, p.Exited())
				return
			}
			t.Count("probes answered", 1)
		}
		if !exhausted {
			t.Inconclusive("file descriptors were not exhausted: %q", used)
			return
		}
		p.Say("CLOSE")
		if _, ok := p.Line(t, "CLOSED"); !ok {
			t.Note("the node did not close")
		}
		p.Stop()
		// And connections that are accepted while there are few descriptors are served.
		t.Count("probes answered", 1)
	}
}

func c05fdsHelper(args []string) {
	lim := syscall.Rlimit{Cur: 48, Max: 48}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		panic(err)
	}
	n, err := noise.NewNode(noise.WithNodeIdleTimeout(3 * time.Second))
	if err != nil {
		panic(err)
	}
	n.Handle(echo)
	if err := n.Listen(); err != nil {
		panic(err)
	}
	fmt.Println("ADDR " + loop(n))
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		switch strings.TrimSpace(sc.Text()) {
		case "FDS":
			f, err := os.Open("/dev/null")
			if err != nil {
				fmt.Println("FDS exhausted")
			} else {
				f.Close()
				fmt.Println("FDS left")
			}
		case "CLOSE":
			n.Close()
			fmt.Println("CLOSED")
		}
	}
}

// c05ports: a peer connects again from the same address and port while what is left of its earlier connection is still
// busy.
func c05ports(t *core.T) {
	t.Require("connections from a port used before", 10)
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		release := make(chan struct{})
		entered := make(chan struct{}, 16)
		var once sync.Once
		f := &full{on: func(n *noise.Node) {
			n.Bind(noise.Protocol{OnPeerDisconnected: func(c *noise.Client) {
				entered <- struct{}{}
				<-release
			}})
		}}
		n := mk(t, f.setup, noise.WithNodeIdleTimeout(5*time.Second))
		t.Cleanup(func() { once.Do(func() { close(release) }) })
		g0 := len(core.LibStacks())
		port := int(t.Port())
		d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}, Timeout: 5 * time.Second,
			Control: func(network, address string, c syscall.RawConn) error {
				return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1) })
			}}
		connect := func() (*wire.Conn, error) {
			var nc net.Conn
			var err error
			for i := 0; i < 100; i++ {
				if nc, err = d.Dial("tcp4", loop(n)); err == nil {
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			if err != nil {
				return nil, nil
			}
			c, err := wire.Handshake(nc, wire.NewIdentity(9), &wire.Options{Timeout: core.Long})
			if err != nil {
				nc.Close()
			}
			return c, err
		}
		for i := 0; i < 3; i++ {
			c, err := connect()
			if c == nil && err == nil {
				t.Note("could not bind port %d again", port)
				break
			}
			if err != nil {
				t.Violation("disabled", "connection %d from the same port is not served: %v", i, err)
				break
			}
			c.SetDeadline(time.Now().Add(core.Long))
			if _, err := c.Call(3, []byte("Pxx"), nil); err != nil {
				t.Violation("disabled", "a request over connection %d from the same port is not answered: %v", i, err)
			}
			if i > 0 {
				t.Count("connections from a port used before", 1)
			}
			c.Conn.(*net.TCPConn).SetLinger(0)
			c.Close()
			select { // the callback of this connection is running
			case <-entered:
			case <-time.After(core.Long):
				t.Violation("neither", "a connection that was reset is not ended")
			}
			t.Case("ports/%d/%d", round, i)
		}
		if err := probe(loop(n), wire.NewIdentity(1), t.Rand); err != nil {
			t.Violation("disabled", "afterwards a well-behaved peer is not served: %v", err)
		} else {
			t.Count("probes answered", 1)
		}
		once.Do(func() { close(release) })
		settled(t, n, g0, 1<<30)
		t.RunCleanups()
	}
}
