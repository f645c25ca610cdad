package checks

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID: "C01",
		Rule: "one handshake per case between a real node and a reference peer (or two nodes through a relay); distinct by direction, deviation and its parameters; " +
			"every case is non-trivial: it either deviates in a named step, or exchanges messages whose attribution is checked",
		Assumptions: []string{"the reference peer implements the documented handshake; honest handshakes with it succeeding in the same run check that",
			"the cryptographic primitives of the Go standard library are sound"},
		Scenarios: []core.Scenario{
			{Name: "honest", Run: c01honest},
			{Name: "inbound", Run: func(t *core.T) { c01deviant(t, false) }},
			{Name: "outbound", Run: func(t *core.T) { c01deviant(t, true) }},
			{Name: "relay", Run: c01relay},
		},
	})
}

// authMon watches one node: who is reported, and which messages reach handlers.
type authMon struct {
	*mon
	mu   sync.Mutex
	msgs []authMsg
}

type authMsg struct {
	id   noise.ID
	data []byte
	req  bool
}

func (a *authMon) setup(n *noise.Node) {
	a.mon = newMon()
	a.msgs = nil
	n.Bind(a.protocol())
	n.Handle(func(ctx noise.HandlerContext) error {
		a.mu.Lock()
		a.msgs = append(a.msgs, authMsg{ctx.ID(), append([]byte{}, ctx.Data()...), ctx.IsRequest()})
		a.mu.Unlock()
		return echo(ctx)
	})
}

func (a *authMon) messages() []authMsg {
	a.mu.Lock()
	defer a.mu.Unlock()
	return append([]authMsg{}, a.msgs...)
}

func sameID(id noise.ID, w *wire.Identity) bool {
	return [32]byte(id.ID) == w.Pub() && id.Host.Equal(w.Host) && id.Port == w.Port
}

func c01identities(t *core.T, n int) []*wire.Identity {
	hosts := []net.IP{net.IPv4(127, 0, 0, 1), net.IPv4(10, 1, 2, 3), net.ParseIP("::1"), net.ParseIP("2001:db8::7"),
		net.IPv4zero, net.IPv6zero, net.IPv4(255, 255, 255, 255), net.ParseIP("fe80::1")}
	ports := []uint16{0, 1, 80, 0x0102, 32768, 65535}
	var l []*wire.Identity
	for i := 0; i < n; i++ {
		w := wire.NewIdentity(ports[t.Rand.Intn(len(ports))])
		w.Host = hosts[t.Rand.Intn(len(hosts))]
		l = append(l, w)
	}
	return l
}

// c01honest: peers that follow the handshake are accepted, and everything is attributed to them.
func c01honest(t *core.T) {
	t.Require("messages attributed", 50)
	for round := 0; round < t.N(5, 60); round++ {
		t.PerturbRound(round)
		var a authMon
		n := mk(t, a.setup, noise.WithNodeNumWorkers(uint(1+round%4)))
		ids := c01identities(t, 12)
		var conns []*wire.Conn
		var mu sync.Mutex
		fail := func(format string, args ...any) { t.Violation("honest", format, args...) }
		// Inbound: they connect to the node, interleaved.
		par(len(ids)/2, func(i int) {
			c, err := wire.Dial(loop(n), ids[i], &wire.Options{Timeout: core.Long, ReadPeer: i%2 == 1})
			if err != nil {
				fail("a peer that follows the handshake was not accepted: %v", err)
				return
			}
			mu.Lock()
			conns = append(conns, c)
			mu.Unlock()
			if c.Peer.ID.Pub != [32]byte(n.ID().ID) || c.Peer.ID.Addr() != n.ID().Address {
				fail("the node announced %x at %s but is %v", c.Peer.ID.Pub, c.Peer.ID.Addr(), n.ID())
			}
			for j := 0; j < 4; j++ {
				msg := append(ids[i].Marshal(), payload('h', uint32(i), uint32(j), 40)...)
				if j%2 == 0 {
					c.Send(wire.Msg{Data: msg})
				} else {
					c.SetDeadline(time.Now().Add(core.Long))
					if res, err := c.Call(uint64(j), msg, nil); err != nil || !bytes.Equal(res, echoOf(msg)) {
						fail("a request of a peer that follows the handshake was not answered: %v", err)
					}
				}
			}
			t.Case("in/%d/%v/%d", i%2, ids[i].Host, ids[i].Port)
		})
		// Outbound: the node connects to them.
		for i := len(ids) / 2; i < len(ids); i++ {
			i := i
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
			if err != nil {
				t.Inconclusive("listen: %v", err)
				continue
			}
			got := make(chan error, 1)
			go func() {
				nc, err := l.Accept()
				if err != nil {
					got <- err
					return
				}
				c, err := wire.Handshake(nc, ids[i], &wire.Options{Timeout: core.Long, ReadPeer: i%2 == 1})
				if err != nil {
					got <- err
					return
				}
				mu.Lock()
				conns = append(conns, c)
				mu.Unlock()
				for j := 0; j < 4; j++ {
					m, err := c.Recv()
					if err != nil {
						got <- err
						return
					}
					if m.Nonce > 0 {
						c.Send(wire.Msg{Nonce: m.Nonce, Data: echoOf(m.Data)})
					}
				}
				c.Send(wire.Msg{Data: append(ids[i].Marshal(), payload('o', uint32(i), 9, 40)...)})
				got <- nil
			}()
			ctx, cancel := ctxT(core.Long)
			cl, err := n.Ping(ctx, l.Addr().String())
			if err != nil {
				fail("dialing a peer that follows the handshake failed: %v", err)
			} else {
				if !sameID(cl.ID(), ids[i]) {
					fail("dialed %v but the connection's identity is %v", ids[i], cl.ID())
				}
				for j := 0; j < 2; j++ {
					n.Send(ctx, l.Addr().String(), payload('s', 0, 0, 30))
					req := payload('q', uint32(i), uint32(j), 50)
					res, err := n.Request(ctx, l.Addr().String(), req)
					if err != nil || !bytes.Equal(res, echoOf(req)) {
						fail("request to a peer that follows the handshake: %v", err)
					}
				}
			}
			cancel()
			if err := <-got; err != nil {
				fail("the node did not follow the handshake towards a listening peer: %v", err)
			}
			l.Close()
			t.Case("out/%d/%v/%d", i%2, ids[i].Host, ids[i].Port)
		}
		want := len(ids)/2*4 + len(ids)/2
		if !t.Await(core.Long, func() bool { return len(a.messages()) >= want }) {
			fail("%d of %d messages of peers that follow the handshake reached the handler", len(a.messages()), want)
		}
		for _, m := range a.messages() {
			id, err := wire.DecodeID(m.data)
			if err != nil || id.Pub != [32]byte(m.id.ID) || !id.Host.Equal(m.id.Host) || id.Port != m.id.Port {
				fail("a message of %x was attributed to %v", id.Pub, m.id)
			}
			t.Count("messages attributed", 1)
		}
		for _, e := range a.events() {
			if e.kind != "connected" {
				continue
			}
			ok := false
			for _, w := range ids {
				ok = ok || sameID(e.id, w)
			}
			if !ok {
				fail("a connection is reported with identity %v, which nobody has", e.id)
			}
		}
		if got := a.count("connected"); got != len(ids) {
			fail("%d connections were reported, %d peers completed the handshake", got, len(ids))
		}
		t.Sample("round %d: %d peers, both directions, %d messages attributed", round, len(ids), want)
		for _, c := range conns {
			c.Close()
		}
		t.RunCleanups()
	}
}

// A deviation of a peer in the handshake. After the handshake it tries to get a message and a request through in
// every way it can.
type deviation struct {
	name string
	o    func(rng *mrand.Rand, d *devCtx) *wire.Options
	// key is set for what the known findings may list.
	finding string
	// mayWait: the node is entitled to wait for more, so that the peer closes its side to get on.
	mayWait bool
}

type devCtx struct {
	node   *noise.Node
	self   *wire.Identity
	victim *wire.Identity // an honest identity that is not self
	old    *wire.Conn     // an earlier, honest connection of victim to the node
	oldID  []byte         // victim's id || signature on it
	oldRec []byte         // victim's encrypted record on it
}

// weak are encodings of points of small order.
var weakPoints = func() [][]byte {
	var l [][]byte
	id := make([]byte, 32)
	id[0] = 1
	l = append(l, id, make([]byte, 32)) // order 1, order 4
	m1 := bytes.Repeat([]byte{0xff}, 32)
	m1[0], m1[31] = 0xec, 0x7f // y = -1, order 2
	l = append(l, m1)
	for _, h := range []string{"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"} {
		b := make([]byte, 32)
		fmt.Sscanf(h, "%x", &b)
		l = append(l, b)
	}
	return l
}()

func flip(b []byte, bit int) []byte {
	c := append([]byte{}, b...)
	c[bit/8] ^= 1 << (bit % 8)
	return c
}

func deviations() []deviation {
	hello := func(name string, f func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte) deviation {
		return deviation{name: "hello-" + name, o: func(rng *mrand.Rand, d *devCtx) *wire.Options {
			return &wire.Options{Hello: func(c *wire.Conn, b []byte) []byte { return f(rng, d, c, b) }}
		}}
	}
	body := func(name string, f func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte) deviation {
		return deviation{name: "id-" + name, o: func(rng *mrand.Rand, d *devCtx) *wire.Options {
			return &wire.Options{IDBody: func(c *wire.Conn, b []byte) []byte { return f(rng, d, c, b) }}
		}}
	}
	rec := func(name string, f func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte) deviation {
		return deviation{name: "record-" + name, o: func(rng *mrand.Rand, d *devCtx) *wire.Options {
			return &wire.Options{IDRecord: func(c *wire.Conn, b []byte) []byte { return f(rng, d, c, b) }}
		}}
	}
	sign := func(id *wire.Identity, parts ...[]byte) []byte {
		return ed25519.Sign(id.Priv, bytes.Join(parts, nil))
	}
	l := []deviation{
		hello("short", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return b[:rng.Intn(96)] }),
		hello("long", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			return append(b, make([]byte, 1+rng.Intn(40))...)
		}),
		hello("empty", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return []byte{} }),
		hello("flip-key", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return flip(b, rng.Intn(256)) }),
		hello("flip-sig", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			return flip(b, 256+rng.Intn(512))
		}),
		hello("zero-sig", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			return append(b[:32:32], make([]byte, 64)...)
		}),
		hello("other-text", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			_, k, _ := ed25519.GenerateKey(rand.Reader)
			texts := []string{"", ".__noise_handshak", ".__noise_handshake.", "hello"}
			return append(append([]byte{}, k.Public().(ed25519.PublicKey)...), ed25519.Sign(k, []byte(texts[rng.Intn(len(texts))]))...)
		}),
		hello("other-signer", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			return append(b[:32:32], sign(d.self, []byte(wire.HandshakeText))...)
		}),
		hello("garbage", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { rng.Read(b); return b }),
		hello("none", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return nil }),
		// A key of small order: anyone can sign for it, and the secret is known to everyone.
		{name: "hello-weak-key", o: func(rng *mrand.Rand, d *devCtx) *wire.Options {
			return &wire.Options{Hello: func(c *wire.Conn, b []byte) []byte {
				h := append([]byte{}, weakPoints[rng.Intn(len(weakPoints))]...)
				sig := make([]byte, 64)
				sig[0] = 1
				if rng.Intn(2) == 0 {
					copy(sig, h)
				}
				return append(h, sig...)
			}}
		}},

		body("other-session", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return d.oldID }),
		body("victim-unsigned", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			return append(d.victim.Marshal(), make([]byte, 64)...)
		}),
		body("victim-signed-by-self", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			m := d.victim.Marshal()
			return append(m, sign(d.self, m, c.Shared)...)
		}),
		body("victim-with-old-secret", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			m := d.victim.Marshal()
			return append(m, sign(d.victim, m, d.old.Shared)...)
		}),
		body("no-secret", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			m := d.self.Marshal()
			return append(m, sign(d.self, m)...)
		}),
		body("only-secret", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			return append(d.self.Marshal(), sign(d.self, c.Shared)...)
		}),
		body("only-key", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			m := d.self.Marshal()
			return append(m, sign(d.self, m[:32], c.Shared)...)
		}),
		body("handshake-text", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			return append(d.self.Marshal(), sign(d.self, []byte(wire.HandshakeText))...)
		}),
		body("other-host", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			m := append([]byte{}, b...)
			m[32+rng.Intn(16)] ^= byte(1 + rng.Intn(255))
			return m
		}),
		body("other-port", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			m := append([]byte{}, b...)
			m[48+rng.Intn(2)] ^= byte(1 + rng.Intn(255))
			return m
		}),
		body("flip", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return flip(b, rng.Intn(8*len(b))) }),
		body("short", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return b[:rng.Intn(len(b))] }),
		body("long", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			return append(b, make([]byte, 1+rng.Intn(80))...)
		}),
		body("is-message", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			return wire.Encode(wire.Msg{Data: payload('x', 1, 1, 106)})
		}),
		body("none", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return nil }),

		rec("plaintext", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			m := d.self.Marshal()
			return append(m, sign(d.self, m, c.Shared)...)
		}),
		rec("flip", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return flip(b, rng.Intn(8*len(b))) }),
		rec("short", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return b[:rng.Intn(len(b))] }),
		rec("old", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return d.oldRec }),
		rec("other-key", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte {
			m := d.self.Marshal()
			return d.old.Seal(append(m, sign(d.self, m, c.Shared)...))
		}),
		rec("empty", func(rng *mrand.Rand, d *devCtx, c *wire.Conn, b []byte) []byte { return []byte{} }),

		// Being known under the node's own identity, by sending its own proof back to it.
		{name: "reflect-id", finding: "reflected-identity", o: func(rng *mrand.Rand, d *devCtx) *wire.Options {
			return &wire.Options{NoRead: true, IDRecord: func(c *wire.Conn, b []byte) []byte {
				if err := c.ReadID(); err != nil {
					return []byte{}
				}
				if rng.Intn(2) == 0 {
					return c.Peer.RawID
				}
				return c.Seal(c.Peer.IDRecord)
			}}
		}},
		{name: "reflect-all", finding: "reflected-identity", o: func(rng *mrand.Rand, d *devCtx) *wire.Options {
			return &wire.Options{ReadPeer: true, Stop: 2, Hello: func(c *wire.Conn, b []byte) []byte {
				h := append([]byte{}, c.Peer.Eph[:]...)
				c.Write(wire.Frame(append(h, c.PeerHelloSig...)))
				if raw, err := wire.ReadFrame(c); err == nil {
					c.Write(wire.Frame(raw))
				}
				return nil
			}}
		}},
	}
	for stop := 1; stop <= 3; stop++ {
		stop := stop
		if stop == 3 {
			continue // that is a complete handshake as far as the node can tell
		}
		l = append(l, deviation{name: fmt.Sprintf("stop-%d", stop), mayWait: true, o: func(rng *mrand.Rand, d *devCtx) *wire.Options {
			return &wire.Options{Stop: stop}
		}})
	}
	return l
}

// tries are the messages a deviating peer attempts to get through.
func tries(c *wire.Conn, rng *mrand.Rand) [][]byte {
	var l [][]byte
	msg := wire.Encode(wire.Msg{Data: []byte("unauthenticated message")})
	req := wire.Encode(wire.Msg{Nonce: 1, Data: []byte("unauthenticated request")})
	l = append(l, wire.Frame(msg), wire.Frame(req))
	if c != nil && c.AEAD != nil {
		l = append(l, wire.Frame(c.Seal(msg)), wire.Frame(c.Seal(req)))
	}
	rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

// c01deviant: whoever deviates gets nothing and is cut off.
func c01deviant(t *core.T, outbound bool) {
	t.Require("deviations refused", 60)
	dir := "inbound"
	if outbound {
		dir = "outbound"
	}
	devs := deviations()
	rounds := t.N(2, 16)
	for round := 0; round < rounds; round++ {
		t.PerturbRound(round)
		var a authMon
		n := mk(t, a.setup, noise.WithNodeMaxDialAttempts(1))
		d := &devCtx{node: n, victim: wire.NewIdentity(4000)}
		// An earlier connection of the victim, for replays.
		var oldID []byte
		old, err := wire.Dial(loop(n), d.victim, &wire.Options{Timeout: core.Long, IDBody: func(c *wire.Conn, b []byte) []byte { oldID = b; return b },
			IDRecord: func(c *wire.Conn, b []byte) []byte { d.oldRec = b; return b }})
		if err != nil {
			t.Violation("honest", "a peer that follows the handshake was not accepted: %v", err)
			return
		}
		d.old, d.oldID = old, append([]byte{}, oldID...)
		t.Await(core.Long, func() bool { return a.count("connected") == 1 })

		for i, dev := range devs {
			rng := t.RNG(dev.name, round)
			d.self = wire.NewIdentity(uint16(5000 + i))
			conn0, disc0, msgs0 := a.count("connected"), a.count("disconnected"), len(a.messages())
			o := dev.o(rng, d)
			o.Timeout = core.Long
			stayOpen := !dev.mayWait && dev.name != "hello-none" && dev.name != "id-none"
			var nc net.Conn
			var c *wire.Conn
			deviate := func() { // on nc
				c, _ = wire.Handshake(nc, d.self, o)
				nc.SetDeadline(time.Now().Add(core.Long))
				if dev.finding == "" {
					for _, f := range tries(c, rng) {
						nc.Write(f)
					}
				} else if c.AEAD != nil {
					nc.Write(wire.Frame(c.Seal(wire.Encode(wire.Msg{Data: []byte("unauthenticated message")}))))
				}
				if !stayOpen {
					if tc, ok := nc.(*net.TCPConn); ok {
						tc.CloseWrite()
					}
				}
			}
			var sent []byte
			closed := false
			var opErr error
			if !outbound {
				nc, err = net.Dial("tcp", loop(n))
				if err != nil {
					t.Violation("refused", "the node no longer accepts connections: %v", err)
					return
				}
				deviate()
				if dev.finding != "" {
					t.Await(time.Second, func() bool { return a.count("connected") > conn0 && len(a.messages()) > msgs0 })
					nc.Close()
				} else {
					sent, closed = closedByPeer(t, nc)
				}
			} else {
				l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
				if err != nil {
					t.Inconclusive("listen: %v", err)
					return
				}
				done := make(chan struct{})
				go func() {
					defer close(done)
					nc, err = l.Accept()
					if err != nil {
						return
					}
					deviate()
					if dev.finding != "" {
						t.Await(time.Second, func() bool { return a.count("connected") > conn0 && len(a.messages()) > msgs0 })
						nc.Close()
						return
					}
					sent, closed = closedByPeer(t, nc)
				}()
				ctx, cancel := ctxT(core.Long)
				secret := []byte("application secret")
				switch rng.Intn(3) {
				case 0:
					_, opErr = n.Ping(ctx, l.Addr().String())
				case 1:
					opErr = n.Send(ctx, l.Addr().String(), secret)
				default:
					_, opErr = n.Request(ctx, l.Addr().String(), secret)
				}
				cancel()
				if opErr == nil && dev.finding == "" {
					t.Violation("established", "%s: an operation towards a peer that deviates in %s succeeded", dir, dev.name)
				}
				<-done
				l.Close()
			}
			if nc != nil {
				nc.Close()
			}
			if dev.finding != "" {
				if a.count("connected") > conn0 || len(a.messages()) > msgs0 {
					t.Finding(dev.finding, "%s %s: a peer that sends the node's own proof of identity back to it is known under the node's own identity (%d connections, %d messages)",
						dir, dev.name, a.count("connected")-conn0, len(a.messages())-msgs0)
				}
				t.Await(core.Long, func() bool { return a.count("disconnected")-disc0 == a.count("connected")-conn0 })
				t.Case("%s/%s/%d", dir, dev.name, round)
				continue
			}
			if !closed {
				t.Violation("not-closed", "%s: the connection of a peer that deviates in %s stays open", dir, dev.name)
			}
			fs, _ := frames(sent)
			// What is left unread of the node's handshake frames may still be in there: at most its hello and its identity record.
			extra := 0
			for _, f := range fs {
				if len(f) == 96 || len(f) == 12+114+16 {
					continue
				}
				extra++
				if bytes.Contains(f, []byte("secret")) {
					t.Violation("leak", "%s: application data was sent in clear to a peer that deviates in %s", dir, dev.name)
				}
				if c != nil && c.AEAD != nil {
					if b, err := c.Open(f); err == nil {
						t.Violation("leak", "%s: a record was sent to a peer that deviates in %s: %s", dir, dev.name, short(b))
					}
				}
			}
			if extra > 0 {
				t.Violation("leak", "%s: %d more frames than those of the handshake were sent to a peer that deviates in %s", dir, extra, dev.name)
			}
			if got := a.count("connected") - conn0; got > 0 {
				t.Violation("established", "%s: a peer that deviates in %s was reported as connected", dir, dev.name)
			}
			if got := a.messages()[msgs0:]; len(got) > 0 {
				t.Violation("delivered", "%s: a message of a peer that deviates in %s reached the handlers: %s from %v", dir, dev.name, short(got[0].data), got[0].id)
			}
			if got := a.count("disconnected") - disc0; got > 0 {
				t.Violation("disconnected", "%s: a peer that deviates in %s was reported as disconnected", dir, dev.name)
			}
			t.Count("deviations refused", 1)
			t.Case("%s/%s/%d", dir, dev.name, round)
			t.Sample("%s %s: node closed the connection after %d bytes; error %v", dir, dev.name, len(sent), opErr)
		}
		// A late effect would show up here.
		time.Sleep(50 * time.Millisecond)
		for _, m := range a.messages() {
			if bytes.Contains(m.data, []byte("unauthenticated")) && m.id.ID != n.ID().ID {
				t.Violation("delivered", "%s: an unauthenticated message reached the handlers from %v", dir, m.id)
			}
		}
		if err := probe(loop(n), d.victim, t.Rand); err != nil {
			t.Violation("refused", "after the deviations a peer that follows the handshake is not served: %v", err)
		}
		old.Close()
		t.RunCleanups()
	}
}

// c01relay: two nodes through a relay that changes their handshake. Whoever received changed bytes must not establish
// the connection.
func c01relay(t *core.T) {
	t.Require("handshakes tampered with", 40)
	rounds := t.N(60, 1500)
	var a, b authMon
	na := mk(t, a.setup, noise.WithNodeMaxDialAttempts(1), noise.WithNodeIdleTimeout(2*time.Second))
	nb := mk(t, b.setup, noise.WithNodeIdleTimeout(2*time.Second))
	evil := wire.NewIdentity(7000)
	var prev [2][2][]byte // frames of an earlier handshake
	for round := 0; round < rounds; round++ {
		t.PerturbRound(round)
		rng := t.RNG("relay", round)
		dir, idx := rng.Intn(2), rng.Intn(2)
		kind := []string{"flip", "old", "eph", "truncate", "swap", "none"}[rng.Intn(6)]
		if kind == "old" && prev[dir][idx] == nil || kind == "eph" && idx != 0 {
			kind = "flip"
		}
		changed := false
		var mu sync.Mutex
		var seen [2][2][]byte
		r, err := wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), loop(nb))
		if err != nil {
			t.Inconclusive("relay: %v", err)
			return
		}
		r.OnFrame = func(l *wire.Link, d, i int, raw []byte) ([]byte, bool) {
			mu.Lock()
			defer mu.Unlock()
			if i < 2 {
				seen[d][i] = append([]byte{}, raw...)
			}
			if d != dir || i != idx {
				return raw, true
			}
			out := raw
			switch kind {
			case "flip":
				out = flip(raw, 32+rng.Intn(8*(len(raw)-4)))
			case "old":
				out = prev[d][i]
			case "eph":
				_, k, _ := ed25519.GenerateKey(rand.Reader)
				out = wire.Frame(append(append([]byte{}, k.Public().(ed25519.PublicKey)...), ed25519.Sign(k, []byte(wire.HandshakeText))...))
			case "truncate":
				n := rng.Intn(len(raw) - 4)
				out = append([]byte{}, raw[:4+n]...)
				binary.BigEndian.PutUint32(out, uint32(n))
			case "swap":
				m := evil.Marshal()
				out = wire.Frame(append(m, raw[4+50:]...))
				if i == 0 {
					k := evil.Pub()
					out = wire.Frame(append(k[:], raw[4+32:]...))
				}
			}
			changed = !bytes.Equal(out, raw)
			return out, true
		}
		r.Start()
		ca, cb := a.count("connected"), b.count("connected")
		ma, mb := len(a.messages()), len(b.messages())
		ctx, cancel := ctxT(core.Long)
		_, err = na.Ping(ctx, r.Addr())
		if err == nil {
			err = na.Send(ctx, r.Addr(), []byte("from a"))
		}
		cancel()
		mu.Lock()
		ch := changed
		mu.Unlock()
		if !ch {
			if err != nil {
				t.Violation("honest", "a handshake that nobody changed failed: %v", err)
			}
			t.Await(core.Long, func() bool { return len(b.messages()) > mb })
			mu.Lock()
			prev = seen
			mu.Unlock()
		} else {
			// The receiver of the changed frame is b for dir 0. A changed ephemeral key keeps both from completing.
			time.Sleep(2 * time.Millisecond)
			r.Close()
			if dir == 0 || idx == 0 {
				if b.count("connected") > cb && !(dir == 1 && idx == 1) {
					t.Violation("established", "a node established a connection although frame %d towards it or its peer was changed (%s, direction %d)", idx, kind, dir)
				}
				if len(b.messages()) > mb {
					t.Violation("delivered", "a message was delivered over a connection whose handshake was changed (%s, frame %d, direction %d)", kind, idx, dir)
				}
			}
			if dir == 1 || idx == 0 {
				if a.count("connected") > ca || err == nil {
					t.Violation("established", "the dialing node established a connection although frame %d was changed (%s, direction %d)", idx, kind, dir)
				}
			}
			if len(a.messages()) > ma {
				t.Violation("delivered", "a message was delivered over a connection whose handshake was changed")
			}
			t.Count("handshakes tampered with", 1)
		}
		r.Close()
		t.Case("relay/%s/%d/%d/%v", kind, dir, idx, ch)
		for _, e := range append(a.events(), b.events()...) {
			if e.kind == "connected" && e.id.ID != na.ID().ID && e.id.ID != nb.ID().ID {
				t.Violation("identity", "a connection was reported with identity %v, which neither node has", e.id)
			}
		}
		if !t.Await(core.Long, func() bool { return len(na.Outbound()) == 0 && len(nb.Inbound()) == 0 }) {
			t.Note("connections through the relay did not end")
		}
	}
}
