package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"net"
	"strconv"
	"sync"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C19",
		Rule:        "one case per identity that was encoded and decoded, or connection over which one was announced; distinct by scenario, host and its representation, port, kind of configuration and direction; non-trivial: all of them, as every identity has a key of its own",
		Assumptions: []string{"a missing host is the unspecified one", "hosts that are loopback or unspecified are left out of addresses"},
		Scenarios: []core.Scenario{
			{Name: "codec", Run: c19codec},
			{Name: "short", Run: c19short},
			{Name: "announce", Run: c19announce},
			{Name: "many", Run: c19many},
		},
	})
}

// c19hosts are hosts in various representations.
func c19hosts(rng *mrand.Rand) (l []net.IP) {
	v4 := net.IP{byte(1 + rng.Intn(223)), byte(rng.Intn(256)), byte(rng.Intn(256)), byte(rng.Intn(256))}
	v6 := make(net.IP, 16)
	rng.Read(v6)
	v6[0] = 0x20
	sparse := make(net.IP, 16)
	sparse[0], sparse[1], sparse[rng.Intn(16)] = 0xfd, byte(rng.Intn(2)), byte(rng.Intn(256))
	low := make(net.IP, 16) // almost an IPv4 host
	copy(low[12:], v4)
	low[rng.Intn(10)] = 1
	fixed := []string{"127.0.0.1", "127.9.8.7", "0.0.0.0", "255.255.255.255", "0.0.0.1", "::", "::1", "::2", "::ffff:0.0.0.0", "::ffff:127.0.0.1", "fe80::1", "ff02::1", "2001:db8::", "10.0.0.1", "192.168.255.0", "169.254.1.1", "224.0.0.1"}
	l = append(l, v4, v4.To16(), v6, sparse, low)
	for _, s := range fixed {
		ip := net.ParseIP(s)
		l = append(l, ip)
		if ip.To4() != nil {
			l = append(l, ip.To4())
		}
	}
	return append(l, net.IPv4zero, net.IPv6zero, net.IPv6loopback, net.IPv4(1, 2, 3, 4), nil)
}

// c19addr is the address that stands for a host and port.
func c19addr(host net.IP, port uint16) string {
	h := ""
	if host != nil && !host.IsLoopback() && !host.IsUnspecified() {
		h = host.String()
	}
	return net.JoinHostPort(h, strconv.Itoa(int(port)))
}

func sameHost(a, b net.IP) bool {
	if a == nil {
		a = net.IPv6zero
	}
	if b == nil {
		b = net.IPv6zero
	}
	return a.Equal(b)
}

func equalID(a, b noise.ID) bool {
	return a.ID == b.ID && sameHost(a.Host, b.Host) && a.Port == b.Port && a.Address == b.Address
}

func showID(id noise.ID) string {
	return fmt.Sprintf("{%x.. host %v (%d bytes) port %d address %q}", id.ID[:4], id.Host, len(id.Host), id.Port, id.Address)
}

func c19codec(t *core.T) {
	t.Require("identities encoded and decoded", 4000)
	size := -1
	for round := 0; round < t.N(200, 2000); round++ {
		rng := t.RNG("codec", round)
		for i, host := range c19hosts(rng) {
			for _, port := range []uint16{uint16(rng.Uint32()), []uint16{0, 1, 80, 255, 256, 65535, 32768}[rng.Intn(7)]} {
				var pub noise.PublicKey
				rng.Read(pub[:])
				if i%7 == 0 {
					pub = noise.PublicKey{}
				}
				given := append(net.IP{}, host...)
				if host == nil {
					given = nil
				}
				id := noise.NewID(pub, given, port)
				if id.ID != pub || id.Port != port || id.Address != c19addr(host, port) {
					t.Violation("newid", "NewID of host %v (%d bytes), port %d gives %s", host, len(host), port, showID(id))
				}
				var enc []byte
				if p := guarded(func() { enc = id.Marshal() }); p != nil {
					t.Violation("panic", "encoding %s panicked: %v", showID(id), p)
					continue
				}
				if size < 0 {
					size = len(enc)
				}
				if len(enc) != size || len(enc) != id.Size() {
					t.Violation("size", "%s is encoded into %d bytes, others into %d", showID(id), len(enc), size)
				}
				if want := wire.EncodeID(pub[:], host, port); !bytes.Equal(enc, want) {
					t.Violation("format", "%s is encoded as %x, should be %x", showID(id), enc, want)
				}
				buf := append([]byte{}, enc...)
				dec, err := noise.UnmarshalID(buf)
				if err != nil {
					t.Violation("decode", "decoding the encoding of %s fails: %v", showID(id), err)
					continue
				}
				rng.Read(buf) // what was decoded does not depend on the buffer any more
				if !equalID(dec, id) {
					t.Violation("roundtrip", "%s decodes to %s", showID(id), showID(dec))
				}
				if again := dec.Marshal(); !bytes.Equal(again, enc) {
					t.Violation("roundtrip", "%s is encoded as %x, and after decoding as %x", showID(id), enc, again)
				}
				if len(given) > 0 && !bytes.Equal(given, host) {
					t.Violation("clobbered", "encoding changed the host %v to %v", host, given)
				}
				// Followed by other data, as in the handshake.
				dec, err = noise.UnmarshalID(append(append([]byte{}, enc...), pub[:]...))
				if err != nil || !equalID(dec, id) {
					t.Violation("roundtrip", "%s followed by other data decodes to %s, %v", showID(id), showID(dec), err)
				}
				t.Count("identities encoded and decoded", 1)
				t.Case("codec/%v/%d/%d", host, len(host), port)
			}
		}
	}
}

func c19short(t *core.T) {
	t.Require("short inputs", 3000)
	for round := 0; round < t.N(60, 600); round++ {
		rng := t.RNG("short", round)
		hosts := c19hosts(rng)
		var pub noise.PublicKey
		rng.Read(pub[:])
		enc := noise.NewID(pub, hosts[rng.Intn(len(hosts))], uint16(rng.Uint32())).Marshal()
		for n := 0; n < len(enc); n++ {
			in := append(make([]byte, 0, 100), enc[:n]...) // with bytes behind it
			if n == 0 && round%2 == 0 {
				in = nil
			}
			var id noise.ID
			var err error
			if p := guarded(func() { id, err = noise.UnmarshalID(in) }); p != nil {
				t.Violation("panic", "decoding %d bytes panicked: %v", n, p)
			} else if err == nil {
				t.Violation("short", "decoding %d of %d bytes gives %s and no error", n, len(enc), showID(id))
			}
			t.Count("short inputs", 1)
			t.Case("short/%d/%d", n, round)
		}
		// Arbitrary bytes of sufficient length are some identity.
		in := make([]byte, len(enc)+rng.Intn(100))
		rng.Read(in)
		id, err := noise.UnmarshalID(in)
		if err != nil {
			t.Violation("decode", "decoding %d bytes fails: %v", len(in), err)
		} else if !bytes.Equal(id.ID[:], in[:32]) || !id.Host.Equal(net.IP(in[32:48])) || id.Port != binary.BigEndian.Uint16(in[48:]) || id.Address != c19addr(net.IP(in[32:48]), id.Port) {
			t.Violation("decode", "%x decodes to %s", in, showID(id))
		}
	}
}

type c19config struct {
	name   string
	listen bool
	opts   func(t *core.T, rng *mrand.Rand, priv noise.PrivateKey) (o []opt, addr string) // addr: the announced address ("": that which the node is bound to)
	dial   string                                                                         // host under which it is reached
}

func c19configs() []c19config {
	host := func(s string) func(*core.T, *mrand.Rand, noise.PrivateKey) ([]opt, string) {
		return func(*core.T, *mrand.Rand, noise.PrivateKey) ([]opt, string) {
			return opts(noise.WithNodeBindHost(net.ParseIP(s))), ""
		}
	}
	public := func(v6 bool) func(*core.T, *mrand.Rand, noise.PrivateKey) ([]opt, string) {
		return func(t *core.T, rng *mrand.Rand, priv noise.PrivateKey) ([]opt, string) {
			ip := net.IPv4(byte(1+rng.Intn(99)), byte(rng.Intn(256)), byte(rng.Intn(256)), byte(rng.Intn(256)))
			if v6 {
				ip = make(net.IP, 16)
				rng.Read(ip)
				ip[0], ip[1], ip[5], ip[6] = 0x20, 0x01, 0, 0
			}
			a := net.JoinHostPort(ip.String(), strconv.Itoa(1+rng.Intn(65535)))
			return opts(noise.WithNodeAddress(a)), a
		}
	}
	l := []c19config{
		{"default", true, func(*core.T, *mrand.Rand, noise.PrivateKey) ([]opt, string) { return nil, "" }, "127.0.0.1"},
		{"random port", true, func(*core.T, *mrand.Rand, noise.PrivateKey) ([]opt, string) {
			return opts(noise.WithNodeBindPort(0)), ""
		}, "127.0.0.1"},
		{"bound to 127.0.0.1", true, host("127.0.0.1"), "127.0.0.1"},
		{"bound to 0.0.0.0", true, host("0.0.0.0"), "127.0.0.1"},
		{"bound to ::", true, host("::"), "127.0.0.1"},
		{"public IPv4 address", true, public(false), "127.0.0.1"},
		{"public IPv6 address", true, public(true), "127.0.0.1"},
		{"public address, bound to a host", true, func(t *core.T, rng *mrand.Rand, priv noise.PrivateKey) ([]opt, string) {
			o, a := public(rng.Intn(2) == 0)(t, rng, priv)
			return append(o, noise.WithNodeBindHost(net.ParseIP("127.0.0.1"))), a
		}, "127.0.0.1"},
		{"configured identity", true, func(t *core.T, rng *mrand.Rand, priv noise.PrivateKey) ([]opt, string) {
			ip := net.IPv4(11, byte(rng.Intn(256)), 3, 4)
			if rng.Intn(2) == 0 {
				ip = ip.To4()
			}
			id := noise.NewID(priv.Public(), ip, uint16(1+rng.Intn(65535)))
			return opts(noise.WithNodeID(id)), id.Address
		}, "127.0.0.1"},
		{"not listening, host and port", false, func(t *core.T, rng *mrand.Rand, priv noise.PrivateKey) ([]opt, string) {
			ip := []net.IP{net.ParseIP("12.1.2.3"), net.ParseIP("12.1.2.3").To4(), net.ParseIP("127.0.0.1"), net.ParseIP("2001:db8::7")}[rng.Intn(4)]
			return opts(noise.WithNodeBindHost(ip), noise.WithNodeBindPort(777)), c19addr(ip, 777)
		}, ""},
		{"not listening, configured identity", false, func(t *core.T, rng *mrand.Rand, priv noise.PrivateKey) ([]opt, string) {
			id := noise.NewID(priv.Public(), net.ParseIP("13.1.2.3"), uint16(1+rng.Intn(65535)))
			return opts(noise.WithNodeID(id)), id.Address
		}, ""},
	}
	// Hosts of this machine.
	addrs, _ := net.InterfaceAddrs()
	for _, a := range addrs {
		if n, ok := a.(*net.IPNet); ok && !n.IP.IsLoopback() && !n.IP.IsLinkLocalUnicast() {
			if l, err := net.Listen("tcp", net.JoinHostPort(n.IP.String(), "0")); err == nil {
				l.Close()
			} else {
				continue
			}
			l = append(l, c19config{"bound to " + n.IP.String(), true, host(n.IP.String()), n.IP.String()})
		}
	}
	return l
}

// c19announce: nodes configured in various ways, and what their peers are told.
func c19announce(t *core.T) {
	t.Require("announcements compared", 80)
	configs := c19configs()
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		for ci, cfg := range configs {
			rng := t.RNG(cfg.name, round)
			_, priv, err := noise.GenerateKeys(nil)
			if err != nil {
				t.Inconclusive("keys: %v", err)
				continue
			}
			o, addr := cfg.opts(t, rng, priv)
			o = append(opts(noise.WithNodePrivateKey(priv)), o...)
			if rng.Intn(2) == 0 { // options may come in any order
				o = append(o[1:], o[0])
			}
			var n *noise.Node
			port := t.Port()
			if cfg.listen && addr != "" {
				o = append(o, noise.WithNodeBindPort(port))
			}
			if cfg.listen {
				n = mk(t, func(n *noise.Node) { n.Handle(echo) }, o...)
			} else {
				n = client(t, nil, o...)
			}
			id := n.ID()
			if id.ID != priv.Public() {
				t.Violation("own-key", "a node (%s) with the key %v reports the identity %s", cfg.name, priv.Public(), showID(id))
			}
			at := ""
			if cfg.listen {
				if addr == "" {
					_, p, _ := net.SplitHostPort(n.Addr())
					port, _ := strconv.Atoi(p)
					at = net.JoinHostPort(cfg.dial, p)
					h := net.ParseIP(cfg.dial)
					if cfg.dial == "127.0.0.1" {
						h = nil
					}
					addr = c19addr(h, uint16(port))
					if n.Addr() != addr {
						t.Violation("own-address", "a node (%s) reports the address %q, should be %q", cfg.name, n.Addr(), addr)
					}
					if id.Port != uint16(port) || port == 0 {
						t.Violation("own-address", "a node (%s) listens on port %d, but reports %s", cfg.name, port, showID(id))
					}
				} else {
					at = net.JoinHostPort(cfg.dial, strconv.Itoa(int(port)))
					if n.Addr() != addr {
						t.Violation("own-address", "a node (%s) configured with the address %q reports %q", cfg.name, addr, n.Addr())
					}
				}
			}
			if id.Address != addr {
				t.Violation("own-address", "a node (%s) that should announce %q reports the identity %s", cfg.name, addr, showID(id))
			}
			judge := func(how string, got noise.ID) {
				if !equalID(got, id) {
					t.Violation("announced", "a node (%s) reports the identity %s, but announces %s (%s)", cfg.name, showID(id), showID(got), how)
				}
				t.Count("announcements compared", 1)
				t.Case("announce/%s/%s/%d", cfg.name, how, round)
			}
			raw := func(how string, c *wire.Conn) {
				var id noise.ID
				copy(id.ID[:], c.Peer.ID.Pub[:])
				id.Host, id.Port = c.Peer.ID.Host, c.Peer.ID.Port
				id.Address = c19addr(id.Host, id.Port)
				judge(how, id)
			}
			if cfg.listen {
				c, err := wire.Dial(at, wire.NewIdentity(4209), &wire.Options{Timeout: core.Long})
				if err != nil {
					t.Inconclusive("%s: connecting to %s: %v", cfg.name, at, err)
				} else {
					raw("to a reference peer that dials", c)
					c.Close()
				}
				m := newMon()
				other := mk(t, func(x *noise.Node) { x.Bind(m.protocol()) })
				ctx, cancel := ctxT(core.Long)
				if cl, err := other.Ping(ctx, at); err != nil {
					t.Inconclusive("%s: ping %s: %v", cfg.name, at, err)
				} else {
					judge("to a node that dials", cl.ID())
					for _, e := range m.events() {
						if e.kind == "connected" {
							judge("to a node that dials, in its callback", e.id)
						}
					}
				}
				cancel()
			}
			c, _, err := peerOf(t, n, true)
			if err != nil {
				t.Inconclusive("%s: %v", cfg.name, err)
			} else {
				raw("to a reference peer that is dialed", c)
				c.Close()
			}
			m := newMon()
			seen := make(chan noise.ID, 4)
			other := mk(t, func(x *noise.Node) {
				x.Bind(m.protocol())
				x.Handle(func(ctx noise.HandlerContext) error { seen <- ctx.ID(); return nil })
			})
			ctx, cancel := ctxT(core.Long)
			if err := n.Send(ctx, loop(other), []byte("hi")); err != nil {
				t.Inconclusive("%s: send: %v", cfg.name, err)
			} else if t.Await(core.Long, func() bool { return len(seen) > 0 }) {
				judge("to a node that is dialed, in its handler", <-seen)
				for _, cl := range other.Inbound() {
					judge("to a node that is dialed", cl.ID())
				}
			}
			for _, cl := range n.Outbound() {
				if cl.ID().ID == other.ID().ID && !equalID(cl.ID(), other.ID()) {
					t.Violation("announced", "a node reports the identity %s, but announced %s", showID(other.ID()), showID(cl.ID()))
				}
			}
			cancel()
			if ci == 5 && round == 0 {
				t.Sample("%s: reports and announces %s", cfg.name, showID(id))
			}
			t.RunCleanups()
		}
	}
}

// c19many: many peers at once are told apart.
func c19many(t *core.T) {
	t.Require("identities told apart", 200)
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		m := newMon()
		var mu sync.Mutex
		handled := map[string]noise.ID{}
		n := mk(t, func(n *noise.Node) {
			n.Bind(m.protocol())
			n.Handle(func(ctx noise.HandlerContext) error {
				mu.Lock()
				handled[string(ctx.Data())] = ctx.ID()
				mu.Unlock()
				return nil
			})
		})
		const k = 40
		ids := make([]*wire.Identity, k)
		rng := t.RNG("many", round)
		for i := range ids {
			hosts := c19hosts(rng)
			ids[i] = wire.NewIdentity(uint16(rng.Uint32()))
			ids[i].Host = hosts[rng.Intn(len(hosts)-1)]
		}
		cs := make([]*wire.Conn, k)
		par(k, func(i int) {
			c, err := wire.Dial(loop(n), ids[i], &wire.Options{Timeout: core.Long})
			if err != nil {
				t.Inconclusive("connecting: %v", err)
				return
			}
			cs[i] = c
			c.Send(wire.Msg{Data: []byte(fmt.Sprint("peer ", i))})
			if got := c.Peer.ID; [32]byte(n.ID().ID) != got.Pub || !got.Host.Equal(n.ID().Host) || got.Port != n.ID().Port {
				t.Violation("announced", "one of many peers is told the identity %+v, should be %s", got, showID(n.ID()))
			}
		})
		t.Await(core.Long, func() bool { mu.Lock(); defer mu.Unlock(); return len(handled) == k })
		for i, c := range cs {
			if c == nil {
				continue
			}
			want := noise.NewID(noise.PublicKey(ids[i].Pub()), ids[i].Host, ids[i].Port)
			mu.Lock()
			got, ok := handled[fmt.Sprint("peer ", i)]
			mu.Unlock()
			if !ok || !equalID(got, want) {
				t.Violation("mixed-up", "a peer announced %s, but its message is attributed to %s (handled: %v)", showID(want), showID(got), ok)
			}
			if cl := clientOf(t, m, ids[i].Pub()); cl == nil || !equalID(cl.ID(), want) {
				t.Violation("mixed-up", "a peer announced %s, but its connection says otherwise", showID(want))
			}
			t.Count("identities told apart", 1)
			t.Case("many/%v/%d/%d", ids[i].Host, len(ids[i].Host), ids[i].Port)
			c.Close()
		}
		t.RunCleanups()
	}
}
