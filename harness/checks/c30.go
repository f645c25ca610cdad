package checks

import (
	"context"
	"fmt"
	mrand "math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"
	"github.com/perlin-network/noise/kademlia"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:   "C30",
		Rule: "one case per connection, dial or batch of traffic; distinct by scenario, direction and how it ended; non-trivial: all connections of its batch had ended at both ends before goroutines, sockets, pools and heap were looked at",
		Assumptions: []string{"a batch is given 20 s to settle", "what a connection keeps while it lives, and what the overlay and gossip remember on purpose within their bounds, is not a leak",
			"memory leaks of less than one object in four operations and 6 bytes per operation are not seen"},
		Scenarios: []core.Scenario{
			{Name: "inbound", Run: c30inbound},
			{Name: "outbound", Run: c30outbound},
			{Name: "dials", Run: c30dials},
			{Name: "evicted", Run: c30evicted},
			{Name: "nodes", Run: c30nodes},
			{Name: "mixed", Run: c30mixed},
			{Name: "traffic", Run: c30traffic},
			{Name: "connections", Run: c30connections, Timeout: 240 * time.Second},
			{Name: "protocols", Run: c30protocols, Timeout: 240 * time.Second},
		},
	})
}

// c30left checks that nothing is left of connections that have ended.
func c30left(t *core.T, what string, goroutines, socks int, ns ...*noise.Node) bool {
	pools := func() (in, out int) {
		for _, n := range ns {
			in, out = in+len(n.Inbound()), out+len(n.Outbound())
		}
		return
	}
	if !t.Await(core.Long, func() bool { in, out := pools(); return in == 0 && out == 0 }) {
		in, out := pools()
		t.Violation("left-entry", "%s: %d inbound and %d outbound connections that have ended are still in the pools", what, in, out)
		return false
	}
	if !t.Await(core.Long, func() bool { return len(core.LibStacks()) <= goroutines }) {
		t.Violation("left-goroutine", "%s: %d goroutines are left, there were %d before\n%s", what, len(core.LibStacks()), goroutines, core.LibDump(20))
		return false
	}
	if !t.Await(core.Long, func() bool { return core.Sockets() <= socks }) {
		t.Violation("left-socket", "%s: %d sockets are left, there were %d before", what, core.Sockets(), socks)
		return false
	}
	t.Count("times all was looked at", 1)
	return true
}

// tell the node's handler what to do with a message
const (
	c30fail = 'F' // return an error
	c30mute = 'M' // do not respond
)

func c30handler(ctx noise.HandlerContext) error {
	d := ctx.Data()
	if len(d) > 0 && d[0] == c30fail {
		return errC30
	}
	if len(d) > 0 && d[0] == c30mute {
		return nil
	}
	return echoUnknown(ctx)
}

var errC30 = fmt.Errorf("as told")

const c30kinds = 17

// c30peer acts as the other end of nc, and closes it.
func c30peer(t *core.T, rng *mrand.Rand, nc net.Conn, id *wire.Identity, kind int) {
	defer func() {
		if rng.Intn(3) == 0 {
			nc.(*net.TCPConn).SetLinger(0)
		}
		nc.Close()
	}()
	until := func() { // the node closes
		if _, closed := closedByPeer(t, nc); !closed {
			t.Violation("left-open", "a node with an idle timeout does not close a connection (kind %d)", kind)
		}
	}
	o := &wire.Options{Timeout: core.Long}
	switch kind {
	case 0:
		return
	case 1:
		b := make([]byte, 1+rng.Intn(300))
		rng.Read(b)
		nc.Write(b)
		if rng.Intn(2) == 0 {
			until()
		}
		return
	case 2, 3:
		o.Stop = 1 + rng.Intn(3)
		wire.Handshake(nc, id, o)
		if kind == 3 {
			until()
		}
		return
	case 4:
		o.IDBody = func(_ *wire.Conn, b []byte) []byte { return flip(b, rng.Intn(8*len(b))) }
		wire.Handshake(nc, id, o)
		until()
		return
	case 5:
		o.Hello = func(_ *wire.Conn, b []byte) []byte { return flip(b, rng.Intn(8*len(b))) }
		wire.Handshake(nc, id, o)
		until()
		return
	}
	c, err := wire.Handshake(nc, id, o)
	if err != nil {
		return
	}
	t.Count("connections that were established", 1)
	for i := rng.Intn(3); i > 0; i-- {
		c.Send(wire.Msg{Nonce: uint64(i), Data: payload('p', 1, uint32(i), rng.Intn(3000))})
	}
	switch kind {
	case 6:
	case 7:
		rec := wire.Frame(c.Seal(wire.Encode(wire.Msg{Data: payload('p', 1, 1, 500)})))
		nc.Write(rec[:1+rng.Intn(len(rec)-1)])
	case 8:
		nc.Write(badFrame(16 << 20))
		until()
	case 9:
		rec := c.Seal(wire.Encode(wire.Msg{Data: payload('p', 1, 1, 50)}))
		c.WriteRecord(flip(rec, rng.Intn(8*len(rec))))
		until()
	case 10:
		c.Send(wire.Msg{Nonce: uint64(rng.Intn(2)), Data: []byte{c30fail}})
		until()
	case 11:
		until() // idle
	case 12:
		nc.(*net.TCPConn).CloseWrite()
		until()
	case 13:
		c.WriteRecord(c.Seal([]byte("short")))
		until()
	case 14: // requests that it does not answer
		time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
	default: // answers everything
		for {
			m, err := c.Recv()
			if err != nil {
				return
			}
			if m.Nonce > 0 {
				c.Send(wire.Msg{Nonce: m.Nonce, Data: echoOf(m.Data)})
			}
			if kind == 16 && rng.Intn(4) == 0 {
				return
			}
		}
	}
}

// c30host accepts connections and does as told with each.
type c30host struct {
	addr string
	open atomic.Int64
	n    atomic.Int64
	l    net.Listener
}

func newC30host(t *core.T, on func(nc net.Conn, id *wire.Identity, k int)) *c30host {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
	if err != nil {
		panic(err)
	}
	h := &c30host{addr: l.Addr().String(), l: l}
	id := wire.NewIdentity(uint16(portOf(h.addr)))
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			h.open.Add(1)
			go func() {
				defer h.open.Add(-1)
				on(nc, id, int(h.n.Add(1)))
			}()
		}
	}()
	return h
}

func c30node(t *core.T, f *full, o ...opt) *noise.Node {
	return mk(t, func(n *noise.Node) {
		n.Handle(c30handler)
		f.k = kademlia.New(kademlia.WithProtocolPingTimeout(100 * time.Millisecond))
		f.g = gossip.New(f.k)
		n.Bind(f.k.Protocol(), f.g.Protocol())
		f.n = n
	}, append(opts(noise.WithNodeIdleTimeout(300*time.Millisecond), noise.WithNodeNumWorkers(3)), o...)...)
}

// c30inbound: peers connect and leave in every way, batch after batch.
func c30inbound(t *core.T) {
	t.Require("connections", 300)
	t.Require("connections that were established", 120)
	t.Require("times all was looked at", 5)
	f := &full{}
	n := c30node(t, f)
	g0, s0 := len(core.LibStacks()), core.Sockets()
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		if round%2 == 1 { // the node itself closes some
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := t.RNG("closer", round)
				for {
					select {
					case <-stop:
						return
					case <-time.After(3 * time.Millisecond):
					}
					if cs := n.Inbound(); len(cs) > 0 {
						cs[rng.Intn(len(cs))].Close()
					}
				}
			}()
		}
		ok := t.Do(4*core.Long, func() {
			par(16, func(i int) {
				rng := t.RNG("inbound", round*16+i)
				for j := 0; j < 4; j++ {
					kind := (i*4 + j + round) % c30kinds
					nc, err := net.Dial("tcp", loop(n))
					if err != nil {
						t.Inconclusive("%v", err)
						return
					}
					c30peer(t, rng, nc, wire.NewIdentity(uint16(1024+rng.Intn(60000))), kind)
					t.Count("connections", 1)
					t.Case("inbound/%d/%v", kind, round%2)
				}
			})
		})
		close(stop)
		wg.Wait()
		if !ok {
			t.Violation("left-open", "connections are not closed\n%s", core.LibDump(30))
			return
		}
		if !c30left(t, "inbound", g0, s0, n) {
			return
		}
	}
}

// c30op is one operation of n towards addr.
func c30op(n *noise.Node, f *full, ctx context.Context, addr string, rng *mrand.Rand) {
	switch rng.Intn(5) {
	case 0:
		if c, err := n.Ping(ctx, addr); err == nil && rng.Intn(2) == 0 {
			c.Close()
		}
	case 1:
		n.Send(ctx, addr, payload('o', 1, 1, rng.Intn(4000)))
	case 2:
		if f != nil {
			f.k.Ping(ctx, addr)
			return
		}
		fallthrough
	case 3:
		n.SendMessage(ctx, addr, gossip.Message(payload('o', 1, 2, 30)))
	default:
		n.Request(ctx, addr, payload('o', 1, 1, rng.Intn(4000)))
	}
}

// c30outbound: a node connects to peers of every kind.
func c30outbound(t *core.T) {
	t.Require("operations", 300)
	t.Require("connections", 200)
	t.Require("times all was looked at", 4)
	f := &full{}
	n := c30node(t, f, noise.WithNodeMaxDialAttempts(2))
	var hosts []*c30host
	for i := 0; i < c30kinds; i++ {
		i := i
		hosts = append(hosts, newC30host(t, func(nc net.Conn, id *wire.Identity, k int) {
			c30peer(t, t.RNG("host", i*10000+k), nc, id, i)
			t.Count("connections", 1)
		}))
	}
	g0, s0 := len(core.LibStacks()), core.Sockets()
	for round := 0; round < t.N(5, 50); round++ {
		t.PerturbRound(round)
		if !t.Do(5*core.Long, func() {
			par(2*len(hosts), func(i int) {
				rng := t.RNG("outbound", round*100+i)
				for j := 0; j < 3; j++ {
					var ctx context.Context
					var cancel context.CancelFunc
					var how string
					if rng.Intn(2) == 0 {
						ctx, cancel, how = doomed(rng, 60*time.Millisecond)
					} else {
						how = "patient"
						ctx, cancel = ctxT(800 * time.Millisecond)
					}
					c30op(n, f, ctx, hosts[i%len(hosts)].addr, rng)
					cancel()
					t.Count("operations", 1)
					t.Case("outbound/%d/%s", i%len(hosts), how)
				}
			})
		}) {
			t.Violation("stuck", "operations do not end\n%s", core.LibDump(30))
			return
		}
		if round%2 == 1 { // what is idle ends anyway, but also if it is closed
			for _, c := range n.Outbound() {
				c.Close()
			}
		}
		if !c30left(t, "outbound", g0, s0, n) {
			return
		}
	}
}

// c30dials: dials that come to nothing, at every stage, without an idle timeout that would clean up.
func c30dials(t *core.T) {
	t.Require("dials", 400)
	t.Require("times all was looked at", 4)
	hole, err := blackhole(t)
	if err != nil {
		t.Inconclusive("no address that does not answer: %v", err)
		return
	}
	n := mk(t, func(n *noise.Node) { n.Handle(c30handler) }, noise.WithNodeMaxDialAttempts(2))
	m := client(t, func(n *noise.Node) {}, noise.WithNodeMaxDialAttempts(3))
	targets := map[string]string{"nobody": fmt.Sprintf("127.0.0.1:%d", t.Port()), "nowhere": hole, "no address": "::::", "no port": "127.0.0.1",
		"bad port": "127.0.0.1:99999", "no name": "name.invalid:80", "empty": ""}
	var hosts []*c30host
	for k := 0; k < 3; k++ { // silent at every step of the handshake
		k := k
		h := newC30host(t, func(nc net.Conn, id *wire.Identity, _ int) {
			if k > 0 {
				wire.Handshake(nc, id, &wire.Options{Stop: k, Timeout: 2 * core.Long})
			}
			if _, closed := closedByPeer(t, nc); !closed {
				t.Violation("left-open", "a connection whose handshake nobody waits for any longer is not closed (step %d)", k)
			}
			nc.Close()
		})
		hosts = append(hosts, h)
		targets[fmt.Sprint("silent after ", k)] = h.addr
	}
	h := newC30host(t, func(nc net.Conn, id *wire.Identity, _ int) { nc.(*net.TCPConn).SetLinger(0); nc.Close() })
	targets["reset"] = h.addr
	g0, s0 := len(core.LibStacks()), core.Sockets()
	names := sortedNames(targets)
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		if !t.Do(5*core.Long, func() {
			par(3*len(names), func(i int) {
				rng := t.RNG("dials", round*100+i)
				name := names[i%len(names)]
				x := n
				if i%2 == 0 {
					x = m
				}
				for j := 0; j < 3; j++ {
					ctx, cancel, how := doomed(rng, 40*time.Millisecond)
					c30op(x, nil, ctx, targets[name], rng)
					cancel()
					t.Count("dials", 1)
					t.Case("dials/%s/%s", name, how)
				}
			})
		}) {
			t.Violation("stuck", "dials do not end\n%s", core.LibDump(30))
			return
		}
		if !c30left(t, "dials that came to nothing", g0, s0, n, m) {
			return
		}
	}
}

func sortedNames(m map[string]string) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

// c30evicted: pools that are always full. What is evicted is released while the others go on.
func c30evicted(t *core.T) {
	t.Require("evicted", 150)
	t.Require("times all was looked at", 6)
	for round := 0; round < t.N(4, 40); round++ {
		t.PerturbRound(round)
		rng := t.RNG("evicted", round)
		k := 1 + rng.Intn(4)
		n := mk(t, func(n *noise.Node) { n.Handle(c30handler) }, boundBoth(k)...)
		var hosts []*c30host
		for i := 0; i < 10; i++ {
			i := i
			hosts = append(hosts, newC30host(t, func(nc net.Conn, id *wire.Identity, j int) { c30peer(t, t.RNG("host", i*1000+j), nc, id, 15) }))
		}
		g0, s0 := len(core.LibStacks()), core.Sockets()
		before, connected := 0, 0
		var mu sync.Mutex
		var peers []net.Conn
		for batch := 0; batch < t.N(3, 8); batch++ {
			if !t.Do(4*core.Long, func() {
				par(8, func(i int) {
					rng := t.RNG("evict", round*100+batch*10+i)
					for j := 0; j < 6; j++ {
						if i%2 == 0 {
							ctx, cancel := ctxT(core.Long)
							c30op(n, nil, ctx, hosts[rng.Intn(len(hosts))].addr, rng)
							cancel()
							t.Case("evicted/out/%d", k)
							continue
						}
						nc, err := net.Dial("tcp", loop(n))
						if err != nil {
							t.Inconclusive("%v", err)
							return
						}
						mu.Lock()
						peers = append(peers, nc)
						connected++
						mu.Unlock()
						go c30peer(t, fork(rng), nc, wire.NewIdentity(7), 15)
						t.Case("evicted/in/%d", k)
					}
				})
			}) {
				t.Violation("stuck", "operations do not end\n%s", core.LibDump(30))
				return
			}
			// Each connection that is in a pool may have a few goroutines, and has a socket at either end.
			most := 2 * k
			if !t.Await(core.Long, func() bool {
				return len(core.LibStacks()) <= g0+4*most && core.Sockets() <= s0+2*most && len(n.Inbound()) <= k && len(n.Outbound()) <= k
			}) {
				t.Violation("left-evicted", "with pools of %d, %d goroutines and %d sockets are left (before: %d, %d), %d and %d connections are in the pools\n%s",
					k, len(core.LibStacks()), core.Sockets(), g0, s0, len(n.Inbound()), len(n.Outbound()), core.LibDump(30))
				return
			}
			t.Count("times all was looked at", 1)
		}
		for _, h := range hosts {
			before += int(h.n.Load())
		}
		t.Count("evicted", before+connected-2*k)
		for _, nc := range peers {
			nc.Close()
		}
		for _, c := range n.Outbound() {
			c.Close()
		}
		if !c30left(t, "full pools", g0, s0, n) {
			return
		}
		t.RunCleanups()
	}
}

func fork(rng *mrand.Rand) *mrand.Rand { return mrand.New(mrand.NewSource(rng.Int63())) }

// c30nodes: nodes among themselves, whose connections end at either end, or at both at once; some nodes are closed and
// replaced.
func c30nodes(t *core.T) {
	t.Require("operations", 300)
	t.Require("nodes closed", 8)
	t.Require("times all was looked at", 4)
	a, b := &full{}, &full{}
	na, nb := c30node(t, a, noise.WithNodeIdleTimeout(0)), c30node(t, b, noise.WithNodeIdleTimeout(0))
	g0, s0 := len(core.LibStacks()), core.Sockets()
	for round := 0; round < t.N(5, 50); round++ {
		t.PerturbRound(round)
		var third atomic.Pointer[noise.Node]
		f := &full{}
		third.Store(c30node(t, f))
		var mu sync.Mutex // of who replaces the third
		stop := make(chan struct{})
		var closer sync.WaitGroup
		closer.Add(1)
		go func() {
			defer closer.Done()
			rng := t.RNG("closer", round)
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(rng.Intn(6)) * time.Millisecond):
				}
				for _, n := range []*noise.Node{na, nb} {
					l := append(n.Inbound(), n.Outbound()...)
					if len(l) > 0 && rng.Intn(2) == 0 {
						l[rng.Intn(len(l))].Close()
					}
				}
				if rng.Intn(12) == 0 {
					mu.Lock()
					old := third.Load()
					shut(t, old)
					third.Store(c30node(t, &full{}))
					t.Count("nodes closed", 1)
					mu.Unlock()
				}
			}
		}()
		ok := t.Do(5*core.Long, func() {
			par(12, func(i int) {
				rng := t.RNG("nodes", round*12+i)
				for j := 0; j < t.N(10, 14); j++ {
					from, ff, to := na, a, nb
					if i%2 == 1 {
						from, ff, to = nb, b, na
					}
					if i%4 >= 2 {
						to = third.Load()
					}
					var ctx context.Context
					var cancel context.CancelFunc
					if rng.Intn(3) == 0 {
						ctx, cancel, _ = doomed(rng, 10*time.Millisecond)
					} else {
						ctx, cancel = ctxT(2 * time.Second)
					}
					if rng.Intn(6) == 0 {
						from.Send(ctx, to.Addr(), []byte{c30fail})
					} else {
						c30op(from, ff, ctx, to.Addr(), rng)
					}
					cancel()
					t.Count("operations", 1)
					t.Case("nodes/%d/%d", i%4, j)
				}
			})
		})
		close(stop)
		closer.Wait()
		if !ok {
			t.Violation("stuck", "operations do not end\n%s", core.LibDump(30))
			return
		}
		shut(t, third.Load())
		t.Count("nodes closed", 1)
		for _, n := range []*noise.Node{na, nb} {
			for _, c := range n.Outbound() {
				c.Close()
			}
		}
		if !c30left(t, "between nodes", g0, s0, na, nb) {
			return
		}
	}
}

// c30mixed: everything at once, with full pools.
func c30mixed(t *core.T) {
	t.Require("operations", 250)
	t.Require("connections", 400)
	t.Require("times all was looked at", 3)
	f := &full{}
	n := c30node(t, f, append(boundBoth(6), noise.WithNodeMaxDialAttempts(2))...)
	var hosts []*c30host
	for i := 0; i < c30kinds; i++ {
		i := i
		hosts = append(hosts, newC30host(t, func(nc net.Conn, id *wire.Identity, k int) {
			c30peer(t, t.RNG("host", i*10000+k), nc, id, (i+k)%c30kinds)
			t.Count("connections", 1)
		}))
	}
	g0, s0 := len(core.LibStacks()), core.Sockets()
	for round := 0; round < t.N(3, 40); round++ {
		t.PerturbRound(round + 1)
		if !t.Do(5*core.Long, func() {
			par(24, func(i int) {
				rng := t.RNG("mixed", round*100+i)
				for j := 0; j < 8; j++ {
					if i%2 == 0 {
						nc, err := net.Dial("tcp", loop(n))
						if err != nil {
							t.Inconclusive("%v", err)
							return
						}
						c30peer(t, rng, nc, wire.NewIdentity(uint16(1024+rng.Intn(60000))), rng.Intn(c30kinds))
						t.Count("connections", 1)
						continue
					}
					ctx, cancel, how := doomed(rng, 100*time.Millisecond)
					c30op(n, f, ctx, hosts[rng.Intn(len(hosts))].addr, rng)
					cancel()
					t.Count("operations", 1)
					t.Case("mixed/%s", how)
				}
			})
		}) {
			t.Violation("stuck", "operations do not end\n%s", core.LibDump(30))
			return
		}
		if !c30left(t, "mixed", g0, s0, n) {
			return
		}
	}
	if err := probe(loop(n), wire.NewIdentity(1), t.Rand); err != nil {
		t.Inconclusive("the node does not serve any longer, which is the subject of C05: %v", err)
	}
}

// heap is what is held, after everything that can be is released.
func heap() (objects, bytes int64) {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapObjects), int64(m.HeapAlloc)
}

// growing repeats a batch of n operations, and reports if each leaves a goroutine behind for 16 operations, or makes the
// heap grow by at least one object in four operations, or perOp bytes for each; where perOp is small, also if all together do.
func growing(t *core.T, what string, n int, perOp int64, batch func(b int) bool) {
	// The runtime keeps up to 128 objects of its own for each processor, which it makes as they are needed: there are
	// batches enough for that to come to an end.
	times := min(max(4, 6400/n), 20)
	start := time.Now()
	if !batch(0) {
		return
	}
	objects, bytes := heap()
	minO, minB, minG := int64(1)<<60, int64(1)<<60, int64(1)<<60
	running := int64(runtime.NumGoroutine())
	var sumO, sumB int64
	for b := 1; b <= times; b++ {
		if !batch(b) {
			return
		}
		var o, y, g int64
		for try := 0; try < 20 && (b <= 4 || try < 4); try++ { // what the last operations still hold
			o, y = heap()
			g = int64(runtime.NumGoroutine())
			if o-objects < int64(n)/4 && y-bytes < perOp*int64(n) && g-running < int64(n)/16 {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		minO, minB = min(minO, o-objects), min(minB, y-bytes)
		sumO, sumB = sumO+o-objects, sumB+y-bytes
		minG = min(minG, g-running)
		objects, bytes, running = o, y, g
		if minO < int64(n)/4 && minB < perOp*int64(n) && minG < int64(n)/16 && perOp > 8 {
			break
		}
	}
	t.Count("batches", 1)
	t.Count("operations", n)
	t.Case("memory/%s", what)
	t.Sample("%s: %d operations: %+d objects and %+d bytes at least, %v", what, n, minO, minB, time.Since(start))
	if minG >= int64(n)/16 {
		t.Violation("goroutines", "%s: every %d operations leave at least %d goroutines behind\n%s", what, n, minG, core.LibDump(10))
	}
	if minO >= int64(n)/4 || minB >= perOp*int64(n) || perOp <= 8 && (sumO >= int64(n) || sumB >= int64(times)*perOp*int64(n)) {
		t.Violation("grows", "%s: every %d operations leave at least %d objects and %d bytes behind (%d and %d in %d batches)", what, n, minO, minB, sumO, sumB, times)
	}
}

// c30traffic: traffic and requests on connections that live on.
func c30traffic(t *core.T) {
	t.Require("batches", 6)
	t.Perturb(1)
	a, b := &full{}, &full{}
	na, nb := c30node(t, a, noise.WithNodeIdleTimeout(0)), c30node(t, b, noise.WithNodeIdleTimeout(0))
	n := t.N(6000, 30000)
	failed := func(err error) bool {
		if err != nil {
			t.Inconclusive("traffic fails: %v", err)
		}
		return err != nil
	}
	both := func(ops int, f func(from, to *noise.Node, i, j int) error) func(int) bool {
		return func(int) (ok bool) {
			ok = true
			var bad atomic.Bool
			par(8, func(i int) {
				from, to := na, nb
				if i%2 == 1 {
					from, to = nb, na
				}
				for j := 0; j < ops/8 && !bad.Load(); j++ {
					if failed(f(from, to, i, j)) {
						bad.Store(true)
					}
				}
			})
			return !bad.Load()
		}
	}
	request := func(from, to *noise.Node, data []byte) error {
		ctx, cancel := ctxT(core.Long)
		defer cancel()
		_, err := from.Request(ctx, to.Addr(), data)
		return err
	}
	growing(t, "requests", n, 6, both(n, func(from, to *noise.Node, i, j int) error {
		return request(from, to, payload('r', 1, uint32(j), 40+j%100))
	}))
	growing(t, "large requests", n/10, 1000, both(n/10, func(from, to *noise.Node, i, j int) error {
		return request(from, to, payload('r', 1, uint32(j), 60000))
	}))
	growing(t, "messages", n, 6, func(x int) bool {
		return both(n, func(from, to *noise.Node, i, j int) error {
			if j%200 == 0 {
				return request(from, to, payload('r', 1, 1, 40))
			}
			return from.Send(bg, to.Addr(), payload('r', 2, uint32(j), 40))
		})(x) && both(8, func(from, to *noise.Node, i, j int) error { return request(from, to, payload('r', 1, 1, 40)) })(x)
	})
	growing(t, "pings", n, 6, both(n, func(from, to *noise.Node, i, j int) error { _, err := from.Ping(bg, to.Addr()); return err }))
	// Requests that are abandoned, but answered nevertheless. All have been once a request after them has been.
	growing(t, "requests that were abandoned and answered", n/2, 6, func(x int) bool {
		return both(n/2, func(from, to *noise.Node, i, j int) error {
			if j%40 == 39 {
				return request(from, to, payload('r', 1, 1, 40))
			}
			ctx, cancel := context.WithCancel(bg)
			if j%2 == 0 {
				time.AfterFunc(20*time.Microsecond, cancel)
			} else {
				cancel()
			}
			from.Request(ctx, to.Addr(), payload('r', 1, 1, 40))
			cancel()
			return nil
		})(x) && both(80, func(from, to *noise.Node, i, j int) error {
			err := request(from, to, payload('r', 1, 1, 40))
			time.Sleep(time.Millisecond)
			return err
		})(x)
	})
	growing(t, "registered messages", n, 6, both(n, func(from, to *noise.Node, i, j int) error {
		ctx, cancel := ctxT(core.Long)
		defer cancel()
		_, err := from.RequestMessage(ctx, to.Addr(), kademlia.Ping{})
		return err
	}))
	growing(t, "encoding", 2*n, 6, both(2*n, func(from, to *noise.Node, i, j int) error {
		d, err := from.EncodeMessage(gossip.Message("abc"))
		if err == nil {
			_, err = to.DecodeMessage(d)
		}
		return err
	}))
}

// c30connections: connections of all kinds.
func c30connections(t *core.T) {
	t.Require("batches", 6)
	t.Perturb(1)
	f := &full{}
	n := c30node(t, f)
	hosts := []*c30host{}
	for i := 0; i < c30kinds; i++ {
		i := i
		hosts = append(hosts, newC30host(t, func(nc net.Conn, id *wire.Identity, k int) {
			c30peer(t, fork(mrand.New(mrand.NewSource(int64(k)))), nc, id, i)
		}))
	}
	plain := mk(t, func(n *noise.Node) { n.Handle(c30handler) }, noise.WithNodeMaxDialAttempts(1))
	other := mk(t, func(n *noise.Node) { n.Handle(c30handler) })
	g0, s0 := len(core.LibStacks()), core.Sockets()
	ops := t.N(250, 2000)
	quiet := func(what string) bool { return c30left(t, what, g0, s0, n, plain, other) }
	known := make([]*wire.Identity, 60) // by then as many of them are in the table as ever will
	for i := range known {
		known[i] = wire.NewIdentity(uint16(1024 + t.RNG("known", i).Intn(60000)))
	}
	in := func(fresh bool, kinds ...int) func(int) bool {
		return func(b int) bool {
			par(10, func(i int) {
				rng := t.RNG("in", b*100+i)
				for j := 0; j < ops/10; j++ {
					nc, err := net.Dial("tcp", loop(n))
					if err != nil {
						t.Inconclusive("%v", err)
						return
					}
					id := known[rng.Intn(len(known))]
					if fresh {
						id = wire.NewIdentity(uint16(1024 + rng.Intn(60000)))
					}
					c30peer(t, rng, nc, id, kinds[j%len(kinds)])
				}
			})
			return quiet("inbound")
		}
	}
	growing(t, "inbound connections that were established", ops, 16*40, in(false, 6, 7, 8, 9, 10, 12, 13))
	// The table takes in some of them, ever fewer.
	growing(t, "inbound connections of ever new peers", 4*ops, 16*40, in(true, 6, 7, 8, 9, 10, 12, 13))
	growing(t, "inbound connections that failed", ops, 16*20, in(true, 0, 1, 2, 4, 5))
	out := func(x *noise.Node, f func(ctx context.Context, i, j int) error) func(int) bool {
		return func(b int) bool {
			par(10, func(i int) {
				for j := 0; j < ops/10; j++ {
					ctx, cancel := ctxT(core.Long)
					f(ctx, i, j)
					cancel()
				}
			})
			for _, c := range x.Outbound() {
				c.Close()
			}
			return quiet("outbound")
		}
	}
	growing(t, "connections to another node", ops, 64, out(plain, func(ctx context.Context, i, j int) error {
		_, err := plain.Request(ctx, other.Addr(), payload('c', 1, 1, 100))
		for _, c := range plain.Outbound() {
			c.Close()
		}
		return err
	}))
	growing(t, "connections to another node, which ends them", ops, 64, out(plain, func(ctx context.Context, i, j int) error {
		_, err := plain.Request(ctx, other.Addr(), []byte{c30fail})
		return err
	}))
	growing(t, "connections with requests that were never answered", ops, 64, out(plain, func(ctx context.Context, i, j int) error {
		ctx, cancel := context.WithCancel(ctx)
		time.AfterFunc(3*time.Millisecond, cancel)
		_, err := plain.Request(ctx, other.Addr(), []byte{c30mute})
		if j%4 == 0 {
			for _, c := range plain.Outbound() {
				c.Close()
			}
		}
		return err
	}))
	growing(t, "dials that were refused, of different addresses", ops, 64, out(plain, func(ctx context.Context, i, j int) error {
		_, err := plain.Ping(ctx, fmt.Sprintf("127.1.%d.%d:1", 1+i, 1+j%250))
		return err
	}))
	growing(t, "dials that were cancelled", ops, 64, out(plain, func(ctx context.Context, i, j int) error {
		ctx, cancel := context.WithTimeout(ctx, time.Duration(j%5)*time.Millisecond)
		defer cancel()
		_, err := plain.Ping(ctx, hosts[[]int{3, 11, 15}[j%3]].addr)
		return err
	}))
	growing(t, "outbound connections of all kinds", ops, 16*40, out(n, func(ctx context.Context, i, j int) error {
		_, err := n.Ping(ctx, hosts[[]int{0, 1, 2, 4, 6, 7, 9, 10, 13, 14}[i]].addr)
		return err
	}))
}

// c30protocols: lookups, overlay pings and gossip.
func c30protocols(t *core.T) {
	t.Require("batches", 4)
	t.OnMemory("grows", "the overlay or gossip take up all memory")
	t.Perturb(1)
	var fs []*full
	for i := 0; i < 6; i++ {
		f := &full{}
		c30node(t, f, noise.WithNodeIdleTimeout(0))
		fs = append(fs, f)
	}
	for _, f := range fs {
		for _, o := range fs {
			if f != o {
				ctx, cancel := ctxT(core.Long)
				err := f.k.Ping(ctx, o.n.Addr())
				cancel()
				if err != nil {
					t.Inconclusive("%v", err)
					return
				}
			}
		}
	}
	n := t.N(400, 4000)
	each := func(ops int, f func(x *full, i, j int)) func(int) bool {
		return func(b int) bool {
			if !t.Do(6*core.Long, func() {
				par(len(fs), func(i int) {
					for j := 0; j < ops/len(fs); j++ {
						f(fs[i], i, b*100000+j)
					}
				})
			}) {
				t.Inconclusive("lookups or pushes do not end")
				return false
			}
			return true
		}
	}
	growing(t, "lookups", n, 64, each(n, func(x *full, i, j int) { x.k.Find(fs[(i+1+j%4)%len(fs)].n.ID().ID) }))
	growing(t, "discoveries", n, 64, each(n, func(x *full, i, j int) { x.k.Discover() }))
	// Among few peers, there are more lookups in parallel than there are peers to ask.
	for _, k := range []int{1, 2} {
		var few []*full
		for i := 0; i <= k; i++ {
			f := &full{}
			c30node(t, f, noise.WithNodeIdleTimeout(0))
			few = append(few, f)
			if i > 0 {
				ctx, cancel := ctxT(core.Long)
				err := few[0].k.Ping(ctx, f.n.Addr())
				cancel()
				if err != nil {
					t.Inconclusive("%v", err)
					return
				}
			}
		}
		growing(t, fmt.Sprintf("lookups among %d peers", k), n, 64, func(b int) bool {
			if !t.Do(6*core.Long, func() {
				for j := 0; j < n; j++ {
					few[j%2].k.Discover()
				}
			}) {
				t.Inconclusive("lookups do not end")
				return false
			}
			return true
		})
	}
	growing(t, "overlay pings", 4*n, 16, each(4*n, func(x *full, i, j int) {
		ctx, cancel := ctxT(core.Long)
		x.k.Ping(ctx, fs[(i+1+j%4)%len(fs)].n.Addr())
		cancel()
	}))
	growing(t, "reads of the table", 4*n, 16, each(4*n, func(x *full, i, j int) {
		x.k.Table().Peers()
		x.k.Table().FindClosest(x.n.ID().ID, 16)
	}))
	// What gossip remembers of each piece of data is much less than the data.
	growing(t, "gossip", n, 2000, each(n, func(x *full, i, j int) { x.g.Push(bg, payload(byte(i), uint32(j), 1, 12000)) }))
	peers := func(b int) bool { // peers that come once, and never again
		par(8, func(i int) {
			for j := 0; j < n/8; j++ {
				c, err := wire.Dial(loop(fs[0].n), wire.NewIdentity(uint16(1+t.RNG("peers", b*100000+i*1000+j).Intn(65535))), &wire.Options{Timeout: core.Long})
				if err != nil {
					continue
				}
				c.Call(1, encoded(opPing, nil), nil)
				c.Close()
			}
		})
		return t.Await(core.Long, func() bool {
			for _, f := range fs {
				if len(f.n.Inbound()) > len(fs)-1 {
					return false
				}
			}
			return true
		})
	}
	growing(t, "peers that come once", n, 400, peers)
}
