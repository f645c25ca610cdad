package checks

import (
	"context"
	"errors"
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C14",
		Rule:        "one case per connection, or per operation that gave up, whose callbacks were replayed; distinct by scenario, kind of end or failure, direction and round; non-trivial: several protocols were registered, some without all callbacks",
		Assumptions: []string{"messages that were written together may share one message-sent callback"},
		Scenarios: []core.Scenario{
			{Name: "grammar", Run: c14grammar},
			{Name: "counts", Run: c14counts},
			{Name: "written", Run: c14written},
			{Name: "failed", Run: c14failed},
			{Name: "pingfailed", Run: c14pingfailed},
		},
	})
}

// call is a callback, or the start of a handler, as it was observed.
type call struct {
	proto      int // -1: handler
	kind       string
	begin, end int64
	id         noise.ID
}

// callLog records the callbacks of several protocols of a node.
type callLog struct {
	mu    sync.Mutex
	seq   int64
	by    map[*noise.Client][]*call
	hands map[string][]*call
	fails []struct {
		proto int
		addr  string
	}
	rng  *mrand.Rand
	slow bool
}

func newCallLog(rng *mrand.Rand, slow bool) *callLog {
	return &callLog{by: map[*noise.Client][]*call{}, hands: map[string][]*call{}, rng: rng, slow: slow}
}

func (l *callLog) begin(proto int, kind string, c *noise.Client) *call {
	x := &call{proto: proto, kind: kind}
	if c != nil {
		x.id = c.ID()
	}
	l.mu.Lock()
	l.seq++
	x.begin = l.seq
	l.by[c] = append(l.by[c], x)
	d := time.Duration(0)
	if l.slow && l.rng.Intn(4) == 0 {
		d = time.Duration(l.rng.Intn(800)) * time.Microsecond
	}
	l.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	return x
}

func (l *callLog) finish(x *call) {
	l.mu.Lock()
	l.seq++
	x.end = l.seq
	l.mu.Unlock()
}

// c14mask says which callbacks protocol i has.
var c14masks = []string{"cdrsp", "cr", "", "dsp", "cdrsp"}

func (l *callLog) protocols() []noise.Protocol {
	var ps []noise.Protocol
	for i, mask := range c14masks {
		var p noise.Protocol
		for _, m := range mask {
			f := func(kind string) func(*noise.Client) {
				return func(c *noise.Client) { l.finish(l.begin(i, kind, c)) }
			}
			switch m {
			case 'c':
				p.OnPeerConnected = f("connected")
			case 'd':
				p.OnPeerDisconnected = f("disconnected")
			case 'r':
				p.OnMessageRecv = f("received")
			case 's':
				p.OnMessageSent = f("sent")
			case 'p':
				p.OnPingFailed = func(addr string, err error) {
					l.mu.Lock()
					l.fails = append(l.fails, struct {
						proto int
						addr  string
					}{i, addr})
					l.mu.Unlock()
				}
			}
		}
		ps = append(ps, p)
	}
	return ps
}

func (l *callLog) handler(ctx noise.HandlerContext) {
	l.mu.Lock()
	l.seq++
	id := ctx.ID()
	l.hands[string(id.ID[:])] = append(l.hands[string(id.ID[:])], &call{proto: -1, kind: "handler", begin: l.seq})
	l.mu.Unlock()
}

func (l *callLog) clients() []*noise.Client {
	l.mu.Lock()
	defer l.mu.Unlock()
	var cs []*noise.Client
	for c := range l.by {
		cs = append(cs, c)
	}
	return cs
}

func (l *callLog) count(c *noise.Client, proto int, kind string) (n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, x := range l.by[c] {
		if x.proto == proto && x.kind == kind && x.end > 0 {
			n++
		}
	}
	return
}

func has(proto int, kind string) bool {
	for _, m := range c14masks[proto] {
		if byte(m) == kind[0] {
			return true
		}
	}
	return false
}

// check replays the callbacks of a connection that has ended.
func (l *callLog) check(t *core.T, c *noise.Client, what string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	var up, down []*call // in order of beginning
	for _, kind := range []string{"connected", "disconnected", "received", "sent"} {
		n := -1
		seqs := map[int][]*call{}
		for _, x := range l.by[c] {
			if x.kind == kind {
				seqs[x.proto] = append(seqs[x.proto], x)
				switch kind {
				case "connected":
					up = append(up, x)
				case "disconnected":
					down = append(down, x)
				}
			}
		}
		var prev []*call
		for p := range c14masks {
			if !has(p, kind) {
				continue
			}
			if n < 0 {
				n = len(seqs[p])
			}
			if len(seqs[p]) != n {
				t.Violation("protocols", "a %s callback was called %d times for one protocol and %d times for another (%s)", kind, n, len(seqs[p]), what)
			}
			for i := 0; i < len(prev) && i < len(seqs[p]); i++ {
				if prev[i].end == 0 || prev[i].end > seqs[p][i].begin {
					t.Violation("order", "the %s callbacks of protocols were not called in order of registration (%s)", kind, what)
				}
			}
			prev = seqs[p]
		}
		if (kind == "connected" || kind == "disconnected") && n != 1 {
			t.Violation("pairing", "the %s callback of a connection was called %d times (%s)", kind, n, what)
		}
	}
	if len(up) == 0 || len(down) == 0 {
		return
	}
	first, last := up[len(up)-1], down[0]
	for _, x := range l.by[c] {
		if x.kind == "received" || x.kind == "sent" {
			if x.begin < first.end || first.end == 0 {
				t.Violation("bracket", "a %s callback was called before the connected callbacks were done (%s)", x.kind, what)
			}
			if x.end == 0 || x.end > last.begin {
				t.Violation("bracket", "a %s callback was not done before the disconnected callbacks (%s)", x.kind, what)
			}
		}
		if x.id.ID == noise.ZeroPublicKey {
			t.Violation("identity", "a %s callback was called for a connection without an identity (%s)", x.kind, what)
		}
	}
	id := first.id
	for _, h := range l.hands[string(id.ID[:])] {
		if h.begin < first.end {
			t.Violation("bracket", "a handler was called before the connected callbacks were done (%s)", what)
		}
	}
}

// c14grammar: connections with traffic end in all ways.
func c14grammar(t *core.T) {
	t.Require("connections replayed", 150)
	hows := []string{"close", "peer", "handler", "node", "reset", "garbage"}
	for round := 0; round < t.N(30, 400); round++ {
		t.PerturbRound(round)
		how := hows[round%len(hows)]
		l := newCallLog(t.RNG("slow", round), round%2 == 0)
		n := mk(t, func(n *noise.Node) {
			ps := l.protocols()
			n.Bind(ps[:2]...)
			n.Bind(ps[2:]...)
			n.Handle(func(ctx noise.HandlerContext) error {
				l.handler(ctx)
				if string(ctx.Data()) == "fail" {
					return errors.New("refused")
				}
				return echo(ctx)
			})
		})
		var peers []*live
		for i := 0; i < 3; i++ {
			c, err := wire.Dial(loop(n), wire.NewIdentity(uint16(4000+i)), &wire.Options{Timeout: core.Long})
			if err != nil {
				t.Violation("refused", "%v", err)
				continue
			}
			// Traffic right away, before the node may be done with its callbacks.
			for j := 0; j < 5; j++ {
				c.Send(wire.Msg{Nonce: uint64(j), Data: payload('e', 0, uint32(j), 30)})
			}
			peers = append(peers, alive(c))
		}
		ctx, cancel := ctxT(core.Long)
		var st []*station
		for i := 0; i < 3; i++ {
			st = append(st, newStation(t))
		}
		par(6, func(i int) {
			rng := t.RNG("op", round*10+i)
			for j := 0; j < 8; j++ {
				operate(n, ctx, st[i%3].addr(), rng, 'e', uint32(i), uint32(j))
			}
		})
		for _, s := range st {
			peers = append(peers, s.conns()...)
		}
		for i, p := range peers {
			for j := 0; j < 4; j++ {
				p.Send(wire.Msg{Nonce: uint64(100 + j), Data: payload('e', uint32(i), uint32(j), 30)})
			}
		}
		if round%3 == 0 {
			time.Sleep(2 * time.Millisecond)
		}
		switch how {
		case "close":
			for _, c := range append(n.Inbound(), n.Outbound()...) {
				c.Close()
			}
		case "peer":
			for _, p := range peers {
				p.Close()
			}
		case "handler":
			for _, p := range peers {
				p.Send(wire.Msg{Data: []byte("fail")})
			}
		case "node":
			n.Close()
		case "reset":
			for _, p := range peers {
				p.Conn.Conn.(*net.TCPConn).SetLinger(0)
				p.Close()
			}
		default:
			for _, p := range peers {
				p.WriteRecord(make([]byte, 50))
			}
		}
		for _, p := range peers {
			if !t.Await(core.Long, p.closed.Load) {
				t.Inconclusive("a connection did not end (%s)", how)
			}
		}
		ok := true
		for _, c := range l.clients() {
			if !t.Do(core.Long, c.WaitUntilClosed) {
				t.Violation("pairing", "a connection never ends (%s)\n%s", how, core.LibDump(20))
				ok = false
			}
		}
		cancel()
		if ok {
			if k := len(l.clients()); k != len(peers) {
				t.Violation("pairing", "there were %d connections, but callbacks for %d", len(peers), k)
			}
			for _, c := range l.clients() {
				l.check(t, c, how)
				t.Count("connections replayed", 1)
				t.Case("grammar/%s/%d/%s", how, round, c.ID().ID)
			}
		}
		t.RunCleanups()
	}
}

// c14counts: exact numbers of messages, requests and responses in both directions.
func c14counts(t *core.T) {
	t.Require("messages counted", 1000)
	for round := 0; round < t.N(12, 150); round++ {
		for _, outbound := range []bool{false, true} {
			t.PerturbRound(round)
			l := newCallLog(t.RNG("slow", round), false)
			n := mk(t, func(n *noise.Node) {
				n.Bind(l.protocols()...)
				n.Handle(func(ctx noise.HandlerContext) error { l.handler(ctx); return echo(ctx) })
			})
			c, cl, err := peerOf(t, n, outbound)
			if err != nil {
				t.Inconclusive("%v", err)
				t.RunCleanups()
				continue
			}
			if cl == nil {
				t.Await(core.Long, func() bool { return len(n.Inbound()) == 1 })
				cl = n.Inbound()[0]
				cl.WaitUntilReady()
			}
			addr := c.LocalAddr().String()
			// One at a time.
			rng := t.RNG("seq", round)
			recv, sent := 0, 0
			settle := func(what string) bool {
				ok := t.Await(core.Long, func() bool { return l.count(cl, 4, "received") >= recv && l.count(cl, 4, "sent") >= sent })
				if r, s := l.count(cl, 4, "received"), l.count(cl, 4, "sent"); r != recv || s != sent || !ok {
					t.Violation("counts", "after %s there were %d received and %d sent callbacks instead of %d and %d (outbound: %v)", what, r, s, recv, sent, outbound)
					return false
				}
				t.Count("messages counted", 1)
				return true
			}
			ctx, cancel := ctxT(core.Long)
			for i := 1; i <= 25; i++ {
				what := ""
				switch k := rng.Intn(4); {
				case k == 0:
					what = "a message from the peer"
					c.Send(wire.Msg{Data: payload('m', 0, uint32(i), 30)})
					recv++
				case k == 1:
					what = "a request from the peer and its response"
					if _, err := c.Call(uint64(1000+i), payload('q', 0, uint32(i), 30), nil); err != nil {
						t.Inconclusive("%v", err)
					}
					recv++
					sent++
				case k == 2 && outbound:
					what = "a message to the peer"
					if err := n.Send(ctx, addr, payload('m', 0, uint32(i), 30)); err != nil {
						t.Inconclusive("%v", err)
					}
					if _, err := c.Recv(); err != nil {
						t.Inconclusive("%v", err)
					}
					sent++
				case outbound:
					what = "a request to the peer and its response"
					done := make(chan error, 1)
					go func() { _, err := n.Request(ctx, addr, payload('q', 0, uint32(i), 30)); done <- err }()
					m, err := c.Recv()
					if err == nil {
						// The response only once the request has been reported as sent.
						t.Await(core.Long, func() bool { return l.count(cl, 4, "sent") >= sent+1 })
						c.Send(wire.Msg{Nonce: m.Nonce, Data: []byte("r")})
					}
					if err := <-done; err != nil {
						t.Inconclusive("%v", err)
					}
					sent++
					recv++
				default:
					continue
				}
				if !settle(what) {
					break
				}
			}
			cancel()
			// Many at once: received exactly, sent at least once after the last one and at most once each.
			base, sbase := l.count(cl, 4, "received"), l.count(cl, 4, "sent")
			const burst = 100
			go func() {
				for i := 1; i <= burst; i++ {
					c.Send(wire.Msg{Nonce: uint64(5000 + i), Data: payload('q', 0, uint32(i), 30)})
				}
			}()
			for i := 0; i < burst; i++ {
				if _, err := c.Recv(); err != nil {
					t.Inconclusive("%v", err)
					break
				}
			}
			t.Await(core.Long, func() bool { return l.count(cl, 4, "received") == base+burst && l.count(cl, 4, "sent") > sbase })
			time.Sleep(5 * time.Millisecond)
			if r := l.count(cl, 4, "received") - base; r != burst {
				t.Violation("counts", "after a burst of %d requests there were %d received callbacks", burst, r)
			}
			if s := l.count(cl, 4, "sent") - sbase; s < 1 || s > burst {
				t.Violation("counts", "after a burst of %d responses there were %d sent callbacks", burst, s)
			}
			t.Count("messages counted", burst)
			c.Close()
			if t.Do(core.Long, cl.WaitUntilClosed) {
				l.check(t, cl, "counts")
			}
			t.Case("counts/%v/%d", outbound, round)
			t.RunCleanups()
		}
	}
}

// c14written: a message is reported as sent once it has been written, and not earlier.
func c14written(t *core.T) {
	t.Require("writes observed", 20)
	for round := 0; round < t.N(8, 80); round++ {
		for _, outbound := range []bool{false, true} {
			t.PerturbRound(round)
			gate := make(chan struct{})
			var entered, block atomic.Int64
			n := mk(t, func(n *noise.Node) {
				n.Bind(noise.Protocol{OnMessageSent: func(*noise.Client) {
					entered.Add(1)
					if block.Load() > 0 {
						<-gate
					}
				}})
				n.Handle(func(ctx noise.HandlerContext) error {
					if string(ctx.Data()) == "big" {
						return ctx.Send(make([]byte, 24<<20))
					}
					return echo(ctx)
				})
			})
			c, _, err := peerOf(t, n, outbound)
			if err != nil {
				t.Inconclusive("%v", err)
				t.RunCleanups()
				continue
			}
			// Not before: the peer does not read.
			c.Send(wire.Msg{Data: []byte("big")})
			time.Sleep(30 * time.Millisecond)
			if entered.Load() > 0 {
				t.Violation("early", "a message was reported as sent although most of it was not written yet (outbound: %v)", outbound)
			}
			c.SetReadDeadline(time.Now().Add(2 * core.Long))
			if m, err := c.Recv(); err != nil || len(m.Data) != 24<<20 {
				t.Violation("lost", "a large message did not arrive: %v", err)
			}
			if !t.Await(core.Long, func() bool { return entered.Load() == 1 }) {
				t.Violation("counts", "a message that arrived was reported as sent %d times", entered.Load())
			}
			// Not later: while the callback runs, the data has been written.
			block.Store(1)
			c.SetReadDeadline(time.Now().Add(core.Long))
			if res, err := c.Call(77, []byte("x"), nil); err != nil || len(res) == 0 {
				t.Violation("late", "the data of a message that is being reported as sent did not arrive (outbound: %v): %v", outbound, err)
			}
			if !t.Await(core.Long, func() bool { return entered.Load() == 2 }) {
				t.Violation("counts", "a response that arrived was not reported as sent")
			}
			close(gate)
			t.Count("writes observed", 2)
			t.Case("written/%v/%d", outbound, round)
			c.Close()
			t.RunCleanups()
		}
	}
}

// c14failed: connections that do not complete the handshake have no callbacks.
func c14failed(t *core.T) {
	l := newCallLog(t.RNG("slow", 0), false)
	n := mk(t, func(n *noise.Node) {
		n.Bind(l.protocols()...)
		n.Handle(func(ctx noise.HandlerContext) error { l.handler(ctx); return nil })
	}, noise.WithNodeMaxDialAttempts(1))
	for round := 0; round < t.N(60, 800); round++ {
		t.PerturbRound(round)
		rng := t.RNG("failed", round)
		kind := rng.Intn(5)
		id := wire.NewIdentity(4000)
		deviate := func(nc net.Conn) {
			o := &wire.Options{Timeout: core.Long}
			switch kind {
			case 0:
				o.Stop = 1 + rng.Intn(3)
			case 1:
				o.Hello = func(_ *wire.Conn, b []byte) []byte { return flip(b, rng.Intn(8*len(b))) }
				o.Stop = 2
			case 2:
				o.IDBody = func(_ *wire.Conn, b []byte) []byte { return flip(b, rng.Intn(8*len(b))) }
			case 3:
				o.IDRecord = func(_ *wire.Conn, b []byte) []byte { return flip(b, rng.Intn(8*len(b))) }
			default:
				nc.Close()
				return
			}
			c, err := wire.Handshake(nc, id, o)
			if kind == 0 && o.Stop == 3 { // the handshake is complete: end it differently
				nc.Close()
				return
			}
			_ = c
			_ = err
			time.Sleep(time.Millisecond)
			nc.Close()
		}
		if kind == 0 {
			kind = 4
		}
		if round%2 == 0 {
			nc, err := net.Dial("tcp", loop(n))
			if err != nil {
				t.Inconclusive("%v", err)
				continue
			}
			deviate(nc)
		} else {
			ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
			if err != nil {
				t.Inconclusive("%v", err)
				continue
			}
			done := make(chan struct{})
			go func() {
				defer close(done)
				if nc, err := ln.Accept(); err == nil {
					deviate(nc)
				}
			}()
			if _, err := n.Ping(bg, ln.Addr().String()); err == nil {
				t.Violation("accepted", "a failed handshake was accepted")
			}
			<-done
			ln.Close()
		}
		t.Count("failed handshakes", 1)
		t.Case("failed/%d/%d", kind, round)
	}
	t.Require("failed handshakes", t.N(60, 800))
	t.Await(core.Long, func() bool { return len(n.Inbound())+len(n.Outbound()) == 0 })
	time.Sleep(20 * time.Millisecond)
	for _, c := range l.clients() {
		t.Violation("pairing", "callbacks were called for a connection whose handshake failed: %s, ...", l.by[c][0].kind)
	}
}

// c14pingfailed: one callback for each operation that gives up, for no other.
func c14pingfailed(t *core.T) {
	t.Require("operations that gave up", 100)
	for round := 0; round < t.N(10, 100); round++ {
		t.PerturbRound(round)
		l := newCallLog(t.RNG("slow", round), false)
		n := mk(t, func(n *noise.Node) { n.Bind(l.protocols()...) }, noise.WithNodeMaxDialAttempts(uint(1+round%3)))
		dead := []string{fmt.Sprintf("127.0.0.1:%d", t.Port()), fmt.Sprintf("127.0.0.1:%d", t.Port())}
		s := newStation(t)
		mute, err := silent(t, 0)
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		var mu sync.Mutex
		want := map[string]int{}
		op := func(rng *mrand.Rand, i, j int) {
			k := rng.Intn(4)
			ctx, cancel := ctxT(core.Long)
			defer cancel()
			addr := s.addr()
			switch k {
			case 0, 1:
				addr = dead[k]
			case 2:
				addr = mute
				var cc context.CancelFunc
				ctx, cc = context.WithTimeout(ctx, time.Duration(1+rng.Intn(4))*time.Millisecond)
				defer cc()
			}
			if name, err := operate(n, ctx, addr, rng, 'e', uint32(i), uint32(j)); err != nil {
				if addr == s.addr() {
					t.Violation("failed", "a %s to a peer that is up failed: %v", name, err)
				}
				mu.Lock()
				want[addr]++
				mu.Unlock()
				t.Count("operations that gave up", 1)
				t.Case("pingfailed/%s/%d/%d/%d", name, k, round, i)
			} else if addr != s.addr() {
				t.Violation("failed", "a %s to a peer that is not there succeeded", name)
			}
		}
		rng := t.RNG("op", round)
		compare := func(how string) {
			l.mu.Lock()
			defer l.mu.Unlock()
			got := map[string]map[int]int{}
			order := map[string][]int{}
			for _, f := range l.fails {
				if got[f.addr] == nil {
					got[f.addr] = map[int]int{}
				}
				got[f.addr][f.proto]++
				order[f.addr] = append(order[f.addr], f.proto)
			}
			for addr := range got {
				if want[addr] == 0 {
					t.Violation("pingfailed", "a ping was reported as failed for an address to which no operation gave up (%s)", how)
				}
			}
			for addr, k := range want {
				for p := range c14masks {
					w := 0
					if has(p, "ping failed") {
						w = k
					}
					if got[addr][p] != w {
						t.Violation("pingfailed", "%d operations gave up dialing an address, but a protocol was told %d times (%s)", w, got[addr][p], how)
					}
				}
				if how == "one at a time" {
					for i, p := range order[addr] {
						if p != []int{0, 3, 4}[i%3] {
							t.Violation("order", "the ping-failed callbacks were not called in order of registration: %v", order[addr])
							break
						}
					}
				}
			}
		}
		for j := 0; j < 6; j++ {
			op(rng, 0, j)
		}
		compare("one at a time")
		par(4, func(i int) {
			rng := t.RNG("par", round*10+i)
			for j := 0; j < 4; j++ {
				op(rng, i, j)
			}
		})
		compare("several at once")
		t.RunCleanups()
	}
}
