package checks

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID: "C06",
		Rule: "one stream of uniquely numbered messages (a sender on a connection, in one direction) per case; distinct by scenario, direction, number of workers, sizes and seed; " +
			"non-trivial: at least 20 messages, all of which were accounted for",
		Assumptions: []string{"the loopback TCP connections do not fail on their own", "senders do not touch a buffer after they have passed it to a send"},
		Scenarios: []core.Scenario{
			{Name: "nodes", Run: c06nodes},
			{Name: "peer", Run: c06peer},
			{Name: "large", Run: c06large},
			{Name: "stalls", Run: c06stalls},
			{Name: "tiny", Run: c06tiny},
		},
	})
}

type streamKey struct {
	node byte // whom it was delivered to
	tag  byte
	a    uint32
}

// sink accounts for the messages delivered to a node.
type sink struct {
	t       *core.T
	node    byte
	ordered bool
	mu      sync.Mutex
	next    map[streamKey]uint32
	seen    map[streamKey]map[uint32]bool
	kept    [][]byte
	sums    [][32]byte
	ctxs    []noise.HandlerContext
	n       int
	bytes   int
}

func newSink(t *core.T, node byte, ordered bool) *sink {
	return &sink{t: t, node: node, ordered: ordered, next: map[streamKey]uint32{}, seen: map[streamKey]map[uint32]bool{}}
}

// take accounts for one delivery. data is kept as it is.
func (s *sink) take(data []byte, ctx *noise.HandlerContext) (parsed, bool) {
	p, err := parse(data)
	s.mu.Lock()
	defer s.mu.Unlock()
	if err != nil {
		s.t.Violation("altered", "node %c was handed something that was never sent: %v: %s", s.node, err, short(data))
		return p, false
	}
	k := streamKey{s.node, p.tag, p.a}
	if s.seen[k] == nil {
		s.seen[k] = map[uint32]bool{}
	}
	if s.seen[k][p.b] {
		s.t.Violation("twice", "node %c was handed message %d of sender %c%d twice", s.node, p.b, p.tag, p.a)
		return p, false
	}
	s.seen[k][p.b] = true
	if s.ordered && p.b != s.next[k] {
		s.t.Violation("order", "node %c with a single worker was handed message %d of sender %c%d when message %d was due", s.node, p.b, p.tag, p.a, s.next[k])
	}
	s.next[k] = p.b + 1
	s.n++
	s.bytes += len(data)
	if s.bytes < 256<<20 {
		s.kept = append(s.kept, data)
		s.sums = append(s.sums, sha256.Sum256(data))
		if ctx != nil && len(s.ctxs) < 200000 {
			s.ctxs = append(s.ctxs, *ctx)
		}
	}
	return p, true
}

func (s *sink) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n
}

func (s *sink) of(tag byte, a uint32) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.seen[streamKey{s.node, tag, a}])
}

// unchanged checks that what handlers have kept is still what they were handed.
func (s *sink) unchanged() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, d := range s.kept {
		if sha256.Sum256(d) != s.sums[i] {
			s.t.Violation("changed-later", "bytes that a handler of node %c kept have changed: %s", s.node, short(d))
			return
		}
	}
	for i := range s.ctxs {
		if _, err := parse(s.ctxs[i].Data()); err != nil {
			s.t.Violation("changed-later", "the data of a context that a handler of node %c kept has changed", s.node)
			return
		}
	}
	s.t.Count("kept deliveries compared", len(s.kept))
}

// outbox remembers what was passed to sends.
type outbox struct {
	t    *core.T
	mu   sync.Mutex
	bufs [][]byte
	sums [][32]byte
}

func (o *outbox) add(b []byte) []byte {
	// With room behind it, which is the caller's as well.
	full := make([]byte, len(b), len(b)+48)
	copy(full, b)
	tail := full[:cap(full)]
	for i := len(b); i < len(tail); i++ {
		tail[i] = byte(i * 31)
	}
	o.mu.Lock()
	o.bufs = append(o.bufs, tail)
	o.sums = append(o.sums, sha256.Sum256(tail))
	o.mu.Unlock()
	return full
}

func (o *outbox) unchanged() {
	o.mu.Lock()
	defer o.mu.Unlock()
	for i, b := range o.bufs {
		if sha256.Sum256(b) != o.sums[i] {
			o.t.Violation("caller-buffer", "a send has modified the bytes (or what lies behind them) that it was given: %s", short(b))
			return
		}
	}
	o.t.Count("sent buffers compared", len(o.bufs))
}

func c06size(rng *mrand.Rand) int {
	switch rng.Intn(12) {
	case 0:
		return 21
	case 1:
		return 4080 + rng.Intn(40) // around the size of buffers
	case 2:
		return 990 + rng.Intn(60)
	case 3:
		return 480 + rng.Intn(60)
	case 4:
		return rng.Intn(30000)
	}
	return 21 + rng.Intn(600)
}

// c06nodes: two nodes, many senders in both directions of one connection, and over a second one.
func c06nodes(t *core.T) {
	t.Require("messages accounted for", 10000)
	rounds := t.N(8, 120)
	for round := 0; round < rounds; round++ {
		t.PerturbRound(round)
		workers := []uint{1, 1, 4, 16}[round%4]
		sa, sb := newSink(t, 'a', workers == 1), newSink(t, 'b', workers == 1)
		ob := &outbox{t: t}
		ma, mb := newMon(), newMon()
		opened := make(chan noise.HandlerContext, 1)
		a := mk(t, func(n *noise.Node) {
			n.Bind(ma.protocol())
			n.Handle(func(ctx noise.HandlerContext) error {
				sa.take(ctx.Data(), &ctx)
				return nil
			})
		}, noise.WithNodeNumWorkers(workers))
		b := mk(t, func(n *noise.Node) {
			n.Bind(mb.protocol())
			n.Handle(func(ctx noise.HandlerContext) error {
				p, ok := sb.take(ctx.Data(), &ctx)
				if p.tag == 'O' {
					opened <- ctx
				} else if ok && ctx.IsRequest() {
					return ctx.Send(ob.add(echoOf(ctx.Data())))
				} else if ok && p.b%4 == 0 { // a reply per fourth message
					return ctx.Send(ob.add(payload('R', p.a, p.b/4, c06size(mrand.New(mrand.NewSource(int64(p.b)))))))
				}
				return nil
			})
		}, noise.WithNodeNumWorkers(workers))
		ctx, cancel := ctxT(4 * core.Long)
		if err := a.Send(ctx, addrOf(b), payload('O', 0, 0, 30)); err != nil {
			t.Violation("send", "sending to a live node failed: %v", err)
			cancel()
			return
		}
		var back noise.HandlerContext
		select {
		case back = <-opened:
		case <-time.After(core.Long):
			t.Violation("lost", "the first message was not delivered")
			cancel()
			return
		}
		senders, each := 4, 120
		par(3*senders, func(i int) {
			rng := t.RNG("nodes", round*100+i)
			for j := 0; j < each; j++ {
				var err error
				switch i % 3 {
				case 0: // a to b
					err = a.Send(ctx, addrOf(b), ob.add(payload('A', uint32(i), uint32(j), c06size(rng))))
				case 1: // b to a on the same connection
					err = back.Send(ob.add(payload('B', uint32(i), uint32(j), c06size(rng))))
				default:
					if i < 6 { // requests in between
						req := ob.add(payload('Q', uint32(i), uint32(j), c06size(rng)))
						var res []byte
						res, err = a.Request(ctx, addrOf(b), req)
						if err == nil && !bytes.Equal(res, echoOf(req)) {
							t.Violation("altered", "a response is not what was sent: %s", short(res))
						}
					} else { // b to a on another connection
						err = b.Send(ctx, addrOf(a), ob.add(payload('C', uint32(i), uint32(j), c06size(rng))))
					}
				}
				if err != nil {
					t.Violation("send", "a send over a live connection failed: %v", err)
					return
				}
				if rng.Intn(40) == 0 {
					time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
				}
			}
		})
		done := func() bool {
			for i := 0; i < 3*senders; i++ {
				switch {
				case i%3 == 0 && (sb.of('A', uint32(i)) < each || sa.of('R', uint32(i)) < each/4),
					i%3 == 1 && sa.of('B', uint32(i)) < each,
					i%3 == 2 && i < 6 && sb.of('Q', uint32(i)) < each,
					i%3 == 2 && i >= 6 && sa.of('C', uint32(i)) < each:
					return false
				}
			}
			return true
		}
		if !t.Await(core.Long, done) {
			t.Violation("lost", "not all messages were delivered: %d at a, %d at b; connections that ended: %d, %d", sa.count(), sb.count(), ma.count("disconnected"), mb.count("disconnected"))
		}
		if ma.count("disconnected")+mb.count("disconnected") > 0 {
			t.Violation("dropped", "a connection without a fault was dropped")
		}
		time.Sleep(10 * time.Millisecond) // duplicates would come late
		sa.unchanged()
		sb.unchanged()
		ob.unchanged()
		t.Count("messages accounted for", sa.count()+sb.count())
		for i := 0; i < 3*senders; i++ {
			t.Case("nodes/%d/%d/%d", workers, i, round)
		}
		t.Sample("round %d, %d workers: a was handed %d and b %d messages", round, workers, sa.count(), sb.count())
		cancel()
		t.RunCleanups()
	}
}

// c06peer: between a node and the reference peer, which sees each record.
func c06peer(t *core.T) {
	t.Require("messages accounted for", 4000)
	for round := 0; round < t.N(12, 150); round++ {
		t.PerturbRound(round)
		workers := []uint{1, 3}[round%2]
		s := newSink(t, 'n', workers == 1)
		m := newMon()
		n := mk(t, func(n *noise.Node) {
			n.Bind(m.protocol())
			n.Handle(func(ctx noise.HandlerContext) error { s.take(ctx.Data(), &ctx); return nil })
		}, noise.WithNodeNumWorkers(workers))
		outbound := round%3 != 0
		c, cl, err := peerOf(t, n, outbound)
		if err != nil {
			t.Inconclusive("connecting: %v", err)
			return
		}
		each := 250
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { // peer to node; in bursts that end anywhere, for the reader sees it in pieces
			defer wg.Done()
			rng := t.RNG("peer", round)
			var buf []byte
			for j := 0; j < each; j++ {
				buf = append(buf, wire.Frame(c.Seal(wire.Encode(wire.Msg{Data: payload('P', 1, uint32(j), c06size(rng))})))...)
				if rng.Intn(6) == 0 {
					k := rng.Intn(len(buf) + 1)
					c.Write(buf[:k])
					buf = append([]byte{}, buf[k:]...)
				}
			}
			c.Write(buf)
		}()
		rs := newSink(t, 'p', true)
		ob := &outbox{t: t}
		senders := 0
		if cl != nil {
			senders = 3
		}
		go func() { // node to peer
			defer wg.Done()
			for i := 0; i < senders*each; i++ {
				c.SetReadDeadline(time.Now().Add(core.Long))
				msg, err := c.Recv()
				if err != nil {
					t.Violation("lost", "the peer received only %d of %d messages: %v", i, senders*each, err)
					return
				}
				rs.take(msg.Data, nil)
			}
			if senders > 0 {
				c.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
				if m, err := c.Recv(); err == nil {
					t.Violation("twice", "the peer received one message too many: %s", short(m.Data))
				}
			}
		}()
		if cl != nil {
			addr := c.LocalAddr().String()
			ctx, cancel := ctxT(2 * core.Long)
			par(senders, func(i int) {
				rng := t.RNG("node", round*10+i)
				for j := 0; j < each; j++ {
					if err := n.Send(ctx, addr, ob.add(payload('N', uint32(i), uint32(j), c06size(rng)))); err != nil {
						t.Violation("send", "a send over a live connection failed: %v", err)
						return
					}
				}
			})
			cancel()
		}
		wg.Wait()
		if !t.Await(core.Long, func() bool { return s.count() >= each }) {
			t.Violation("lost", "the node was handed only %d of %d messages of a peer", s.count(), each)
		}
		if m.count("disconnected") > 0 {
			t.Violation("dropped", "a connection without a fault was dropped")
		}
		s.unchanged()
		rs.unchanged()
		ob.unchanged()
		t.Count("messages accounted for", s.count()+rs.count())
		t.Case("peer/%v/%d/%d", outbound, workers, round)
		c.Close()
		t.RunCleanups()
	}
}

// c06large: sizes up to the limit.
func c06large(t *core.T) {
	t.Require("messages accounted for", 60)
	for round := 0; round < t.N(2, 12); round++ {
		t.PerturbRound(round)
		sa, sb := newSink(t, 'a', true), newSink(t, 'b', true)
		setup := func(s *sink) func(n *noise.Node) {
			return func(n *noise.Node) {
				n.Handle(func(ctx noise.HandlerContext) error {
					s.take(ctx.Data(), &ctx)
					if ctx.IsRequest() {
						return ctx.Send(ctx.Data())
					}
					return nil
				})
			}
		}
		a, b := mk(t, setup(sa), noise.WithNodeNumWorkers(1)), mk(t, setup(sb), noise.WithNodeNumWorkers(1))
		max := 4<<20 - wire.Overhead
		sizes := []int{max, 21, max - 1, 1 << 16, 1<<16 - 1, 1<<16 + 1, 1 << 20, 100, 3 << 20, max, 2<<20 - 13, 30}
		ob := &outbox{t: t}
		ctx, cancel := ctxT(4 * core.Long)
		par(4, func(i int) {
			from, to := a, b
			if i%2 == 1 {
				from, to = b, a
			}
			for j, size := range sizes {
				data := ob.add(payload('L', uint32(i), uint32(j), size))
				if i < 2 {
					if err := from.Send(ctx, addrOf(to), data); err != nil {
						t.Violation("send", "sending %d bytes failed: %v", size, err)
					}
				} else if res, err := from.Request(ctx, addrOf(to), data); err != nil || !bytes.Equal(res, data) {
					t.Violation("lost", "a request of %d bytes was not answered with the same: %v", size, err)
				}
				t.Case("large/%d/%d", i, size)
			}
		})
		cancel()
		want := 2 * len(sizes)
		if !t.Await(2*core.Long, func() bool { return sa.count() == want && sb.count() == want }) {
			t.Violation("lost", "of %d large messages each, a was handed %d and b %d", want, sa.count(), sb.count())
		}
		sa.unchanged()
		sb.unchanged()
		ob.unchanged()
		t.Count("messages accounted for", sa.count()+sb.count())
		t.RunCleanups()
	}
}

// c06stalls: the network stalls and trickles, and handlers are slow.
func c06stalls(t *core.T) {
	t.Require("messages accounted for", 2000)
	for round := 0; round < t.N(6, 80); round++ {
		t.PerturbRound(round)
		sa, sb := newSink(t, 'a', true), newSink(t, 'b', true)
		a := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				if p, _ := sa.take(ctx.Data(), &ctx); p.b%100 == 0 {
					time.Sleep(10 * time.Millisecond)
				}
				return nil
			})
		}, noise.WithNodeNumWorkers(1))
		b := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				p, ok := sb.take(ctx.Data(), &ctx)
				if p.b%50 == 0 {
					time.Sleep(10 * time.Millisecond)
				}
				if !ok {
					return nil
				}
				return ctx.Send(payload('r', p.a, p.b, c06size(mrand.New(mrand.NewSource(int64(p.b))))))
			})
		}, noise.WithNodeNumWorkers(1))
		r, err := wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), loop(b))
		if err != nil {
			t.Inconclusive("relay: %v", err)
			return
		}
		t.Cleanup(r.Close)
		rng := t.RNG("stall", round)
		r.OnFrame = func(l *wire.Link, dir, i int, raw []byte) ([]byte, bool) {
			if dir == 1 && len(raw) > 8 && i%16 == 5 { // in two pieces
				l.Inject(dir, raw[:5])
				time.Sleep(time.Millisecond)
				return raw[5:], true
			}
			return raw, true
		}
		r.Start()
		ctx, cancel := ctxT(4 * core.Long)
		each := 400
		if _, err := a.Ping(ctx, r.Addr()); err != nil {
			t.Violation("send", "connecting failed: %v", err)
			cancel()
			return
		}
		l := r.Links()[0]
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				for _, d := range []int{0, 1} {
					l.Hold(d, true)
					time.Sleep(time.Duration(5+rng.Intn(30)) * time.Millisecond)
					l.Hold(d, false)
				}
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(rng.Intn(10)) * time.Millisecond):
				}
			}
		}()
		par(2, func(i int) {
			rng := t.RNG("send", round*2+i)
			for j := 0; j < each; j++ {
				if err := a.Send(ctx, r.Addr(), payload('S', uint32(i), uint32(j), c06size(rng))); err != nil {
					t.Violation("send", "a send over a live connection failed: %v", err)
					return
				}
			}
		})
		if !t.Await(2*core.Long, func() bool { return sa.count() == 2*each && sb.count() == 2*each }) {
			t.Violation("lost", "over a stalling network b was handed %d of %d messages, a %d of as many replies; connections: %d", sb.count(), 2*each, sa.count(), len(r.Links()))
		}
		close(stop)
		wg.Wait()
		cancel()
		if len(r.Links()) != 1 {
			t.Violation("dropped", "a connection that stalls now and then was replaced by another: %d connections", len(r.Links()))
		}
		sa.unchanged()
		sb.unchanged()
		t.Count("messages accounted for", sa.count()+sb.count())
		t.Case("stalls/%d", round)
		t.RunCleanups()
	}
}

// c06tiny: every small size, which carries no number, so that the sequence itself is what is compared.
func c06tiny(t *core.T) {
	t.Require("messages accounted for", 600)
	for round := 0; round < t.N(4, 60); round++ {
		t.PerturbRound(round)
		var mu sync.Mutex
		var got [][]byte
		n := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				mu.Lock()
				got = append(got, ctx.Data())
				mu.Unlock()
				if ctx.IsRequest() {
					return ctx.Send(ctx.Data())
				}
				return nil
			})
		}, noise.WithNodeNumWorkers(1))
		a := mk(t, nil)
		var want [][]byte
		ctx, cancel := ctxT(2 * core.Long)
		rng := t.RNG("tiny", round)
		for i := 0; i < 200; i++ {
			size := i
			if i > 130 {
				size = rng.Intn(4)
			}
			var b []byte
			if size > 0 || i%2 == 0 {
				b = make([]byte, size)
				rng.Read(b)
			}
			want = append(want, b)
			if i%7 == 3 {
				res, err := a.Request(ctx, addrOf(n), b)
				if err != nil || !bytes.Equal(res, b) {
					t.Violation("lost", "a request of %d bytes was answered with %s (%v)", size, short(res), err)
				}
			} else if err := a.Send(ctx, addrOf(n), b); err != nil {
				t.Violation("send", "sending %d bytes failed: %v", size, err)
			}
		}
		cancel()
		cnt := func() int { mu.Lock(); defer mu.Unlock(); return len(got) }
		if !t.Await(core.Long, func() bool { return cnt() >= len(want) }) {
			t.Violation("lost", "only %d of %d small messages were delivered", cnt(), len(want))
		}
		mu.Lock()
		for i := range got {
			if i >= len(want) || !bytes.Equal(got[i], want[i]) {
				t.Violation("altered", "delivery %d is %s, but %s was sent", i, short(got[i]), short(want[min(i, len(want)-1)]))
				break
			}
		}
		t.Count("messages accounted for", len(got))
		mu.Unlock()
		t.Case("tiny/%d", round)
		t.RunCleanups()
	}
	_ = net.ErrClosed
}
