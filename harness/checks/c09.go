package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C09",
		Rule:        "one case per operation that was cancelled while others were under way; distinct by scenario, operation, way and time of cancelling, and round; non-trivial: callers that were not cancelled were using or awaiting the same connection",
		Assumptions: []string{"cancelling the last caller that waits for a connection may abort it"},
		Scenarios: []core.Scenario{
			{Name: "established", Run: c09established},
			{Name: "stalled", Run: c09stalled},
			{Name: "connecting", Run: c09connecting},
			{Name: "retrying", Run: c09retrying},
			{Name: "turns", Run: c09turns},
		},
	})
}

// doomed makes a context that ends after about d, or has ended already.
func doomed(rng *mrand.Rand, max time.Duration) (context.Context, context.CancelFunc, string) {
	d := time.Duration(rng.Int63n(int64(max) + 1))
	switch rng.Intn(4) {
	case 0:
		ctx, cancel := context.WithCancel(bg)
		cancel()
		return ctx, cancel, "before"
	case 1:
		ctx, cancel := context.WithTimeout(bg, d)
		return ctx, cancel, "deadline"
	default:
		ctx, cancel := context.WithCancel(bg)
		time.AfterFunc(d, cancel)
		return ctx, cancel, "cancel"
	}
}

// operate runs an operation at random.
func operate(n *noise.Node, ctx context.Context, addr string, rng *mrand.Rand, tag byte, i, j uint32) (string, error) {
	switch rng.Intn(3) {
	case 0:
		_, err := n.Ping(ctx, addr)
		return "ping", err
	case 1:
		return "send", n.Send(ctx, addr, payload('m', i, j, 30))
	default:
		req := payload(tag, i, j, 30)
		res, err := n.Request(ctx, addr, req)
		if err == nil && !bytes.Equal(res, echoOf(req)) {
			return "request", errors.New("wrong response")
		}
		return "request", err
	}
}

// slowEcho answers requests of tag s after a while and never those of tag h.
func slowEcho(ctx noise.HandlerContext) error {
	if !ctx.IsRequest() {
		return nil
	}
	p, err := parse(ctx.Data())
	if err != nil {
		return nil
	}
	switch p.tag {
	case 's':
		time.AfterFunc(time.Duration(p.b%7)*time.Millisecond, func() { ctx.Send(echoOf(ctx.Data())) })
	case 'h':
	default:
		return ctx.Send(echoOf(ctx.Data()))
	}
	return nil
}

// c09established: many callers over a live connection, of which some are cancelled all the time.
func c09established(t *core.T) {
	t.Require("cancelled operations", 1000)
	t.Require("operations of others", 1000)
	for round := 0; round < t.N(4, 60); round++ {
		t.PerturbRound(round)
		ma, mb := newMon(), newMon()
		ka := kademlia.New()
		a := mk(t, func(n *noise.Node) {
			ka = kademlia.New()
			n.Bind(ka.Protocol(), ma.protocol())
		})
		b := mk(t, func(n *noise.Node) {
			n.Bind(kademlia.New().Protocol(), mb.protocol())
			n.Handle(slowEcho)
		})
		addr := addrOf(b)
		ctx, cancel := ctxT(4 * core.Long)
		cl, err := a.Ping(ctx, addr)
		if err != nil {
			t.Inconclusive("%v", err)
			cancel()
			return
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := t.RNG("doomed", round*20+i)
				for j := 0; ; j++ {
					select {
					case <-stop:
						return
					default:
					}
					c, cc, how := doomed(rng, 4*time.Millisecond)
					op, err := operate(a, c, addr, rng, "sh"[j%2], uint32(i), uint32(j))
					cc()
					if err != nil && !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
						t.Violation("other-error", "a cancelled %s over a live connection returned: %v", op, err)
					}
					if err != nil {
						t.Count("cancelled operations", 1)
						t.Case("established/%s/%s/%d/%d/%d", op, how, round, i, j%16)
					}
				}
			}()
		}
		par(8, func(i int) {
			rng := t.RNG("other", round*20+i)
			for j := 0; j < 80; j++ {
				if op, err := operate(a, ctx, addr, rng, 's', uint32(100+i), uint32(j)); err != nil {
					t.Violation("other-failed", "a %s of a caller that was not cancelled failed while others were: %v", op, err)
					return
				}
				t.Count("operations of others", 1)
			}
		})
		t.Await(core.Long, func() bool { return t.Get("cancelled operations") > int64(300*(round+1)) })
		close(stop)
		wg.Wait()
		if err := cl.Error(); err != nil {
			t.Violation("closed", "cancelling operations closed a live connection: %v", err)
		}
		if c, err := a.Ping(ctx, addr); err != nil || c != cl {
			t.Violation("replaced", "after operations were cancelled there is another connection (%v)", err)
		}
		if n := ma.count("disconnected") + mb.count("disconnected"); n > 0 {
			t.Violation("closed", "cancelling operations caused %d disconnects", n)
		}
		if n := mb.count("connected"); n != 1 {
			t.Violation("replaced", "there were %d connections", n)
		}
		if n := ma.count("pingfailed"); n > 0 {
			t.Violation("reported", "a peer with a live connection was reported as failed to dial %d times, e.g. %v", n, ma.events()[len(ma.events())-1].err)
		}
		if !ka.Table().Recorded(b.ID().ID) {
			t.Violation("forgotten", "a peer with a live connection is no longer in the routing table after operations were cancelled")
		}
		cancel()
		t.RunCleanups()
	}
}

// c09stalled: callers are cancelled while the peer does not read; once it does, the others are served.
func c09stalled(t *core.T) {
	t.Require("cancelled operations", 60)
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		ma := newMon()
		a := mk(t, func(n *noise.Node) { n.Bind(ma.protocol()) })
		b := mk(t, func(n *noise.Node) { n.Handle(slowEcho) })
		r, err := wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), loop(b))
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		t.Cleanup(r.Close)
		r.Start()
		ctx, cancel := ctxT(4 * core.Long)
		cl, err := a.Ping(ctx, r.Addr())
		if err != nil {
			t.Inconclusive("%v", err)
			cancel()
			return
		}
		dir := round % 2 // requests, or responses
		r.Links()[0].Hold(dir, true)
		for i := 0; i < 20 && dir == 0; i++ {
			a.Send(ctx, r.Addr(), make([]byte, 1<<20))
		}
		var wg sync.WaitGroup
		var ok atomic.Int64
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				req := payload('e', uint32(i), 0, 40)
				res, err := a.Request(ctx, r.Addr(), req)
				if err != nil || !bytes.Equal(res, echoOf(req)) {
					t.Violation("other-failed", "a request over a connection that stalled was not answered after others were cancelled: %v", err)
					return
				}
				ok.Add(1)
			}()
		}
		par(12, func(i int) {
			rng := t.RNG("doomed", round*20+i)
			for j := 0; j < 4; j++ {
				c, cc, how := doomed(rng, 5*time.Millisecond)
				_, err := a.Request(c, r.Addr(), payload('e', 50+uint32(i), uint32(j), 40))
				cc()
				if err == nil {
					t.Violation("early", "a request was answered while the connection stalled")
				} else if !errors.Is(err, c.Err()) {
					t.Violation("other-error", "a cancelled request over a live connection returned: %v", err)
				}
				t.Count("cancelled operations", 1)
				t.Case("stalled/%d/%s/%d/%d", dir, how, round, i)
			}
		})
		r.Links()[0].Hold(dir, false)
		wg.Wait()
		if cl.Error() != nil || len(r.Links()) != 1 {
			t.Violation("closed", "cancelling operations ended a connection that stalled: %v", cl.Error())
		}
		if n := ma.count("pingfailed"); n > 0 {
			t.Violation("reported", "a peer with a live connection was reported as failed to dial")
		}
		cancel()
		t.RunCleanups()
	}
}

// c09connecting: several callers await a connection; some are cancelled at each stage of it.
func c09connecting(t *core.T) {
	t.Require("cancelled operations", 200)
	t.Require("operations of others", 150)
	for round := 0; round < t.N(80, 1000); round++ {
		t.PerturbRound(round)
		b := mk(t, func(n *noise.Node) { n.Handle(slowEcho) })
		hold := round % 4 // before the connection is relayed, or before a message of the handshake
		first := make(chan *wire.Link, 16)
		gate := make(chan struct{})
		r, err := wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), loop(b))
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		t.Cleanup(r.Close)
		var gateOpen sync.Once
		open := func() { gateOpen.Do(func() { close(gate) }) }
		t.Cleanup(open)
		r.OnFrame = func(l *wire.Link, dir, i int, raw []byte) ([]byte, bool) {
			if i < 2 && dir == hold%2 && i == hold/2 {
				select {
				case first <- l:
				default:
				}
				<-gate
			}
			return raw, true
		}
		r.Start()
		a := mk(t, nil, noise.WithNodeMaxDialAttempts(1))
		ctx, cancel := ctxT(core.Long)
		var wg sync.WaitGroup
		rng := t.RNG("round", round)
		stay, leave := 1+rng.Intn(4), 1+rng.Intn(6)
		// One that stays comes first, so that there is always someone who waits.
		others := func(i int) {
			defer wg.Done()
			rng := t.RNG("other", round*20+i)
			if op, err := operate(a, ctx, r.Addr(), rng, 'e', uint32(i), 0); err != nil {
				t.Violation("other-failed", "a %s of a caller that was not cancelled failed, as others that awaited the same connection were cancelled (stage %d): %v", op, hold, err)
			} else {
				t.Count("operations of others", 1)
			}
		}
		wg.Add(1)
		go others(0)
		select {
		case <-first:
		case <-ctx.Done():
			t.Inconclusive("no connection")
			cancel()
			return
		}
		for i := 0; i < leave; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := t.RNG("doomed", round*20+i)
				c, cc, how := doomed(rng, 6*time.Millisecond)
				defer cc()
				op, err := operate(a, c, r.Addr(), rng, 'e', uint32(i), 1)
				if err != nil {
					if !errors.Is(err, context.Canceled) && !errors.Is(err, context.DeadlineExceeded) {
						t.Violation("other-error", "a %s that was cancelled while connecting returned: %v", op, err)
					}
					t.Count("cancelled operations", 1)
					t.Case("connecting/%d/%s/%s/%d", hold, op, how, round)
				}
			}()
		}
		for i := 1; i < stay; i++ {
			wg.Add(1)
			go others(i)
		}
		time.Sleep(time.Duration(rng.Intn(8)) * time.Millisecond)
		open()
		wg.Wait()
		if n := len(r.Links()); n != 1 {
			t.Violation("again", "%d connections were made although a caller was waiting all the time", n)
		}
		if l := a.Outbound(); len(l) != 1 || l[0].Error() != nil {
			t.Violation("closed", "after callers were cancelled while connecting, the connection is gone")
		}
		cancel()
		t.RunCleanups()
	}
}

// c09retrying: the peer drops the first connections, while callers come and go.
func c09retrying(t *core.T) {
	t.Require("operations of others", 150)
	for round := 0; round < t.N(40, 500); round++ {
		t.PerturbRound(round)
		b := mk(t, func(n *noise.Node) { n.Handle(slowEcho) })
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		t.Cleanup(func() { l.Close() })
		go func() { // drops every other connection
			for i := 0; ; i++ {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				if i%2 == 0 {
					time.Sleep(time.Millisecond)
					nc.Close()
					continue
				}
				up, err := net.Dial("tcp", loop(b))
				if err != nil {
					nc.Close()
					continue
				}
				t.Cleanup(func() { nc.Close(); up.Close() })
				go pipe(nc, up)
				go pipe(up, nc)
			}
		}()
		a := mk(t, nil, noise.WithNodeMaxDialAttempts(50))
		ctx, cancel := ctxT(core.Long)
		par(10, func(i int) {
			rng := t.RNG("caller", round*20+i)
			time.Sleep(time.Duration(rng.Intn(2)) * time.Millisecond)
			if i%2 == 0 {
				c, cc, how := doomed(rng, 2*time.Millisecond)
				defer cc()
				if op, err := operate(a, c, l.Addr().String(), rng, 'e', uint32(i), 1); err != nil {
					t.Count("cancelled operations", 1)
					t.Case("retrying/%s/%s/%d", op, how, round)
				}
				return
			}
			if op, err := operate(a, ctx, l.Addr().String(), rng, 'e', uint32(i), 0); err != nil {
				t.Violation("other-failed", "a %s failed although the peer accepts every other connection and there were 50 attempts: %v", op, err)
			} else {
				t.Count("operations of others", 1)
			}
		})
		cancel()
		t.RunCleanups()
	}
}

func pipe(to, from net.Conn) {
	buf := make([]byte, 32<<10)
	for {
		n, err := from.Read(buf)
		if n > 0 {
			if _, err := to.Write(buf[:n]); err != nil {
				break
			}
		}
		if err != nil {
			break
		}
	}
	to.Close()
	from.Close()
}

// c09turns: every caller of a connection attempt is cancelled; the next caller gets connected all the same.
func c09turns(t *core.T) {
	t.Require("operations of others", 100)
	b := mk(t, func(n *noise.Node) { n.Handle(slowEcho) })
	for round := 0; round < t.N(120, 2000); round++ {
		t.PerturbRound(round)
		a := mk(t, nil)
		rng := t.RNG("turn", round)
		k := 1 + rng.Intn(3)
		par(k, func(i int) {
			rng := t.RNG("doomed", round*4+i)
			c, cc, how := doomed(rng, 3*time.Millisecond)
			defer cc()
			if op, err := operate(a, c, addrOf(b), rng, 'e', uint32(i), 1); err != nil {
				t.Count("cancelled operations", 1)
				t.Case("turns/%s/%s/%d", op, how, round)
			}
		})
		ctx, cancel := ctxT(core.Long)
		if _, err := a.Ping(ctx, addrOf(b)); err != nil {
			t.Violation("other-failed", "connecting failed after earlier callers had been cancelled: %v", err)
		} else {
			t.Count("operations of others", 1)
		}
		cancel()
		if l := a.Outbound(); len(l) != 1 {
			t.Violation("pool", "the node lists %d connections", len(l))
		}
		shut(t, a)
	}
}
