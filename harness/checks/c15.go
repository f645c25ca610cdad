package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C15",
		Rule:        "one case per connection whose messages' handlers were followed to their end; distinct by scenario, number of handlers and workers, direction, failing handler, kind of error and round; non-trivial: a handler failed on this connection or on another one of the same node",
		Assumptions: []string{"messages that were received behind one whose handler failed may or may not be handled"},
		Scenarios: []core.Scenario{
			{Name: "chain", Run: c15chain},
			{Name: "endless", Run: c15endless},
			{Name: "bound", Run: c15bound},
			{Name: "twins", Run: c15twins},
		},
	})
}

type listError []string // not comparable

func (e listError) Error() string { return fmt.Sprint([]string(e)) }

// c15errors makes one error of each kind.
func c15errors(tag string) []error {
	return []error{
		errors.New("handler " + tag),
		io.EOF,
		fmt.Errorf("handler %s: %w", tag, net.ErrClosed),
		context.Canceled,
		listError{"handler", tag},
		&net.OpError{Op: "read", Err: errors.New("use of closed network connection")},
		noise.ErrMessageTooLarge,
	}
}

func isErr(got, want error) bool {
	return got != nil && (sameErr(got, want) || errors.Is(got, want))
}

// chainLog records which handlers ran for which message.
type chainLog struct {
	mu   sync.Mutex
	runs map[[2]uint32][]int // handler number when it starts, -1-number when it ends
	errs map[uint32]error    // what handlers returned, by connection
	k    int
	at   func(p parsed) (handler int, err error)
	rng  *mrand.Rand
}

func (l *chainLog) handler(i int) noise.Handler {
	return func(ctx noise.HandlerContext) error {
		p, err := parse(ctx.Data())
		if err != nil {
			return err
		}
		if p.tag == 'e' {
			if i == l.k-1 {
				return echo(ctx)
			}
			return nil
		}
		key := [2]uint32{p.a, p.b}
		l.mu.Lock()
		l.runs[key] = append(l.runs[key], i)
		d := time.Duration(l.rng.Intn(4)) * 100 * time.Microsecond
		l.mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
		l.mu.Lock()
		defer l.mu.Unlock()
		l.runs[key] = append(l.runs[key], -1-i)
		if h, err := l.at(p); h == i {
			l.errs[p.a] = err
			return err
		}
		return nil
	}
}

func (l *chainLog) of(a, b uint32) []int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]int{}, l.runs[[2]uint32{a, b}]...)
}

func chain(n int) (want []int) {
	for i := 0; i < n; i++ {
		want = append(want, i, -1-i)
	}
	return
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// c15chain: handlers run in order until one fails, which costs this connection only.
func c15chain(t *core.T) {
	t.Require("messages followed through their handlers", 800)
	t.Require("handler errors", 40)
	const conns, msgs = 8, 10
	for round := 0; round < t.N(20, 200); round++ {
		t.PerturbRound(round)
		rng := t.RNG("chain", round)
		k := 1 + round%5
		workers := []uint{1, 2, 3, 8}[round%4]
		kinds := c15errors(fmt.Sprint(round))
		failMsg, failAt := [conns]int{}, [conns]int{}
		failErr := [conns]error{}
		for i := range failMsg {
			failMsg[i] = -1
			if rng.Intn(2) == 0 {
				failMsg[i], failAt[i], failErr[i] = rng.Intn(msgs), rng.Intn(k), kinds[rng.Intn(len(kinds))]
			}
		}
		log := &chainLog{runs: map[[2]uint32][]int{}, errs: map[uint32]error{}, k: k, rng: t.RNG("delay", round)}
		log.at = func(p parsed) (int, error) {
			if int(p.b) == failMsg[p.a] {
				return failAt[p.a], failErr[p.a]
			}
			return -1, nil
		}
		m := newMon()
		n := mk(t, func(n *noise.Node) {
			// Handlers are registered one by one or together.
			for i := 0; i < k; {
				if i+1 < k && (round+i)%2 == 0 {
					n.Handle(log.handler(i), log.handler(i+1))
					i += 2
				} else {
					n.Handle(log.handler(i))
					i++
				}
			}
			n.Bind(m.protocol())
		}, noise.WithNodeNumWorkers(workers))
		var cs [conns]*live
		var of [conns]*noise.Client
		ok := true
		for i := range cs {
			c, _, err := peerOf(t, n, i%2 == 1)
			if err != nil {
				t.Inconclusive("connecting: %v", err)
				ok = false
				break
			}
			cs[i] = alive(c)
			pub := c.Self.Pub()
			t.Await(core.Long, func() bool {
				for _, e := range m.events() {
					if e.kind == "connected" && [32]byte(e.id.ID) == pub {
						of[i] = e.c
					}
				}
				return of[i] != nil
			})
		}
		if !ok {
			t.RunCleanups()
			continue
		}
		par(conns, func(i int) {
			for j := 0; j < msgs; j++ {
				nonce := uint64(0)
				if j%3 == 1 {
					nonce = 1<<32 + uint64(j)
				}
				if cs[i].Send(wire.Msg{Nonce: nonce, Data: payload('h', uint32(i), uint32(j), 21+(i*j)%50)}) != nil {
					return
				}
			}
		})
		for i := range cs {
			what := fmt.Sprintf("connection %d of %d (%s; %d handlers, %d workers)", i, conns, []string{"inbound", "outbound"}[i%2], k, workers)
			upto := msgs
			if failMsg[i] >= 0 {
				upto = failMsg[i]
			}
			for j := 0; j < msgs; j++ {
				want := chain(k)
				if j == failMsg[i] {
					want = chain(failAt[i] + 1)
				}
				switch {
				case j <= upto:
					if !t.Await(core.Long, func() bool { return len(log.of(uint32(i), uint32(j))) >= len(want) }) {
						t.Violation("not-handled", "message %d of %s: handlers %v ran, should be %v", j, what, log.of(uint32(i), uint32(j)), want)
					}
				}
			}
			if failMsg[i] < 0 {
				if !cs[i].served(t) {
					t.Violation("other-closed", "%s had no failing message, but was closed (%v) or is not served any more", what, of[i].Error())
				}
				if err := of[i].Error(); err != nil {
					t.Violation("other-error", "%s had no failing message, but has the error %v", what, err)
				}
				continue
			}
			t.Count("handler errors", 1)
			if !t.Await(core.Long, cs[i].closed.Load) {
				t.Violation("not-closed", "%s: handler %d returned %v, but the connection stays open", what, failAt[i], failErr[i])
				continue
			}
			if !t.Do(core.Long, of[i].WaitUntilClosed) {
				t.Violation("not-closed", "%s: handler %d returned %v, but the connection never ends", what, failAt[i], failErr[i])
				continue
			}
			if err := of[i].Error(); !isErr(err, failErr[i]) {
				t.Violation("error-lost", "%s: handler %d returned %q, but the connection's error is %v", what, failAt[i], failErr[i], err)
			}
		}
		// Whatever else is still going to be handled is by the time of this.
		for i := 0; i < 3; i++ {
			if err := probeEcho(loop(n), rng); err != nil {
				t.Violation("unserved", "after handler errors (%d workers), a new connection is not served: %v", workers, err)
				break
			}
		}
		shut(t, n)
		for i := range cs {
			for j := 0; j < msgs; j++ {
				got := log.of(uint32(i), uint32(j))
				full := chain(k)
				bad := false
				switch {
				case failMsg[i] < 0 || j < failMsg[i]:
					bad = !sameInts(got, full)
				case j == failMsg[i]:
					bad = !sameInts(got, chain(failAt[i]+1))
				default: // possibly not yet over when the node was closed
					bad = len(got) > len(full) || !sameInts(got, full[:len(got)])
				}
				if bad {
					t.Violation("handler-order", "message %d of connection %d (fails at message %d, handler %d; %d handlers, %d workers): handlers started and ended as %v", j, i, failMsg[i], failAt[i], k, workers, got)
				}
				t.Count("messages followed through their handlers", 1)
			}
			t.Case("chain/%d/%d/%d/%d/%v/%d", k, workers, i%2, failAt[i], failErr[i] != nil, round)
			cs[i].Close()
		}
		t.RunCleanups()
	}
}

// probeEcho connects and makes an 'e' request.
func probeEcho(addr string, rng *mrand.Rand) error {
	c, err := wire.Dial(addr, wire.NewIdentity(4202), &wire.Options{Timeout: core.Long})
	if err != nil {
		return err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(core.Long))
	_, err = c.Call(1+uint64(rng.Intn(1000)), payload('e', rng.Uint32(), 0, 40), nil)
	return err
}

// c15endless: there is no number of errors that would stop a node from handling messages.
func c15endless(t *core.T) {
	t.Require("handler errors", 150)
	t.Require("requests answered meanwhile", 200)
	for round := 0; round < t.N(6, 40); round++ {
		t.PerturbRound(round)
		workers := []int{1, 2, 4, 8, 3, 16}[round%6]
		var failed atomic.Int64
		n := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				d := ctx.Data()
				if d[0] != 'x' {
					return nil
				}
				failed.Add(1)
				kinds := c15errors("endless")
				switch d[1] % 4 {
				case 1: // after a response
					ctx.Send([]byte("sorry"))
				case 2: // late
					time.Sleep(2 * time.Millisecond)
				}
				return kinds[int(d[2])%len(kinds)]
			}, echo)
		}, noise.WithNodeNumWorkers(uint(workers)))
		c, _, err := peerOf(t, n, round%2 == 1)
		if err != nil {
			t.Inconclusive("connecting: %v", err)
			continue
		}
		steady := alive(c)
		stop := make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				default:
				}
				if !steady.served(t) {
					t.Violation("steady", "a connection without errors is not served any more after %d errors on others (%d workers)", failed.Load(), workers)
					return
				}
				t.Count("requests answered meanwhile", 1)
				time.Sleep(time.Millisecond)
			}
		}()
		total := 6*workers + 24
		par(4, func(g int) {
			rng := t.RNG(fmt.Sprint("endless", round), g)
			for i := 0; i < total/4; i++ {
				c, _, err := peerOf(t, n, rng.Intn(3) == 0)
				if err != nil {
					t.Violation("unserved", "after %d handler errors (%d workers) a connection cannot be made: %v", failed.Load(), workers, err)
					return
				}
				data := make([]byte, 8)
				rng.Read(data)
				data[0] = 'x'
				how := rng.Intn(3)
				for j := 0; j <= how; j++ {
					c.Send(wire.Msg{Nonce: uint64(rng.Intn(2) * (1 + j)), Data: data})
				}
				if how == 1 { // the connection ends on its own
					c.Close()
				} else if _, closed := closedByPeer(t, c); !closed {
					t.Violation("not-closed", "a handler returned an error, but the connection stays open")
					c.Close()
				}
				t.Count("handler errors", 1)
				t.Case("endless/%d/%d/%d/%d/%d/%d", workers, data[1]%4, data[2]%7, how, round, i)
			}
		})
		close(stop)
		<-done
		for i := 0; i < workers+1; i++ {
			if err := probe(loop(n), wire.NewIdentity(4203), t.Rand); err != nil {
				t.Violation("unserved", "after %d handler errors (%d workers), a new connection is not served: %v", failed.Load(), workers, err)
				break
			}
		}
		if !steady.served(t) {
			t.Violation("steady", "a connection without errors is not served any more after %d errors on others (%d workers)", failed.Load(), workers)
		}
		steady.Close()
		t.RunCleanups()
	}
}

// c15bound: no more handlers than workers run at once, before and after errors, and other workers keep working while
// some of them are taken up.
func c15bound(t *core.T) {
	t.Require("saturations", 8)
	t.Require("handlers started", 300)
	for round := 0; round < t.N(8, 60); round++ {
		t.PerturbRound(round)
		rng := t.RNG("bound", round)
		workers := []int{1, 2, 3, 5, 8, 2}[round%6]
		var running, most, started atomic.Int64
		var gate atomic.Pointer[chan struct{}]
		fresh := func() chan struct{} { g := make(chan struct{}); gate.Store(&g); return g }
		g := fresh()
		n := mk(t, func(n *noise.Node) {
			enter := func() {
				r := running.Add(1)
				for {
					m := most.Load()
					if r <= m || most.CompareAndSwap(m, r) {
						break
					}
				}
				started.Add(1)
			}
			n.Handle(func(ctx noise.HandlerContext) error {
				enter()
				defer running.Add(-1)
				d := ctx.Data()
				switch d[0] {
				case 'b':
					<-*gate.Load()
				case 'x':
					<-*gate.Load()
					return errors.New("over")
				default:
					return echo(ctx)
				}
				return nil
			})
		}, noise.WithNodeNumWorkers(uint(workers)))
		for step := 0; step < 3; step++ {
			var cs []*live
			send := func(k int, kind byte) {
				for i := 0; i < k; i++ {
					c, _, err := peerOf(t, n, rng.Intn(2) == 0)
					if err != nil {
						t.Inconclusive("connecting: %v", err)
						return
					}
					l := alive(c)
					cs = append(cs, l)
					d := make([]byte, 5)
					d[0] = kind
					c.Send(wire.Msg{Nonce: uint64(1000 * rng.Intn(2)), Data: d})
				}
			}
			// All workers but one are taken up.
			kind := []byte{'b', 'x', 'b'}[step]
			send(workers-1, kind)
			if !t.Await(core.Long, func() bool { return running.Load() >= int64(workers-1) }) {
				t.Violation("lost-worker", "only %d handlers run at once for %d messages, with %d workers (step %d)", running.Load(), workers-1, workers, step)
			}
			c, _, err := peerOf(t, n, step%2 == 0)
			if err != nil {
				t.Inconclusive("connecting: %v", err)
				break
			}
			l := alive(c)
			cs = append(cs, l)
			if !l.served(t) {
				t.Violation("blocked", "with %d of %d workers taken up, another connection is not served (step %d)", workers-1, workers, step)
			}
			// And then there are many more messages than workers.
			send(workers+3, kind)
			for _, l := range cs {
				for i := 0; i < 3; i++ {
					l.Send(wire.Msg{Data: []byte{'b', byte(i)}})
				}
			}
			if !t.Await(core.Long, func() bool { return running.Load() >= int64(workers) }) {
				t.Violation("lost-worker", "only %d handlers run at once with %d workers and many messages (step %d)", running.Load(), workers, step)
			} else {
				t.Count("saturations", 1)
			}
			time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
			old := g
			g = fresh()
			close(old)
			// Messages that come now meet the new gate.
			time.Sleep(time.Duration(rng.Intn(5)) * time.Millisecond)
			old = g
			g = make(chan struct{})
			close(g)
			gate.Store(&g)
			close(old)
			t.Await(core.Long, func() bool { return running.Load() == 0 })
			if err := probe(loop(n), wire.NewIdentity(4204), rng); err != nil {
				t.Violation("unserved", "after %d handlers ended (%d workers), a new connection is not served: %v", started.Load(), workers, err)
			}
			if m := most.Load(); m > int64(workers) {
				t.Violation("too-many", "%d handlers ran at once, but the number of workers is %d (step %d)", m, workers, step)
			}
			for i, l := range cs {
				t.Case("bound/%d/%d/%d/%d", workers, step, i, round)
				l.Close()
			}
			g = fresh()
		}
		close(g)
		t.Count("handlers started", int(started.Load()))
		t.RunCleanups()
	}
}

// c15twins: of several connections between the same peers, only the one that the message came over is closed.
func c15twins(t *core.T) {
	t.Require("errors on one of several connections", 40)
	for round := 0; round < t.N(40, 300); round++ {
		t.PerturbRound(round)
		mons := [2]*mon{newMon(), newMon()}
		var ns [2]*noise.Node
		boom := errors.New("boom")
		for i := range ns {
			ns[i] = mk(t, func(n *noise.Node) {
				n.Bind(mons[i].protocol())
				n.Handle(func(ctx noise.HandlerContext) error {
					if ctx.Data()[0] == 'x' {
						return boom
					}
					return echo(ctx)
				})
			}, noise.WithNodeNumWorkers(uint(1+round%3)))
		}
		var out [2]*noise.Client
		var err error
		for i := range ns {
			ctx, cancel := ctxT(core.Long)
			if out[i], err = ns[i].Ping(ctx, loop(ns[1-i])); err != nil {
				t.Inconclusive("ping: %v", err)
			}
			cancel()
		}
		// A reference peer with one identity and three connections, too.
		id := wire.NewIdentity(4205)
		var ls []*live
		for i := 0; i < 3; i++ {
			c, err := wire.Dial(loop(ns[0]), id, &wire.Options{Timeout: core.Long})
			if err != nil {
				t.Inconclusive("connecting: %v", err)
				continue
			}
			ls = append(ls, alive(c))
		}
		if err != nil || len(ls) < 3 || !t.Await(core.Long, func() bool { return len(ns[0].Inbound()) == 4 && len(ns[1].Inbound()) == 1 }) {
			t.RunCleanups()
			continue
		}
		in := func(i int) *noise.Client {
			for _, c := range ns[i].Inbound() {
				if c.ID().ID == ns[1-i].ID().ID {
					return c
				}
			}
			return nil
		}
		ins := [2]*noise.Client{in(0), in(1)}
		victim := round % 2 // the node whose handler fails
		ctx, cancel := ctxT(core.Long)
		if err := ns[1-victim].Send(ctx, loop(ns[victim]), []byte("x")); err != nil {
			t.Inconclusive("send: %v", err)
		}
		if !t.Do(core.Long, ins[victim].WaitUntilClosed) {
			t.Violation("not-closed", "a handler returned an error, but the connection stays open")
		} else if err := ins[victim].Error(); !isErr(err, boom) {
			t.Violation("error-lost", "a handler returned %q, but the connection's error is %v", boom, err)
		}
		t.Do(core.Long, out[1-victim].WaitUntilClosed)
		ls[round%3].Send(wire.Msg{Data: []byte("x")})
		t.Await(core.Long, ls[round%3].closed.Load)
		for i, l := range ls {
			if i == round%3 {
				if !l.closed.Load() {
					t.Violation("not-closed", "a handler returned an error, but the connection stays open")
				}
			} else if !l.served(t) {
				t.Violation("other-closed", "a handler's error on one connection of a peer ended another connection of the same peer")
			}
		}
		req := payload('q', uint32(round), 0, 40)
		if _, err := ns[victim].Request(ctx, loop(ns[1-victim]), req); err != nil {
			t.Violation("other-closed", "a handler's error on an inbound connection made a request over the outbound connection to the same peer fail: %v", err)
		}
		if err := out[victim].Error(); err != nil {
			t.Violation("other-error", "the outbound connection to the peer, which had no failing message, has the error %v", err)
		}
		if now := ns[victim].Outbound(); len(now) != 1 || now[0] != out[victim] {
			t.Violation("other-closed", "a handler's error on an inbound connection ended the outbound connection to the same peer")
		}
		cancel()
		t.Count("errors on one of several connections", 2)
		t.Case("twins/%d/%d", victim, round)
		t.Case("identity/%d", round)
		for _, l := range ls {
			l.Close()
		}
		t.RunCleanups()
	}
}
