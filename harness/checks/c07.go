package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C07",
		Rule:        "one request per case; distinct by scenario, responder, order of responses and number in flight; non-trivial: other requests were in flight on the same connection",
		Assumptions: []string{"both ends of a connection do not use the same nonce for requests of their own (the API only lets the dialing end issue requests)"},
		Scenarios: []core.Scenario{
			{Name: "shuffled", Run: c07shuffled},
			{Name: "handlers", Run: c07handlers},
			{Name: "late", Run: c07late},
			{Name: "long", Run: c07long, Timeout: 180 * time.Second},
			{Name: "requester", Run: c07requester},
			{Name: "responder", Run: c07responder},
		},
	})
}

// c07shuffled: many requests over shared connections, answered after arbitrary delays.
func c07shuffled(t *core.T) {
	t.Require("responses compared", 3000)
	for round := 0; round < t.N(6, 100); round++ {
		t.PerturbRound(round)
		var nreq, nmsg atomic.Int64
		mkResp := func(salt byte) *noise.Node {
			var mu sync.Mutex
			var held []noise.HandlerContext
			rng := t.RNG("delay", round*10+int(salt))
			flush := func(all bool) {
				mu.Lock()
				if !all && len(held) < 6+rng.Intn(10) {
					mu.Unlock()
					return
				}
				l := held
				held = nil
				rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				mu.Unlock()
				for _, ctx := range l {
					if err := ctx.Send(append([]byte{salt}, echoOf(ctx.Data())...)); err != nil {
						t.Violation("refused", "the only response to a request was refused: %v", err)
					}
				}
			}
			n := mk(t, func(n *noise.Node) {
				n.Handle(func(ctx noise.HandlerContext) error {
					p, err := parse(ctx.Data())
					if err != nil {
						t.Violation("altered", "a request arrived altered: %v", err)
						return nil
					}
					if ctx.IsRequest() != (p.tag == 'q') {
						t.Violation("flag", "a %c was flagged as a request: %v", p.tag, ctx.IsRequest())
					}
					if p.tag == 'm' {
						nmsg.Add(1)
						return nil
					}
					nreq.Add(1)
					mu.Lock()
					held = append(held, ctx)
					mu.Unlock()
					if p.b%3 == 0 {
						go flush(false)
					} else {
						flush(false)
					}
					return nil
				})
			}, noise.WithNodeNumWorkers(uint(1+round%4)))
			go func() {
				for i := 0; i < 4000; i++ {
					time.Sleep(5 * time.Millisecond)
					flush(true)
				}
			}()
			return n
		}
		var stray atomic.Int64
		resp := []*noise.Node{mkResp(1), mkResp(2)}
		reqs := make([]*noise.Node, 2)
		for i := range reqs {
			reqs[i] = mk(t, func(n *noise.Node) {
				n.Handle(func(ctx noise.HandlerContext) error {
					stray.Add(1)
					t.Violation("stray", "a response reached a handler: %s (request: %v)", short(ctx.Data()), ctx.IsRequest())
					return nil
				})
			})
		}
		ctx, cancel := ctxT(2 * core.Long)
		var sentM atomic.Int64
		const workers, each = 24, 30
		par(workers, func(i int) {
			rng := t.RNG("req", round*100+i)
			from := reqs[i%2]
			for j := 0; j < each; j++ {
				k := rng.Intn(2)
				req := payload('q', uint32(i), uint32(j), 21+rng.Intn(300))
				if rng.Intn(4) == 0 {
					if from.Send(ctx, addrOf(resp[k]), payload('m', uint32(i), uint32(j), 30)) == nil {
						sentM.Add(1)
					}
				}
				res, err := from.Request(ctx, addrOf(resp[k]), req)
				if err != nil {
					t.Violation("no-response", "a request that was answered failed: %v", err)
					return
				}
				if !bytes.Equal(res, append([]byte{byte(k + 1)}, echoOf(req)...)) {
					t.Violation("mixed-up", "a request returned another's response: %s", short(res))
				}
				t.Count("responses compared", 1)
				t.Case("shuffled/%d/%d/%d", round, i, j)
			}
		})
		cancel()
		t.Await(core.Long, func() bool { return nmsg.Load() == sentM.Load() })
		if nreq.Load() != workers*each {
			t.Violation("requests", "%d requests were issued, but %d reached the handlers", workers*each, nreq.Load())
		}
		t.RunCleanups()
	}
}

// c07handlers: all handlers try to respond, also concurrently and more than once.
func c07handlers(t *core.T) {
	t.Require("requests with several responders", 300)
	for round := 0; round < t.N(8, 100); round++ {
		t.PerturbRound(round)
		var mu sync.Mutex
		type try struct {
			who int
			err error
		}
		tries := map[string][]try{}
		nh := 2 + round%4
		record := func(ctx noise.HandlerContext, who int) {
			err := ctx.Send(append([]byte{byte(who)}, ctx.Data()...))
			mu.Lock()
			tries[string(ctx.Data())] = append(tries[string(ctx.Data())], try{who, err})
			mu.Unlock()
		}
		want := 0
		n := mk(t, func(n *noise.Node) {
			want = 0
			for h := 0; h < nh; h++ {
				h := h
				switch (h + round) % 4 {
				case 0:
					want++
					n.Handle(func(ctx noise.HandlerContext) error { record(ctx, h*10); return nil })
				case 1:
					want += 2
					n.Handle(func(ctx noise.HandlerContext) error { record(ctx, h*10); record(ctx, h*10+1); return nil })
				case 2:
					want += 3
					n.Handle(func(ctx noise.HandlerContext) error {
						for g := 0; g < 3; g++ {
							go record(ctx, h*10+g)
						}
						return nil
					})
				default: // through copies of the context, all at once
					want += 8
					n.Handle(func(ctx noise.HandlerContext) error {
						start := make(chan struct{})
						var wg sync.WaitGroup
						for g := 0; g < 8; g++ {
							cp := ctx
							wg.Add(1)
							go func() { defer wg.Done(); <-start; record(cp, h*10+g) }()
						}
						close(start)
						wg.Wait()
						return nil
					})
				}
			}
		}, noise.WithNodeNumWorkers(4))
		// The reference peer sees each record.
		c, _, err := peerOf(t, n, false)
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		const reqs = 60
		got := map[uint64][][]byte{}
		data := map[uint64][]byte{}
		var dmu sync.Mutex
		done := make(chan struct{})
		go func() {
			defer close(done)
			for {
				m, err := c.Recv()
				if err != nil {
					return
				}
				dmu.Lock()
				got[m.Nonce] = append(got[m.Nonce], m.Data)
				dmu.Unlock()
			}
		}()
		for i := 1; i <= reqs; i++ {
			d := payload('h', uint32(round), uint32(i), 40)
			data[uint64(i*7)] = d
			c.Send(wire.Msg{Nonce: uint64(i * 7), Data: d})
		}
		total := func() int {
			mu.Lock()
			defer mu.Unlock()
			k := 0
			for _, l := range tries {
				k += len(l)
			}
			return k
		}
		if !t.Await(core.Long, func() bool { return total() == reqs*want }) {
			t.Violation("stuck", "%d of %d attempts to respond returned", total(), reqs*want)
		}
		t.Await(core.Long, func() bool { dmu.Lock(); defer dmu.Unlock(); return len(got) == reqs })
		time.Sleep(20 * time.Millisecond)
		c.Close()
		<-done
		for nonce, d := range data {
			l := tries[string(d)]
			ok, who := 0, -1
			for _, x := range l {
				if x.err == nil {
					ok++
					who = x.who
				}
			}
			if ok != 1 {
				t.Violation("several", "of %d attempts to respond to one request %d succeeded", len(l), ok)
			}
			if len(got[nonce]) != 1 {
				t.Violation("several", "%d responses to one request were sent", len(got[nonce]))
			} else if !bytes.Equal(got[nonce][0], append([]byte{byte(who)}, d...)) {
				t.Violation("mixed-up", "the response that was sent is not that of the attempt that succeeded: %s", short(got[nonce][0]))
			}
			t.Count("requests with several responders", 1)
			t.Case("handlers/%d/%d", round, nonce)
		}
		if len(got) != reqs {
			t.Violation("several", "responses to %d requests, but %d were made", len(got), reqs)
		}
		t.RunCleanups()
	}
}

// c07late: callers give up, and their responses come later.
func c07late(t *core.T) {
	t.Require("late responses", 100)
	for round := 0; round < t.N(6, 80); round++ {
		t.PerturbRound(round)
		var mu sync.Mutex
		held := map[uint32]noise.HandlerContext{}
		gate := make(chan struct{})
		b := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				p, _ := parse(ctx.Data())
				if !ctx.IsRequest() {
					return nil
				}
				if p.tag == 'l' {
					mu.Lock()
					held[p.b] = ctx
					mu.Unlock()
					return nil
				}
				if p.tag == 'w' { // waits until after the late ones
					go func() { <-gate; ctx.Send(echoOf(ctx.Data())) }()
					return nil
				}
				return ctx.Send(echoOf(ctx.Data()))
			})
		})
		m := newMon()
		a := mk(t, func(n *noise.Node) {
			n.Bind(m.protocol())
			n.Handle(func(ctx noise.HandlerContext) error {
				t.Violation("stray", "a late response reached a handler: %s (request: %v)", short(ctx.Data()), ctx.IsRequest())
				return nil
			})
		})
		bgc, cancelAll := ctxT(2 * core.Long)
		var wg sync.WaitGroup
		check := func(tag byte, j int) {
			req := payload(tag, uint32(round), uint32(j), 50)
			res, err := a.Request(bgc, addrOf(b), req)
			if err != nil || !bytes.Equal(res, echoOf(req)) {
				t.Violation("mixed-up", "among late responses a request returned %s (%v)", short(res), err)
			}
			t.Count("responses compared", 1)
		}
		for j := 0; j < 20; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); check('w', 1000+j) }()
		}
		var lwg sync.WaitGroup
		const late = 30
		for j := 0; j < late; j++ {
			lwg.Add(1)
			go func() {
				defer lwg.Done()
				rng := t.RNG("late", round*100+j)
				ctx, cancel := ctxT(time.Duration(5+rng.Intn(60)) * time.Millisecond)
				defer cancel()
				if j%3 > 0 { // gives up once its request is known to have arrived
					long, giveUp := ctxT(core.Long)
					defer giveUp()
					ctx = long
					pause := time.Duration(rng.Intn(20)) * time.Millisecond
					go func() {
						t.Await(core.Long, func() bool {
							mu.Lock()
							defer mu.Unlock()
							_, arrived := held[uint32(j)]
							return arrived
						})
						time.Sleep(pause)
						giveUp()
					}()
				}
				if res, err := a.Request(ctx, addrOf(b), payload('l', uint32(round), uint32(j), 60)); err == nil {
					t.Violation("mixed-up", "a request that nobody answered returned %s", short(res))
				}
			}()
		}
		if !t.Do(core.Long, lwg.Wait) {
			t.Violation("stuck", "callers that gave up have not returned")
			cancelAll()
			return
		}
		n := 0
		mu.Lock()
		l := held
		held = map[uint32]noise.HandlerContext{}
		mu.Unlock()
		for j, ctx := range l {
			if err := ctx.Send(echoOf(ctx.Data())); err != nil {
				t.Violation("refused", "a late, but only response was refused: %v", err)
			}
			n++
			if j%5 == 0 {
				check('q', 2000+int(j))
			}
			t.Case("late/%d/%d", round, j)
		}
		t.Count("late responses", n)
		for j := 0; j < 10; j++ {
			check('q', 3000+j)
		}
		close(gate)
		if !t.Do(core.Long, wg.Wait) {
			t.Violation("stuck", "requests that were answered have not returned\n%s", core.LibDump(20))
		}
		cancelAll()
		if m.count("disconnected") > 0 {
			t.Violation("dropped", "late responses made the connection drop")
		}
		t.RunCleanups()
	}
}

// c07requester: a reference peer issues requests with nonces of all kinds.
func c07requester(t *core.T) {
	t.Require("responses compared", 1000)
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		n := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				if ctx.IsRequest() != (len(ctx.Data()) > 0 && ctx.Data()[0] == 'q') {
					t.Violation("flag", "%s was flagged as a request: %v", short(ctx.Data()), ctx.IsRequest())
				}
				if !ctx.IsRequest() {
					// Messages may be answered as often as one likes.
					for i := 0; i < 3; i++ {
						if err := ctx.Send([]byte{'r', byte(i)}); err != nil {
							t.Violation("refused", "a reply to a message was refused: %v", err)
						}
					}
					return nil
				}
				if len(ctx.Data())%2 == 0 {
					go func() {
						time.Sleep(time.Duration(len(ctx.Data())%7) * time.Millisecond)
						ctx.Send(echoOf(ctx.Data()))
					}()
					return nil
				}
				return ctx.Send(echoOf(ctx.Data()))
			})
		}, noise.WithNodeNumWorkers(3))
		par(3, func(p int) {
			c, _, err := peerOf(t, n, p == 2)
			if err != nil {
				t.Inconclusive("%v", err)
				return
			}
			defer c.Close()
			rng := t.RNG("nonces", round*10+p)
			want := map[uint64][][]byte{}
			msgs := 0
			nonces := []uint64{1, 2, 255, 256, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1, 1 << 63, ^uint64(0) - 1, ^uint64(0)}
			for i := 0; i < 120; i++ {
				nonce := nonces[rng.Intn(len(nonces))]
				if rng.Intn(2) == 0 {
					nonce = rng.Uint64() | 1
				}
				d := append([]byte("q"), payload('q', uint32(p), uint32(i), 21+rng.Intn(100))...)
				if rng.Intn(6) == 0 {
					c.Send(wire.Msg{Data: append([]byte("m"), d...)})
					msgs++
				}
				want[nonce] = append(want[nonce], echoOf(d))
				c.Send(wire.Msg{Nonce: nonce, Data: d})
			}
			total := 120 + 3*msgs
			replies := 0
			for i := 0; i < total; i++ {
				c.SetReadDeadline(time.Now().Add(core.Long))
				m, err := c.Recv()
				if err != nil {
					t.Violation("no-response", "%d of %d responses and replies were sent: %v", i, total, err)
					return
				}
				if m.Nonce == 0 {
					replies++
					if len(m.Data) != 2 {
						t.Violation("mixed-up", "a response was sent as a message: %s", short(m.Data))
					}
					continue
				}
				found := false
				for k, w := range want[m.Nonce] {
					if bytes.Equal(w, m.Data) {
						want[m.Nonce] = append(want[m.Nonce][:k:k], want[m.Nonce][k+1:]...)
						found = true
						break
					}
				}
				if !found {
					t.Violation("mixed-up", "the response to request %d is another's or comes twice: %s", m.Nonce, short(m.Data))
				}
				t.Count("responses compared", 1)
				t.Case("requester/%d/%d/%d", round, p, i)
			}
			if replies != 3*msgs {
				t.Violation("replies", "%d replies to %d messages", replies, msgs)
			}
			c.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
			if m, err := c.Recv(); err == nil {
				t.Violation("several", "one record too many: %s", short(m.Data))
			}
		})
		t.RunCleanups()
	}
}

// c07responder: a reference peer answers a node's requests in any order, some never, some twice, and sends responses
// nobody waits for.
func c07responder(t *core.T) {
	t.Require("responses compared", 1000)
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		var handled sync.Map
		n := mk(t, func(n *noise.Node) {
			n.Handle(func(ctx noise.HandlerContext) error {
				handled.Store(string(ctx.Data()), ctx.IsRequest())
				if !bytes.HasPrefix(ctx.Data(), []byte("own")) {
					t.Violation("stray", "a response reached a handler: %s", short(ctx.Data()))
				}
				if ctx.IsRequest() != bytes.HasPrefix(ctx.Data(), []byte("own request")) {
					t.Violation("flag", "%q was flagged as a request: %v", ctx.Data(), ctx.IsRequest())
				}
				return nil
			})
		})
		c, _, err := peerOf(t, n, true)
		if err != nil {
			t.Inconclusive("%v", err)
			return
		}
		addr := c.LocalAddr().String()
		rng := mrand.New(mrand.NewSource(t.Seed*1000 + int64(round)))
		var unanswered atomic.Int64
		go func() {
			var q []wire.Msg
			flush := func() {
				rng.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
				for _, m := range q {
					if rng.Intn(8) == 0 {
						c.Send(wire.Msg{Data: []byte(fmt.Sprintf("own message %d", m.Nonce))})
					}
					if rng.Intn(8) == 0 {
						c.Send(wire.Msg{Nonce: m.Nonce | 1<<40, Data: []byte(fmt.Sprintf("own request %d", m.Nonce))})
					}
					if len(m.Data) > 0 && m.Data[0] == 'n' { // never
						unanswered.Add(1)
						continue
					}
					var s [8]byte
					binary.BigEndian.PutUint64(s[:], m.Nonce)
					sum := sha256.Sum256(m.Data)
					c.Send(wire.Msg{Nonce: m.Nonce, Data: sum[:]})
				}
				q = nil
			}
			seen := map[uint64]bool{}
			for {
				c.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
				m, err := recvIdle(c)
				if err == errIdle {
					flush()
					continue
				}
				if err != nil {
					return
				}
				if m.Nonce == 0 {
					t.Violation("flag", "a request was sent as a message")
				}
				if seen[m.Nonce] {
					t.Violation("nonce", "two requests were sent under nonce %d", m.Nonce)
				}
				seen[m.Nonce] = true
				q = append(q, m)
				if len(q) > 5+rng.Intn(30) {
					flush()
				}
			}
		}()
		par(20, func(i int) {
			for j := 0; j < 15; j++ {
				req := payload('q', uint32(i), uint32(j), 40)
				to := core.Long
				if j%7 == 6 {
					req = payload('n', uint32(i), uint32(j), 40)
					to = 20 * time.Millisecond
				}
				ctx, cancel := ctxT(to)
				res, err := n.Request(ctx, addr, req)
				cancel()
				if req[0] == 'n' {
					if err == nil {
						t.Violation("mixed-up", "a request that nobody answered returned %s", short(res))
					}
					continue
				}
				sum := sha256.Sum256(req)
				if err != nil || !bytes.Equal(res, sum[:]) {
					t.Violation("mixed-up", "a request returned %s (%v)", short(res), err)
				}
				t.Count("responses compared", 1)
				t.Case("responder/%d/%d/%d", round, i, j)
			}
		})
		c.Close()
		t.RunCleanups()
	}
}

var errIdle = fmt.Errorf("nothing to read")

// recvIdle is Recv, but returns errIdle if nothing at all arrives before the read deadline.
func recvIdle(c *wire.Conn) (wire.Msg, error) {
	var h [4]byte
	n, err := c.Read(h[:1])
	if n == 0 {
		if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
			return wire.Msg{}, errIdle
		}
		return wire.Msg{}, err
	}
	c.SetReadDeadline(time.Now().Add(core.Long))
	rec, err := wire.ReadFrame(&oneMore{h[0], false, c})
	if err != nil {
		return wire.Msg{}, err
	}
	b, err := c.Open(rec)
	if err != nil || len(b) < 8 {
		return wire.Msg{}, fmt.Errorf("bad record: %v", err)
	}
	return wire.Msg{Nonce: binary.BigEndian.Uint64(b), Data: b[8:]}, nil
}

type oneMore struct {
	b    byte
	done bool
	c    *wire.Conn
}

func (o *oneMore) Read(p []byte) (int, error) {
	if !o.done {
		o.done = true
		p[0] = o.b
		return 1, nil
	}
	return o.c.Read(p)
}

// c07long: a connection sees more requests than fit into small numbers, while some are never answered, and some not
// before all others.
func c07long(t *core.T) {
	total := t.N(70000, 300000)
	t.Require("responses compared", total)
	gate := make(chan struct{})
	b := mk(t, func(n *noise.Node) {
		n.Handle(func(ctx noise.HandlerContext) error {
			switch p, _ := parse(ctx.Data()); p.tag {
			case 'n':
				return nil
			case 'w':
				go func() { <-gate; ctx.Send(echoOf(ctx.Data())) }()
				return nil
			}
			return ctx.Send(echoOf(ctx.Data()))
		})
	})
	a := mk(t, nil)
	ctx, cancel := ctxT(160 * time.Second)
	defer cancel()
	one := func(tag byte, i, j int) bool {
		req := payload(tag, uint32(i), uint32(j), 24+j%20)
		res, err := a.Request(ctx, addrOf(b), req)
		if err != nil || !bytes.Equal(res, echoOf(req)) {
			t.Violation("mixed-up", "after many requests on a connection, one returned %s (%v)", short(res), err)
			return false
		}
		t.Count("responses compared", 1)
		return true
	}
	if !one('q', 1000, 0) {
		return
	}
	var waiting sync.WaitGroup
	for i := 0; i < 50; i++ {
		waiting.Add(1)
		go func() { defer waiting.Done(); one('w', 2000, i) }()
		never, stop := ctxT(50 * time.Millisecond)
		go func() {
			defer stop()
			if res, err := a.Request(never, addrOf(b), payload('n', 3000, uint32(i), 30)); err == nil {
				t.Violation("mixed-up", "a request that nobody answered returned %s", short(res))
			}
		}()
	}
	const callers = 24
	par(callers, func(i int) {
		for j := 0; j < total/callers+1; j++ {
			if !one('q', i, j) {
				return
			}
		}
	})
	close(gate)
	if !t.Do(core.Long, waiting.Wait) {
		t.Violation("stuck", "requests that were answered have not returned\n%s", core.LibDump(20))
	}
	if n := len(a.Outbound()); n != 1 {
		t.Violation("dropped", "there are %d connections after many requests", n)
	}
	t.Case("long/%d", total)
}
