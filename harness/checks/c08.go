package checks

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C08",
		Rule:        "one case per ended connection, or per operation whose context ends; distinct by cause or stage, operation, number pending and round; non-trivial: operations were pending when the connection or context ended",
		Assumptions: []string{"a message that was accepted while its connection was still open may be lost with the connection: sends are asynchronous"},
		Scenarios: []core.Scenario{
			{Name: "ends", Run: c08ends},
			{Name: "contexts", Run: c08contexts},
			{Name: "closed", Run: c08closed},
			{Name: "racing", Run: c08racing},
		},
	})
}

// c08env is two nodes, a connected to b through a relay.
type c08env struct {
	a, b  *noise.Node
	r     *wire.Relay
	l     *wire.Link
	out   *noise.Client // a's side
	in    *noise.Client // b's side
	addr  string
	held  atomic.Int64 // requests that b will never answer
	mu    sync.Mutex
	ctx   *noise.HandlerContext // of a message from a to b
	ctxs  []noise.HandlerContext
	got   map[uint32]int // messages of tag m at b
	other *noise.Node
}

func newC08(t *core.T, ao, bo []opt) (*c08env, error) {
	e := &c08env{got: map[uint32]int{}}
	e.a = mk(t, func(n *noise.Node) {
		n.Handle(func(ctx noise.HandlerContext) error { return errors.New("a refuses this") })
	}, ao...)
	e.b = mk(t, func(n *noise.Node) {
		n.Handle(func(ctx noise.HandlerContext) error {
			p, err := parse(ctx.Data())
			if err != nil {
				return nil
			}
			switch p.tag {
			case 'h': // never answered
				e.mu.Lock()
				e.ctxs = append(e.ctxs, ctx)
				e.mu.Unlock()
				e.held.Add(1)
			case 'q':
				ctx.Send(echoOf(ctx.Data()))
			case 'm':
				e.mu.Lock()
				e.got[p.b]++
				c := ctx
				e.ctx = &c
				e.mu.Unlock()
			case 'x':
				return errors.New("b refuses this")
			}
			return nil
		})
	}, bo...)
	var err error
	if e.r, err = wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), loop(e.b)); err != nil {
		return nil, err
	}
	e.r.Start()
	t.Cleanup(e.r.Close)
	e.addr = e.r.Addr()
	ctx, cancel := ctxT(core.Long)
	defer cancel()
	if e.out, err = e.a.Ping(ctx, e.addr); err != nil {
		return nil, err
	}
	if !t.Await(core.Long, func() bool { return len(e.b.Inbound()) == 1 }) {
		return nil, errors.New("b lists no connection")
	}
	e.in = e.b.Inbound()[0]
	e.l = e.r.Links()[0]
	return e, nil
}

// context of a plain message from a at b.
func (e *c08env) msgCtx(t *core.T) *noise.HandlerContext {
	ctx, cancel := ctxT(core.Long)
	defer cancel()
	e.a.Send(ctx, e.addr, payload('m', 0, 1<<31, 30))
	t.Await(core.Long, func() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.ctx != nil })
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.ctx
}

type c08cause struct {
	name   string
	ao, bo []opt
	do     func(t *core.T, e *c08env) error
	big    bool
	alone  bool // other requests would get in the way
}

func badFrame(n int) []byte {
	b := make([]byte, 4+n)
	binary.BigEndian.PutUint32(b, uint32(n))
	return b
}

func c08causes() []c08cause {
	one := opts(noise.WithNodeMaxInboundConnections(1), noise.WithNodeMaxOutboundConnections(1))
	return []c08cause{
		{name: "closed by the requester", do: func(t *core.T, e *c08env) error { e.out.Close(); return nil }},
		{name: "closed by the responder", do: func(t *core.T, e *c08env) error { e.in.Close(); return nil }},
		{name: "shutdown of the requester", do: func(t *core.T, e *c08env) error { go e.a.Close(); return nil }},
		{name: "shutdown of the responder", do: func(t *core.T, e *c08env) error { go e.b.Close(); return nil }},
		{name: "end of stream", do: func(t *core.T, e *c08env) error { e.l.Cut(); return nil }},
		{name: "reset", do: func(t *core.T, e *c08env) error { e.l.Reset(); return nil }},
		{name: "handler error at the responder", do: func(t *core.T, e *c08env) error {
			return e.a.Send(bg, e.addr, payload('x', 0, 0, 30))
		}},
		{name: "handler error at the requester", do: func(t *core.T, e *c08env) error {
			c := e.msgCtx(t)
			if c == nil {
				return errors.New("no message arrived")
			}
			return c.Send(payload('x', 0, 0, 30))
		}},
		{name: "eviction at the requester", alone: true, ao: one, do: func(t *core.T, e *c08env) error {
			e.other = mk(t, nil)
			ctx, cancel := ctxT(core.Long)
			defer cancel()
			_, err := e.a.Ping(ctx, loop(e.other))
			return err
		}},
		{name: "eviction at the responder", alone: true, bo: one, do: func(t *core.T, e *c08env) error {
			c, err := wire.Dial(loop(e.b), wire.NewIdentity(4000), &wire.Options{Timeout: core.Long})
			if err == nil {
				t.Cleanup(func() { c.Close() })
			}
			return err
		}},
		{name: "failed write", ao: opts(noise.WithNodeIdleTimeout(150 * time.Millisecond)), big: true, do: func(t *core.T, e *c08env) error {
			e.l.Hold(0, true)
			return nil
		}},
		{name: "idle timeout of the requester", alone: true, ao: opts(noise.WithNodeIdleTimeout(150 * time.Millisecond)), do: func(t *core.T, e *c08env) error { return nil }},
		{name: "idle timeout of the responder", alone: true, bo: opts(noise.WithNodeIdleTimeout(150 * time.Millisecond)), do: func(t *core.T, e *c08env) error { return nil }},
		{name: "garbage from the network", do: func(t *core.T, e *c08env) error { return e.l.Inject(1, badFrame(60)) }},
		{name: "a too large record", do: func(t *core.T, e *c08env) error { return e.l.Inject(1, []byte{0x7f, 0, 0, 0}) }},
		{name: "a too short record", do: func(t *core.T, e *c08env) error { return e.l.Inject(1, badFrame(3)) }},
		{name: "a record the responder cannot read", do: func(t *core.T, e *c08env) error { return e.l.Inject(0, badFrame(60)) }},
	}
}

// c08ends: connections with pending requests end, for every cause.
func c08ends(t *core.T) {
	t.Require("pending requests that ended", 400)
	for round := 0; round < t.N(3, 40); round++ {
		for k, cause := range c08causes() {
			t.PerturbRound(round + k)
			n := []int{1, 6, 40}[(round+k)%3]
			e, err := newC08(t, cause.ao, cause.bo)
			if err != nil {
				t.Inconclusive("%s: %v", cause.name, err)
				t.RunCleanups()
				continue
			}
			size := 60
			if cause.big {
				size = 512 << 10
			}
			var ended, sound atomic.Int64
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					res, err := e.a.Request(bg, e.addr, payload('h', 0, uint32(i), size))
					if err == nil {
						t.Violation("made-up", "a request that nobody answered returned %s once its connection ended (%s)", short(res), cause.name)
					}
					ended.Add(1)
				}()
			}
			if cause.big {
				time.Sleep(20 * time.Millisecond)
			} else if !t.Await(core.Long, func() bool { return e.held.Load() >= int64(n) || ended.Load() > 0 }) {
				t.Violation("undelivered", "%d of %d requests arrived", e.held.Load(), n)
			}
			// More of them, which are being issued meanwhile.
			stop := make(chan struct{})
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; ; j++ {
						select {
						case <-stop:
							return
						default:
						}
						if cause.alone || cause.big {
							return
						}
						req := payload('q', uint32(i), uint32(j), 40)
						res, err := e.a.Request(bg, e.addr, req)
						if err == nil && !bytes.Equal(res, echoOf(req)) {
							t.Violation("made-up", "a request returned %s while its connection ended (%s)", short(res), cause.name)
						}
						if err == nil {
							sound.Add(1)
						} else {
							time.Sleep(time.Millisecond)
						}
					}
				}()
			}
			if err := cause.do(t, e); err != nil {
				t.Violation("cause", "%s: %v", cause.name, err)
			}
			if !t.Await(core.Long, func() bool { return ended.Load() == int64(n) }) {
				t.Violation("stuck", "%d of %d requests are still pending after %s\n%s", int64(n)-ended.Load(), n, cause.name, core.LibDump(20))
			}
			time.Sleep(5 * time.Millisecond)
			close(stop)
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			if !t.Done(core.Long, done) {
				t.Violation("stuck", "a request issued around %s is still pending\n%s", cause.name, core.LibDump(20))
			}
			t.Count("pending requests that ended", int(ended.Load()))
			t.Count("requests answered meanwhile", int(sound.Load()))
			t.Case("%s/%d/%d", cause.name, n, round)
			e.l.Hold(0, false)
			t.RunCleanups()
		}
	}
}

// blackhole is an address at which connecting neither succeeds nor fails.
func blackhole(t *core.T) (string, error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return "", err
	}
	t.Cleanup(func() { syscall.Close(fd) })
	port := 0
	for i := 0; ; i++ {
		port = int(t.Port())
		if err := syscall.Bind(fd, &syscall.SockaddrInet4{Port: port, Addr: [4]byte{127, 0, 0, 1}}); err == nil {
			break
		} else if i == 50 {
			return "", err
		}
	}
	if err := syscall.Listen(fd, 0); err != nil {
		return "", err
	}
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", addr, 150*time.Millisecond)
		if err != nil {
			return addr, nil
		}
		t.Cleanup(func() { c.Close() })
	}
	return "", errors.New("every connection is accepted")
}

// silent accepts connections and performs the given number of steps of the handshake.
func silent(t *core.T, steps int) (string, error) {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
	if err != nil {
		return "", err
	}
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			t.Cleanup(func() { nc.Close() })
			if steps > 0 {
				go wire.Handshake(nc, wire.NewIdentity(4100), &wire.Options{Stop: steps, Timeout: core.Long})
			}
		}
	}()
	return l.Addr().String(), nil
}

// c08contexts: contexts end at every stage of an operation.
func c08contexts(t *core.T) {
	t.Require("contexts that ended", 600)
	type stage struct {
		name string
		addr func() (*noise.Node, string, func(), error)
		free bool // the operation need not wait for anything
		req  bool // only requests wait
	}
	many := noise.WithNodeMaxDialAttempts(math.MaxInt32)
	at := func(f func() (string, error)) func() (*noise.Node, string, func(), error) {
		return func() (*noise.Node, string, func(), error) {
			addr, err := f()
			return mk(t, nil), addr, nil, err
		}
	}
	stages := []stage{
		{name: "connecting", addr: at(func() (string, error) { return blackhole(t) })},
		{name: "waiting for the first handshake message", addr: at(func() (string, error) { return silent(t, 0) })},
		{name: "waiting for the second handshake message", addr: at(func() (string, error) { return silent(t, 2) })},
		{name: "trying over and over again", addr: func() (*noise.Node, string, func(), error) {
			return mk(t, nil, many), fmt.Sprintf("127.0.0.1:%d", t.Port()), nil, nil
		}},
		{name: "in a callback of the handshake", addr: func() (*noise.Node, string, func(), error) {
			gate := make(chan struct{})
			a := mk(t, func(n *noise.Node) { n.Bind(noise.Protocol{OnPeerConnected: func(*noise.Client) { <-gate }}) })
			b := mk(t, nil)
			return a, loop(b), func() { close(gate) }, nil
		}},
		{name: "waiting for a response", req: true, addr: func() (*noise.Node, string, func(), error) {
			return mk(t, nil), loop(mk(t, func(n *noise.Node) { n.Handle(func(noise.HandlerContext) error { return nil }) })), nil, nil
		}},
		{name: "waiting for a busy node", req: true, addr: func() (*noise.Node, string, func(), error) {
			gate := make(chan struct{})
			b := mk(t, func(n *noise.Node) { n.Handle(func(noise.HandlerContext) error { <-gate; return nil }) }, noise.WithNodeNumWorkers(1))
			return mk(t, nil), loop(b), func() { close(gate) }, nil
		}},
		{name: "waiting for a node that does not read", req: true, addr: func() (*noise.Node, string, func(), error) {
			b := mk(t, func(n *noise.Node) { n.Handle(func(noise.HandlerContext) error { return nil }) })
			r, err := wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), loop(b))
			if err != nil {
				return nil, "", nil, err
			}
			t.Cleanup(r.Close)
			r.Start()
			a := mk(t, nil)
			ctx, cancel := ctxT(core.Long)
			defer cancel()
			if _, err := a.Ping(ctx, r.Addr()); err != nil {
				return nil, "", nil, err
			}
			l := r.Links()[0]
			l.Hold(0, true)
			for i := 0; i < 16; i++ {
				a.Send(ctx, r.Addr(), make([]byte, 1<<20))
			}
			soon, stop := ctxT(3 * time.Second)
			defer stop()
			if !t.Do(core.Long, func() { // so many that there might be no room for more
				for i := 0; i < 40000 && soon.Err() == nil; i++ {
					a.Send(soon, r.Addr(), payload('h', 1, uint32(i), 30))
				}
			}) {
				t.Violation("stuck", "a send to a node that does not read does not return, although its context has ended\n%s", core.LibDump(10))
			}
			t.Case("context/send/many queued")
			return a, r.Addr(), func() { l.Hold(0, false) }, nil
		}},
	}
	for round := 0; round < t.N(1, 12); round++ {
		for _, s := range stages {
			n, addr, undo, err := s.addr()
			if err != nil {
				t.Inconclusive("%s: %v", s.name, err)
				t.RunCleanups()
				continue
			}
			var mu sync.Mutex
			least := time.Hour
			trials := 0
			par(6, func(g int) {
				rng := t.RNG(s.name, round*10+g)
				for i := 0; i < t.N(18, 40); i++ {
					op := []string{"ping", "send", "request"}[rng.Intn(3)]
					if s.req {
						op = "request"
					}
					how := rng.Intn(3)
					d := time.Duration(rng.Intn(30)) * time.Millisecond
					var ctx context.Context
					var cancel context.CancelFunc
					want := context.Canceled
					var endAt atomic.Int64
					switch how {
					case 0:
						ctx, cancel = context.WithTimeout(bg, d)
						want = context.DeadlineExceeded
						endAt.Store(time.Now().Add(d).UnixNano())
					case 1:
						ctx, cancel = context.WithCancel(bg)
						c := cancel
						time.AfterFunc(d, func() { endAt.Store(time.Now().UnixNano()); c() })
					default:
						ctx, cancel = context.WithCancel(bg)
						cancel()
						endAt.Store(time.Now().UnixNano())
					}
					var err error
					ok := t.Do(core.Long, func() {
						switch op {
						case "ping":
							_, err = n.Ping(ctx, addr)
						case "send":
							err = n.Send(ctx, addr, payload('h', 0, 0, 30))
						default:
							_, err = n.Request(ctx, addr, payload('h', 0, 0, 30))
						}
					})
					late := time.Since(time.Unix(0, endAt.Load()))
					cancel()
					if !ok {
						t.Violation("ctx-stuck", "a %s did not return although its context ended while %s\n%s", op, s.name, core.LibDump(20))
						return
					}
					if err == nil {
						t.Violation("ctx-ignored", "a %s succeeded while %s", op, s.name)
					} else if !errors.Is(err, want) {
						t.Violation("ctx-error", "a %s whose context ended (%v) while %s returned: %v", op, want, s.name, err)
					}
					mu.Lock()
					trials++
					least = min(least, late)
					mu.Unlock()
					t.Count("contexts that ended", 1)
					t.Case("%s/%s/%d/%d/%d", s.name, op, how, d/4e6, round)
				}
			})
			if trials > 20 && least > 2*time.Second {
				t.Violation("ctx-late", "%d operations while %s returned %v or more after their contexts ended", trials, s.name, least)
			}
			if undo != nil {
				undo()
			}
			t.RunCleanups()
		}
	}
}

// c08closed: operations on connections that are closed already.
func c08closed(t *core.T) {
	t.Require("sends after the end", 100)
	t.Require("responses after the end", 40)
	for round := 0; round < t.N(4, 60); round++ {
		for k, cause := range c08causes() {
			if cause.big || cause.name == "shutdown of the requester" || cause.name == "shutdown of the responder" {
				continue
			}
			t.PerturbRound(round + k)
			e, err := newC08(t, cause.ao, cause.bo)
			if err != nil {
				t.Inconclusive("%s: %v", cause.name, err)
				t.RunCleanups()
				continue
			}
			mctx := e.msgCtx(t)
			go e.a.Request(bg, e.addr, payload('h', 0, 1, 30))
			if !t.Await(core.Long, func() bool { return e.held.Load() == 1 }) || mctx == nil {
				t.Inconclusive("%s: nothing arrives", cause.name)
				t.RunCleanups()
				continue
			}
			hctx := e.ctxs[0]
			if err := cause.do(t, e); err != nil {
				t.Inconclusive("%s: %v", cause.name, err)
			}
			if cause.name != "closed by the requester" || round%2 == 1 {
				if !t.Do(core.Long, e.out.WaitUntilClosed) {
					t.Violation("open", "a's side is still open after %s", cause.name)
					t.RunCleanups()
					continue
				}
			}
			// Towards the peer: either there is an error, or it arrives.
			var wg sync.WaitGroup
			var okm sync.Map
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ctx, cancel := ctxT(core.Long)
					defer cancel()
					if i%2 == 0 {
						id := uint32(i)
						if e.a.Send(ctx, e.addr, payload('m', 1, id, 30)) == nil {
							okm.Store(id, true)
						}
					} else {
						req := payload('q', 1, uint32(i), 30)
						res, err := e.a.Request(ctx, e.addr, req)
						if err == nil && !bytes.Equal(res, echoOf(req)) {
							t.Violation("made-up", "a request after %s returned %s", cause.name, short(res))
						} else if errors.Is(err, context.DeadlineExceeded) {
							t.Violation("dropped", "a request after %s was neither answered nor did it fail", cause.name)
						}
					}
					t.Count("sends after the end", 1)
				}()
			}
			wg.Wait()
			okm.Range(func(id, _ any) bool {
				if !t.Await(core.Long, func() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.got[id.(uint32)] > 0 }) {
					t.Violation("dropped", "a message sent after %s was accepted, but never arrived (connections so far: %d)", cause.name, len(e.r.Links()))
				}
				return true
			})
			// Through the context of a message that came over the closed connection.
			if !t.Do(core.Long, e.in.WaitUntilClosed) {
				t.Violation("open", "b's side is still open after %s", cause.name)
			} else {
				if hctx.Send([]byte("late")) == nil {
					t.Violation("silent", "responding over a connection that is closed (%s) reported no error", cause.name)
				}
				if mctx.Send([]byte("late")) == nil {
					t.Violation("silent", "replying over a connection that is closed (%s) reported no error", cause.name)
				}
				t.Count("responses after the end", 2)
			}
			t.Case("closed/%s/%d", cause.name, round)
			t.RunCleanups()
		}
	}
}

// c08racing: connections are closed over and over again under many callers. What was sent after its connection was
// closed by the sending node itself arrives; requests always return.
func c08racing(t *core.T) {
	t.Require("connections closed", 100)
	for round := 0; round < t.N(3, 40); round++ {
		t.PerturbRound(round)
		e, err := newC08(t, nil, nil)
		if err != nil {
			t.Inconclusive("%v", err)
			t.RunCleanups()
			continue
		}
		const rounds = 50
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var answered atomic.Int64
		for i := 0; i < 12; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; ; j++ {
					select {
					case <-stop:
						return
					default:
					}
					req := payload('q', uint32(i), uint32(j), 40)
					res, err := e.a.Request(bg, e.addr, req)
					if err == nil {
						answered.Add(1)
						if !bytes.Equal(res, echoOf(req)) {
							t.Violation("made-up", "a request returned %s", short(res))
						}
					}
				}
			}()
		}
		var lost []uint32
		rng := t.RNG("close", round)
		for i := 0; i < rounds; i++ {
			side := rng.Intn(3)
			switch side {
			case 0:
				ctx, cancel := ctxT(core.Long)
				c, err := e.a.Ping(ctx, e.addr)
				if err == nil {
					c.Close()
					if e.a.Send(ctx, e.addr, payload('m', 2, uint32(i), 30)) == nil {
						lost = append(lost, uint32(i))
					}
				}
				cancel()
			case 1:
				for _, c := range e.b.Inbound() {
					c.Close()
				}
			default:
				l := e.r.Links()
				l[len(l)-1].Reset()
			}
			t.Count("connections closed", 1)
			time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
			if side == 0 && len(lost) > 0 && lost[len(lost)-1] == uint32(i) {
				id := uint32(i)
				if !t.Await(core.Long/2, func() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.got[id] > 0 }) {
					t.Violation("dropped", "a message sent after its sender closed the previous connection was accepted, but never arrived")
				}
			}
		}
		close(stop)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		if !t.Done(core.Long, done) {
			t.Violation("stuck", "requests are pending although their connections were closed\n%s", core.LibDump(20))
		}
		t.Count("requests answered", int(answered.Load()))
		t.Case("racing/%d", round)
		t.RunCleanups()
	}
}
