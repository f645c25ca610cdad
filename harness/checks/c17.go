package checks

import (
	"bytes"
	"context"
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C17",
		Rule:        "one case per operation whose connection attempts were counted by a reference listener; distinct by scenario, configured maximum, operation, way each attempt fails and round; non-trivial: at least one attempt failed",
		Assumptions: []string{"attempts that the operating system refuses cannot be counted; only their outcome is judged", "operations at the same time towards the same address share attempts"},
		Scenarios: []core.Scenario{
			{Name: "exact", Run: c17exact},
			{Name: "recover", Run: c17recover},
			{Name: "later", Run: c17later},
			{Name: "crowd", Run: c17crowd},
		},
	})
}

// c17ways are ways in which a connection attempt fails after it was accepted.
var c17ways = []string{"close", "reset", "hello then close", "garbage", "short hello", "bad hello signature", "read then close", "oversize", "bad id signature", "id then close", "late close", "empty frame"}

func c17fail(nc net.Conn, way string, id *wire.Identity) {
	defer nc.Close()
	nc.SetDeadline(time.Now().Add(core.Long))
	rest := func() { // keeps the connection until the node gives it up
		buf := make([]byte, 4096)
		for {
			if _, err := nc.Read(buf); err != nil {
				return
			}
		}
	}
	switch way {
	case "close":
	case "reset":
		nc.(*net.TCPConn).SetLinger(0)
	case "hello then close":
		wire.Handshake(nc, id, &wire.Options{Stop: 1})
	case "read then close":
		wire.Handshake(nc, id, &wire.Options{Stop: 2})
	case "garbage":
		nc.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
		rest()
	case "short hello":
		nc.Write(wire.Frame(make([]byte, 95)))
		rest()
	case "empty frame":
		nc.Write(wire.Frame(nil))
		rest()
	case "bad hello signature":
		wire.Handshake(nc, id, &wire.Options{Stop: 2, Hello: func(c *wire.Conn, b []byte) []byte { b[70] ^= 1; return b }})
		rest()
	case "oversize":
		nc.Write([]byte{0xff, 0xff, 0xff, 0xff, 0})
		rest()
	case "bad id signature":
		wire.Handshake(nc, id, &wire.Options{IDBody: func(c *wire.Conn, b []byte) []byte { b[len(b)-40] ^= 1; return b }, NoRead: true})
		rest()
	case "id then close":
		// Half of the record that completes the handshake.
		wire.Handshake(nc, id, &wire.Options{IDRecord: func(c *wire.Conn, rec []byte) []byte { return rec[:len(rec)/2] }, NoRead: true})
	case "silence":
		rest()
	case "late close":
		time.Sleep(30 * time.Millisecond)
	}
}

// fickle is a listener whose connections fail until told otherwise.
type fickle struct {
	l        net.Listener
	id       *wire.Identity
	accepted atomic.Int64
	mu       sync.Mutex
	plan     []string // how the next connections fail; behind its end they succeed, unless always is set
	always   bool
	good     []*live
	conns    []net.Conn
}

func newFickle(t *core.T, addr string) *fickle {
	var l net.Listener
	var err error
	for i := 0; i < 20; i++ {
		a := addr
		if a == "" {
			a = fmt.Sprintf("127.0.0.1:%d", t.Port())
		}
		if l, err = net.Listen("tcp", a); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	f := &fickle{l: l, id: wire.NewIdentity(4208)}
	t.Cleanup(f.close)
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			f.conns = append(f.conns, nc)
			i := int(f.accepted.Add(1)) - 1
			way := ""
			if i < len(f.plan) {
				way = f.plan[i]
			} else if f.always {
				way = f.plan[i%len(f.plan)]
			}
			f.mu.Unlock()
			go func() {
				if way != "" {
					c17fail(nc, way, f.id)
					return
				}
				c, err := wire.Handshake(nc, f.id, &wire.Options{Timeout: core.Long})
				if err != nil {
					nc.Close()
					return
				}
				lv := &live{Conn: c, got: map[uint64][]byte{}}
				f.mu.Lock()
				f.good = append(f.good, lv)
				f.mu.Unlock()
				for {
					m, err := c.Recv()
					if err != nil {
						lv.closed.Store(true)
						c.Close()
						return
					}
					lv.mu.Lock()
					lv.got[uint64(len(lv.got))] = m.Data
					lv.mu.Unlock()
					if m.Nonce > 0 {
						c.Send(wire.Msg{Nonce: m.Nonce, Data: echoOf(m.Data)})
					}
				}
			}()
		}
	}()
	return f
}

func (f *fickle) addr() string { return f.l.Addr().String() }

func (f *fickle) close() {
	f.l.Close()
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, c := range f.conns {
		c.Close()
	}
}

// got reports whether data arrived over one of the connections that worked.
func (f *fickle) got(data []byte) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, c := range f.good {
		c.mu.Lock()
		for _, d := range c.got {
			if bytes.Equal(d, data) {
				c.mu.Unlock()
				return true
			}
		}
		c.mu.Unlock()
	}
	return false
}

// c17op performs an operation. What it sends is data.
func c17op(n *noise.Node, ctx context.Context, kind int, addr string, data []byte) error {
	switch kind % 3 {
	case 0:
		_, err := n.Ping(ctx, addr)
		return err
	case 1:
		return n.Send(ctx, addr, data)
	default:
		res, err := n.Request(ctx, addr, data)
		if err == nil && !bytes.Equal(res, echoOf(data)) {
			return fmt.Errorf("wrong response")
		}
		return err
	}
}

// c17max gives the configured option and the number it stands for.
func c17max(i int) (o []opt, max int) {
	switch i % 6 {
	case 0:
		return nil, 3
	case 1:
		return opts(noise.WithNodeMaxDialAttempts(0)), 1
	case 2:
		return opts(noise.WithNodeMaxDialAttempts(1)), 1
	case 3:
		return opts(noise.WithNodeMaxDialAttempts(2)), 2
	case 4:
		return opts(noise.WithNodeMaxDialAttempts(5)), 5
	default:
		return opts(noise.WithNodeMaxDialAttempts(3)), 3
	}
}

func c17plan(rng *mrand.Rand, n int) (plan []string) {
	for i := 0; i < n; i++ {
		plan = append(plan, c17ways[rng.Intn(len(c17ways))])
	}
	return
}

// c17exact: no attempt succeeds.
func c17exact(t *core.T) {
	t.Require("operations that gave up", 60)
	for round := 0; round < t.N(4, 40); round++ {
		t.PerturbRound(round)
		for v := 0; v < 6; v++ {
			o, max := c17max(v)
			m := newMon()
			n := mk(t, func(n *noise.Node) { n.Bind(m.protocol()); n.Handle(echo) }, o...)
			// Several operations towards different addresses, at once.
			par(3+len(c17ways)/3, func(i int) {
				rng := t.RNG("exact", (round*6+v)*100+i)
				f := newFickle(t, "")
				f.plan, f.always = c17plan(rng, 1+rng.Intn(4)), true
				ctx, cancel := ctxT(2 * core.Long)
				defer cancel()
				if rng.Intn(3) == 0 {
					ctx = bg
				}
				var err error
				if !t.Do(2*core.Long, func() { err = c17op(n, ctx, i, f.addr(), []byte("data")) }) {
					t.Violation("hang", "an operation towards a peer that fails with %v does not return (maximum %d, %d attempts so far)", f.plan, max, f.accepted.Load())
					return
				}
				if err == nil && !(i%3 == 1) {
					t.Violation("false-success", "an operation succeeded although every connection fails with %v", f.plan)
				} else if err == nil {
					t.Violation("false-success", "a send succeeded although no connection came about (%v)", f.plan)
				}
				time.Sleep(time.Duration(rng.Intn(40)) * time.Millisecond)
				if got := f.accepted.Load(); got != int64(max) {
					t.Violation("attempts", "%d connection attempts were made, should be %d (operation %d; connections fail with %v)", got, max, i%3, f.plan)
				}
				t.Count("operations that gave up", 1)
				t.Case("exact/%d/%d/%v/%d/%d", v, i%3, f.plan, i, round)
				if i == 0 && v == 0 {
					t.Sample("maximum %d, attempts fail with %v: %d attempts seen, then: %v", max, f.plan, f.accepted.Load(), err)
				}
			})
			if k := len(n.Outbound()); k != 0 && !t.Await(core.Long, func() bool { return len(n.Outbound()) == 0 }) {
				t.Violation("left-behind", "%d failed connections are still listed", k)
			}
			t.RunCleanups()
		}
	}
}

// c17recover: an attempt succeeds after some have failed.
func c17recover(t *core.T) {
	t.Require("operations that recovered", 60)
	for round := 0; round < t.N(4, 40); round++ {
		t.PerturbRound(round)
		for v := 0; v < 6; v++ {
			o, max := c17max(v)
			m := newMon()
			n := mk(t, func(n *noise.Node) { n.Bind(m.protocol()); n.Handle(echo) }, o...)
			par(9, func(i int) {
				rng := t.RNG("recover", (round*6+v)*100+i)
				f := newFickle(t, "")
				f.plan = c17plan(rng, rng.Intn(max))
				data := payload('r', uint32(i), uint32(round), 30)
				var err error
				ctx, cancel := ctxT(2 * core.Long)
				defer cancel()
				if !t.Do(2*core.Long, func() { err = c17op(n, ctx, i, f.addr(), data) }) {
					t.Violation("hang", "an operation does not return (maximum %d, %d attempts so far, failing with %v)", max, f.accepted.Load(), f.plan)
					return
				}
				if err != nil {
					t.Violation("gave-up", "attempt %d of %d would have succeeded, but the operation failed after %d attempts: %v (earlier ones fail with %v)", len(f.plan)+1, max, f.accepted.Load(), err, f.plan)
					return
				}
				if i%3 == 1 && !t.Await(core.Long, func() bool { return f.got(data) }) {
					t.Violation("lost", "an attempt succeeded after %v, and a send was successful, but nothing arrived", f.plan)
				}
				time.Sleep(time.Duration(rng.Intn(30)) * time.Millisecond)
				if got := f.accepted.Load(); got != int64(len(f.plan)+1) {
					t.Violation("attempts", "%d connection attempts were made, should be %d: number %d succeeds (earlier ones fail with %v)", got, len(f.plan)+1, len(f.plan)+1, f.plan)
				}
				if m.count("pingfailed") > 0 {
					t.Violation("pingfailed", "a peer was reported as failed although an attempt succeeded")
				}
				// It is the connection used from now on.
				if err := c17op(n, ctx, 2, f.addr(), data); err != nil {
					t.Violation("unusable", "a connection that came about after %v does not work: %v", f.plan, err)
				} else if got := f.accepted.Load(); got != int64(len(f.plan)+1) {
					t.Violation("attempts", "another connection was made although there is one")
				}
				t.Count("operations that recovered", 1)
				t.Case("recover/%d/%d/%v/%d/%d", v, i%3, f.plan, i, round)
			})
			t.RunCleanups()
		}
	}
}

// c17later: what failed earlier has no influence once the peer is reachable.
func c17later(t *core.T) {
	t.Require("peers that came back", 40)
	for round := 0; round < t.N(30, 200); round++ {
		t.PerturbRound(round)
		o, max := c17max(round)
		m := newMon()
		n := mk(t, func(n *noise.Node) { n.Bind(m.protocol()); n.Handle(echo) }, o...)
		par(4, func(i int) {
			rng := t.RNG("later", round*100+i)
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", t.Port()))
			if err != nil {
				t.Inconclusive("listen: %v", err)
				return
			}
			addr := l.Addr().String()
			l.Close()
			for cycle := 0; cycle < 3; cycle++ {
				what := ""
				fails := 1 + rng.Intn(3)
				var f *fickle
				switch rng.Intn(3) {
				case 0:
					what = "refused"
				case 1:
					what = "failing handshakes"
					f = newFickle(t, addr)
					f.plan, f.always = c17plan(rng, 3), true
				case 2:
					what = "no answer"
					f = newFickle(t, addr)
					f.plan, f.always = []string{"silence"}, true
				}
				for j := 0; j < fails; j++ {
					ctx, cancel := ctxT(2 * core.Long)
					if what == "no answer" {
						cancel()
						ctx, cancel = ctxT(time.Duration(5+rng.Intn(30)) * time.Millisecond)
					}
					var err error
					if !t.Do(2*core.Long, func() { err = c17op(n, ctx, rng.Intn(3), addr, []byte("data")) }) {
						t.Violation("hang", "an operation towards an unreachable peer (%s) does not return (maximum %d)", what, max)
						cancel()
						return
					}
					cancel()
					if err == nil {
						t.Violation("false-success", "an operation towards an unreachable peer (%s) succeeded", what)
					}
				}
				if f != nil {
					f.l.Close()
				}
				f = newFickle(t, addr)
				data := payload('l', uint32(round*100+i), uint32(cycle), 40)
				kind := rng.Intn(3)
				ctx, cancel := ctxT(2 * core.Long)
				if err := c17op(n, ctx, kind, addr, data); err != nil {
					t.Violation("not-reachable", "after %d failed operations (%s), the peer is reachable, but an operation fails: %v (maximum %d, %d connections were accepted)", fails, what, err, max, f.accepted.Load())
				} else if kind == 1 && !t.Await(core.Long, func() bool { return f.got(data) }) {
					t.Violation("lost", "after %d failed operations (%s), the peer is reachable, but what is sent does not arrive", fails, what)
				}
				cancel()
				if got := f.accepted.Load(); got != 1 {
					t.Violation("attempts", "after %d failed operations (%s), %d connections were made to the reachable peer, should be one", fails, what, got)
				}
				t.Count("peers that came back", 1)
				t.Case("later/%d/%s/%d/%d/%d/%d", max, what, fails, kind, i, round)
				f.close()
				t.Await(core.Long, func() bool { // the connection's end is noticed
					for _, c := range n.Outbound() {
						if c.ID().ID == noise.PublicKey(f.id.Pub()) {
							return false
						}
					}
					return true
				})
			}
		})
		t.RunCleanups()
	}
}

// c17crowd: many operations at once towards the same unreachable address.
func c17crowd(t *core.T) {
	t.Require("operations at once", 100)
	for round := 0; round < t.N(12, 100); round++ {
		t.PerturbRound(round)
		o, max := c17max(round)
		n := mk(t, func(n *noise.Node) { n.Handle(echo) }, o...)
		rng := t.RNG("crowd", round)
		f := newFickle(t, "")
		f.plan, f.always = c17plan(rng, 3), true
		const k = 10
		var failed atomic.Int64
		par(k, func(i int) {
			ctx, cancel := ctxT(2 * core.Long)
			defer cancel()
			var err error
			if !t.Do(2*core.Long, func() { err = c17op(n, ctx, i, f.addr(), []byte("data")) }) {
				t.Violation("hang", "one of several operations towards a peer that fails with %v does not return", f.plan)
				return
			}
			if err == nil {
				t.Violation("false-success", "an operation succeeded although every connection fails with %v", f.plan)
			}
			failed.Add(1)
			t.Count("operations at once", 1)
			t.Case("crowd/%d/%v/%d/%d", max, f.plan, i%3, round)
		})
		if got := f.accepted.Load(); got < int64(max) || got > int64(k*max) {
			t.Violation("attempts", "%d operations at once made %d connection attempts, should be between %d and %d", k, got, max, k*max)
		}
		if !t.Await(core.Long, func() bool { return len(n.Outbound()) == 0 }) {
			t.Violation("left-behind", "failed connections are still listed")
		}
		t.RunCleanups()
	}
}
