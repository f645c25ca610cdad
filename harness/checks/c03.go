package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"sync"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID: "C03",
		Rule: "one connection between two nodes through a relay per case, with one interference; distinct by kind, direction and record; " +
			"non-trivial: the interference was applied, which is checked",
		Assumptions: []string{"repetition, removal, reordering and reflection of whole, unmodified records are known findings, and are judged by whether they have exactly the known effect"},
		Scenarios: []core.Scenario{
			{Name: "tamper0", Run: func(t *core.T) { c03tamper(t, 0) }},
			{Name: "tamper1", Run: func(t *core.T) { c03tamper(t, 1) }},
			{Name: "whole", Run: c03whole},
		},
	})
}

// c03side records what one node is handed.
type c03side struct {
	*mon
	mu  sync.Mutex
	got []c03msg
	err []error // of connections that ended
}

type c03msg struct {
	p    parsed
	req  bool
	junk bool
}

func (s *c03side) setup(answer bool) func(n *noise.Node) {
	return func(n *noise.Node) {
		s.mon = newMon()
		n.Bind(s.protocol(), noise.Protocol{OnPeerDisconnected: func(c *noise.Client) {
			s.mu.Lock()
			s.err = append(s.err, c.Error())
			s.mu.Unlock()
		}})
		n.Handle(func(ctx noise.HandlerContext) error {
			p, err := parse(ctx.Data())
			s.mu.Lock()
			s.got = append(s.got, c03msg{p, ctx.IsRequest(), err != nil})
			s.mu.Unlock()
			if !answer || err != nil {
				return nil
			}
			if ctx.IsRequest() {
				return ctx.Send(echoOf(ctx.Data()))
			}
			return ctx.Send(payload('r', p.a, p.b, 21+int(p.b*37%900)))
		})
	}
}

func (s *c03side) take(cas uint32) (l []c03msg) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, m := range s.got {
		if m.junk || m.p.a == cas {
			l = append(l, m)
		}
	}
	return l
}

const c03limit = 8192

type c03env struct {
	t      *core.T
	a, b   *noise.Node
	sa, sb *c03side
	prev   [2][][]byte // records of an earlier connection
	cas    uint32
}

func newC03(t *core.T) *c03env {
	e := &c03env{t: t, sa: &c03side{}, sb: &c03side{}}
	e.a = mk(t, e.sa.setup(false), noise.WithNodeMaxDialAttempts(1), noise.WithNodeNumWorkers(1), noise.WithNodeMaxRecvMessageSize(c03limit))
	e.b = mk(t, e.sb.setup(true), noise.WithNodeNumWorkers(1), noise.WithNodeMaxRecvMessageSize(c03limit))
	return e
}

// run drives one connection. hook changes frames after the handshake; i counts them from 0.
func (e *c03env) run(n int, requests bool, hook func(l *wire.Link, dir, i int, raw []byte) ([]byte, bool)) (l *wire.Link, cl *noise.Client, sent int, ok bool) {
	t := e.t
	e.cas++
	r, err := wire.NewRelay(fmt.Sprintf("127.0.0.1:%d", t.Port()), loop(e.b))
	if err != nil {
		t.Inconclusive("relay: %v", err)
		return
	}
	r.OnLink = func(l *wire.Link) { l.Record = true }
	r.OnFrame = func(l *wire.Link, dir, i int, raw []byte) ([]byte, bool) {
		if i < 2 || hook == nil {
			return raw, true
		}
		return hook(l, dir, i-2, raw)
	}
	r.Start()
	defer r.L.Close()
	ctx, cancel := ctxT(core.Long)
	defer cancel()
	cl, err = e.a.Ping(ctx, r.Addr())
	if err != nil {
		t.Inconclusive("connecting through the relay: %v", err)
		r.Close()
		return
	}
	r.L.Close() // no second connection
	l = r.Links()[0]
	for sent = 0; sent < n; sent++ {
		data := payload('m', e.cas, uint32(sent), 21+int(uint32(sent)*53%1200))
		if requests && sent%4 == 3 {
			rctx, rcancel := ctxT(600 * time.Millisecond)
			res, err := e.a.Request(rctx, r.Addr(), data)
			rcancel()
			if err == nil && !bytes.Equal(res, echoOf(data)) {
				t.Violation("wrong-response", "a request returned something that is not its response: %s", short(res))
			}
			if err != nil {
				select {
				default:
				}
				sent++
				break
			}
		} else if err := e.a.Send(ctx, r.Addr(), data); err != nil {
			break
		}
	}
	// Keep on sending, so that a record whose length was changed does get its bytes.
	for i := 0; i < 60 && !gone(cl); i++ {
		if e.a.Send(ctx, r.Addr(), payload('f', e.cas, uint32(sent+i), 1000)) != nil {
			break
		}
		if i%10 == 9 {
			time.Sleep(2 * time.Millisecond)
		}
	}
	return l, cl, sent, true
}

func gone(c *noise.Client) bool { return c.Error() != nil }

type tamper struct {
	name string
	// f returns the bytes to forward instead of the frame; false cuts the connection after them.
	f func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool)
	// keep: the frame itself is still delivered before the interference
	keep bool
}

func flipRange(raw []byte, rng *mrand.Rand, from, to int) []byte {
	out := append([]byte{}, raw...)
	out[from+rng.Intn(to-from)] ^= 1 << rng.Intn(8)
	return out
}

func tampers() []tamper {
	reframe := func(b []byte) []byte { return wire.Frame(b) }
	return []tamper{
		{name: "flip-length", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return flipRange(raw, rng, 0, 4), true
		}},
		{name: "flip-nonce", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return flipRange(raw, rng, 4, 16), true
		}},
		{name: "flip-head", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return flipRange(raw, rng, 16, 24), true
		}},
		{name: "flip-body", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return flipRange(raw, rng, 24, len(raw)-16), true
		}},
		{name: "flip-tag", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return flipRange(raw, rng, len(raw)-16, len(raw)), true
		}},
		{name: "truncate", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return reframe(raw[4 : 4+rng.Intn(len(raw)-4)]), true
		}},
		{name: "truncate-tail", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return reframe(raw[4 : len(raw)-1-rng.Intn(17)]), true
		}},
		{name: "remove-bytes", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			at := 4 + rng.Intn(len(raw)-5)
			n := 1 + rng.Intn(len(raw)-at-1)
			return append(append([]byte{}, raw[:at]...), raw[at+n:]...), true
		}},
		{name: "extend", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return reframe(append(append([]byte{}, raw[4:]...), make([]byte, 1+rng.Intn(40))...)), true
		}},
		{name: "prepend", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return reframe(append(make([]byte, 1+rng.Intn(40)), raw[4:]...)), true
		}},
		{name: "two-in-one", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return reframe(append(append([]byte{}, raw[4:]...), raw[4:]...)), true
		}},
		{name: "inject-random", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			b := make([]byte, rng.Intn(300))
			rng.Read(b)
			return append(reframe(b), raw...), true
		}},
		{name: "inject-empty", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return append(reframe(nil), raw...), true
		}},
		{name: "inject-clear", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return append(reframe(wire.Encode(wire.Msg{Nonce: uint64(rng.Intn(3)), Data: payload('x', e.cas, 0, 60)})), raw...), true
		}},
		{name: "inject-nonce-clear", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return append(reframe(append(append([]byte{}, raw[4:16]...), wire.Encode(wire.Msg{Data: payload('x', e.cas, 0, 60)})...)), raw...), true
		}},
		{name: "inject-bytes-after", keep: true, f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			b := make([]byte, 1+rng.Intn(60))
			rng.Read(b)
			b[0] = 0
			return append(append([]byte{}, raw...), b...), true
		}},
		{name: "old-record", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			old := e.prev[dir]
			if i+2 < len(old) && rng.Intn(2) == 0 {
				return old[i+2], true
			}
			return old[1+rng.Intn(len(old)-1)], true
		}},
		{name: "old-record-inserted", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			old := e.prev[dir]
			return append(append([]byte{}, old[1+rng.Intn(len(old)-1)]...), raw...), true
		}},
		{name: "old-record-other-direction", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			old := e.prev[1-dir]
			return append(append([]byte{}, old[rng.Intn(len(old))]...), raw...), true
		}},
		{name: "old-body-new-nonce", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			old := e.prev[dir][1+rng.Intn(len(e.prev[dir])-1)]
			return reframe(append(append([]byte{}, raw[4:16]...), old[16:]...)), true
		}},
		{name: "zero", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return reframe(make([]byte, len(raw)-4)), true
		}},
		{name: "cut", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) { return nil, false }},
		{name: "cut-within", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			return append([]byte{}, raw[:1+rng.Intn(len(raw)-1)]...), false
		}},
		{name: "huge-length", f: func(e *c03env, rng *mrand.Rand, dir, i int, raw []byte) ([]byte, bool) {
			out := append([]byte{}, raw...)
			binary.BigEndian.PutUint32(out, ^uint32(rng.Intn(1000)))
			return out, true
		}},
	}
}

// prefix judges what was handed over: indices 0, 1, ... and nothing else, at most limit of them.
func (e *c03env) prefix(what string, got []c03msg, tag string, want func(k int) (idx uint32, req bool), limit int) {
	for k, m := range got {
		if m.junk {
			e.t.Violation("forged", "%s: something that was never sent was delivered", what)
			return
		}
		idx, req := want(k)
		if !bytes.ContainsRune([]byte(tag), rune(m.p.tag)) || m.p.b != idx || m.req != req {
			e.t.Violation("not-a-prefix", "%s: delivery %d is %c%d (request: %v), and not message %d (request: %v)", what, k, m.p.tag, m.p.b, m.req, idx, req)
			return
		}
		if k >= limit {
			e.t.Violation("after-interference", "%s: message %d was delivered, although record %d was interfered with", what, k, limit)
			return
		}
	}
}

func c03tamper(t *core.T, dir int) {
	t.Require("interferences", 90)
	t.Require("deliveries judged", 300)
	e := newC03(t)
	l, cl, _, ok := e.run(24, false, nil)
	if !ok {
		return
	}
	t.Await(core.Long, func() bool { return len(e.sa.take(e.cas)) >= 24 && len(e.sb.take(e.cas)) >= 24 })
	if a, b := len(e.sa.take(e.cas)), len(e.sb.take(e.cas)); a < 24 || b < 24 {
		t.Violation("lost", "without interference only %d of 24 messages and %d of 24 replies were delivered", b, a)
		return
	}
	e.prev = [2][][]byte{l.Recorded(0), l.Recorded(1)}
	cl.Close()
	l.Cut()
	for round := 0; round < t.N(4, 60); round++ {
		t.PerturbRound(round)
		for _, tm := range tampers() {
			rng := t.RNG(tm.name, round)
			k := []int{0, 1, 2, 3, 5, 8, 11}[rng.Intn(7)]
			applied, nothing := false, false
			cas := e.cas + 1
			requests := round%2 == 1
			disc := e.sb.count("disconnected")
			l, cl, _, ok := e.run(16, requests, func(l *wire.Link, d, i int, raw []byte) ([]byte, bool) {
				if d != dir || i != k {
					return raw, true
				}
				applied = true
				out, more := tm.f(e, rng, dir, i, raw)
				nothing = more && bytes.Equal(out, raw)
				return out, more
			})
			if !ok {
				return
			}
			what := fmt.Sprintf("%s of record %d in direction %d", tm.name, k, dir)
			// Both ends drop the connection.
			if !t.Await(core.Long, func() bool { return gone(cl) && e.sb.count("disconnected") > disc }) {
				if gone(cl) != (e.sb.count("disconnected") > disc) || true {
					t.Violation("kept", "%s: the connection is still up (dialing end dropped it: %v, other end: %v)", what, gone(cl), e.sb.count("disconnected") > disc)
				}
			}
			l.Cut()
			if !applied || nothing {
				t.Inconclusive("%s: was not applied", what)
				return
			}
			// The receiver's connection ends with an error.
			if !t.Do(core.Long, cl.WaitUntilClosed) {
				t.Note("%s: the connection did not end", what)
			}
			if dir == 1 && cl.Error() == nil {
				t.Violation("no-error", "%s: the connection ended without an error", what)
			}
			e.sb.mu.Lock()
			for _, err := range e.sb.err {
				if err == nil {
					t.Violation("no-error", "%s: the connection ended without an error", what)
				}
			}
			e.sb.err = nil
			e.sb.mu.Unlock()
			t.Await(300*time.Millisecond, func() bool { return len(e.sb.take(cas)) >= k })
			limit := k
			if tm.keep {
				limit++
			}
			gotB, gotA := e.sb.take(cas), e.sa.take(cas)
			lb, la := 1<<30, 1<<30
			if dir == 0 {
				lb = limit
			} else {
				la = limit
			}
			e.prefix(what, gotB, "mf", func(i int) (uint32, bool) { return uint32(i), requests && i%4 == 3 && gotB[i].p.tag == 'm' }, lb)
			if requests { // responses are among the records of this direction
				if la < 1<<30 {
					la = la - (la+0)/4
				}
				e.prefix(what, gotA, "r", func(i int) (uint32, bool) { return c03plain(gotB, i), false }, la)
			} else {
				e.prefix(what, gotA, "r", func(i int) (uint32, bool) { return uint32(i), false }, la)
			}
			t.Count("interferences", 1)
			t.Count("deliveries judged", len(gotA)+len(gotB))
			t.Case("%s/%d/%d/%v", tm.name, dir, k, requests)
			t.Sample("%s: %d messages and %d replies delivered before; error %v", what, len(gotB), len(gotA), cl.Error())
		}
	}
}

// c03plain returns the index of the i-th delivery that is not a request.
func c03plain(got []c03msg, i int) uint32 {
	for _, m := range got {
		if m.req {
			continue
		}
		if i == 0 {
			return m.p.b
		}
		i--
	}
	return 1 << 31
}

// c03whole interferes with whole records without changing them. That it has an effect is a known finding; any other
// effect than the known one is not.
func c03whole(t *core.T) {
	t.Require("interferences", 20)
	e := newC03(t)
	type kind struct {
		key  string
		want func(n, k int) []uint32 // deliveries with the known effect
	}
	seq := func(n int) (l []uint32) {
		for i := 0; i < n; i++ {
			l = append(l, uint32(i))
		}
		return l
	}
	kinds := []kind{
		{"record-dropped", func(n, k int) []uint32 { s := seq(n); return append(s[:k:k], s[k+1:]...) }},
		{"record-repeated", func(n, k int) []uint32 { s := seq(n); return append(append(s[:k+1:k+1], uint32(k)), s[k+1:]...) }},
		{"record-reordered", func(n, k int) []uint32 { s := seq(n); s[k], s[k+1] = s[k+1], s[k]; return s }},
		{"record-reflected", nil},
	}
	for round := 0; round < t.N(10, 150); round++ {
		t.PerturbRound(round)
		for _, kd := range kinds {
			rng := t.RNG(kd.key, round)
			dir, k := rng.Intn(2), rng.Intn(8)
			applied := false
			var held []byte
			cas := e.cas + 1
			l, cl, sent, ok := e.run(12, false, func(l *wire.Link, d, i int, raw []byte) ([]byte, bool) {
				if d != dir || i < k || i > k+1 {
					return raw, true
				}
				if i == k {
					applied = true
				}
				switch kd.key {
				case "record-dropped":
					if i == k {
						return nil, true
					}
				case "record-repeated":
					if i == k {
						return append(append([]byte{}, raw...), raw...), true
					}
				case "record-reordered":
					if i == k {
						held = raw
						return nil, true
					}
					return append(append([]byte{}, raw...), held...), true
				case "record-reflected":
					if i == k {
						l.Inject(1-d, raw)
					}
				}
				return raw, true
			})
			if !ok {
				return
			}
			_ = sent
			what := fmt.Sprintf("%s: record %d in direction %d", kd.key, k, dir)
			total := 12 + 60
			quiet(t, func() int { return len(e.sa.take(cas)) + len(e.sb.take(cas)) })
			cl.Close()
			l.Cut()
			t.Do(core.Long, cl.WaitUntilClosed)
			if !applied {
				t.Inconclusive("%s: was not applied", what)
				return
			}
			gotA, gotB := e.sa.take(cas), e.sb.take(cas)
			idx := func(l []c03msg) (r []uint32) {
				for _, m := range l {
					if m.junk {
						t.Violation("forged", "%s: something that was never sent was delivered", what)
					}
					r = append(r, m.p.b)
				}
				return r
			}
			isPrefix := func(got, want []uint32) bool {
				if len(got) > len(want) {
					return false
				}
				for i := range got {
					if got[i] != want[i] {
						return false
					}
				}
				return true
			}
			ia, ib := idx(gotA), idx(gotB)
			if kd.want != nil {
				recv, n := ib, total
				if dir == 1 {
					recv = ia
					if !isPrefix(ib, seq(total)) {
						t.Violation("not-a-prefix", "%s: the other direction delivered %v", what, ib)
					}
				}
				switch want := kd.want(n, k); {
				case isPrefix(recv, seq(k+1)):
				case isPrefix(recv, want):
					t.Finding(kd.key, "%s: delivered %v", what, recv[:min(len(recv), 14)])
				default:
					t.Violation("not-a-prefix", "%s: delivered %v", what, recv)
				}
			} else {
				// The sender is handed its own message; everything else is as usual.
				own, at, tag := gotA, "a", byte('m')
				if dir == 1 {
					own, at, tag = gotB, "b", 'r'
				}
				var rest []uint32
				n := 0
				for _, m := range own {
					if m.p.tag == tag || tag == 'm' && m.p.tag == 'f' {
						n++
						if int(m.p.b) != k && !(dir == 1) {
							t.Violation("not-a-prefix", "%s: node %s was handed its own message %d", what, at, m.p.b)
						}
						continue
					}
					rest = append(rest, m.p.b)
				}
				if n > 1 {
					t.Violation("not-a-prefix", "%s: node %s was handed %d of its own messages", what, at, n)
				}
				if n > 0 {
					t.Finding(kd.key, "%s: node %s was handed its own message", what, at)
				}
				if dir == 0 && !isPrefix(rest, seq(total)) {
					t.Violation("not-a-prefix", "%s: node %s was delivered %v", what, at, rest)
				}
			}
			t.Count("interferences", 1)
			t.Case("%s/%d/%d", kd.key, dir, k)
		}
	}
}

// quiet waits until a number has stopped to change for a while.
func quiet(t *core.T, f func() int) {
	last, still := -1, 0
	t.Await(core.Long, func() bool {
		n := f()
		if n == last {
			still++
		} else {
			last, still = n, 0
		}
		return still >= 20
	})
}
