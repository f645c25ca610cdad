package checks

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:   "C26",
		Rule: "one case per message that was encoded and decoded, answered, or sent against the protocol; distinct by scenario, kind, content and conditions; non-trivial: the message was looked at by the node's overlay",
		Assumptions: []string{"trailing bytes after the last result of a find-node response, and bytes in the body of a ping or pong, are not malformed: the decoders' documentation does not say so",
			"a response holds at most 255 results"},
		Scenarios: []core.Scenario{
			{Name: "codec", Run: c26codec},
			{Name: "answers", Run: c26answers},
			{Name: "changing", Run: c26changing},
			{Name: "misuse", Run: c26misuse},
			{Name: "left", Run: c26left},
			{Name: "ping", Run: c26ping},
		},
	})
}

func c26id(rng *mrand.Rand) noise.ID {
	var k noise.PublicKey
	switch rng.Intn(6) {
	case 0: // zero
	case 1:
		for i := range k {
			k[i] = 0xff
		}
	default:
		rng.Read(k[:])
	}
	host := make(net.IP, 16)
	rng.Read(host)
	switch rng.Intn(5) {
	case 0:
		host = net.IPv4(byte(rng.Intn(256)), byte(rng.Intn(256)), 0, byte(rng.Intn(256)))
	case 1:
		host = net.IPv4(127, 0, 0, 1).To4()
	case 2:
		host = net.IPv6loopback
	}
	return noise.NewID(k, host, []uint16{0, 1, 80, 65535, uint16(rng.Intn(65536))}[rng.Intn(5)])
}

// answer encodes identities as a find-node response does.
func answer(ids []noise.ID) []byte {
	var l [][]byte
	for _, id := range ids {
		l = append(l, wire.EncodeID(id.ID[:], id.Host, id.Port))
	}
	return found(l...)
}

// c26codec encodes and decodes all messages of the overlay, cuts and spoils them.
func c26codec(t *core.T) {
	t.Require("round trips", 1000)
	t.Require("malformed", 5000)
	m := newMember(t, 3*time.Second, nil)
	check := func(what string, v noise.Serializable, raw []byte, same func(d noise.Serializable) bool) {
		b, err := m.n.EncodeMessage(v)
		if err != nil || !bytes.Equal(b, raw) {
			t.Violation("encode", "a %s is encoded as %x (%v), should be %x", what, b, err, raw)
			return
		}
		d, err := m.n.DecodeMessage(b)
		if err != nil || !same(d) {
			t.Violation("round-trip", "a %s decodes to %v (%v)", what, d, err)
		}
		t.Count("round trips", 1)
		t.Case("codec/%s/%s", what, short(raw))
	}
	for i := 0; i < t.N(600, 20000); i++ {
		rng := t.RNG("codec", i)
		check("ping", kademlia.Ping{}, encoded(opPing, nil), func(d noise.Serializable) bool { return d == kademlia.Ping{} })
		check("pong", kademlia.Pong{}, encoded(opPong, nil), func(d noise.Serializable) bool { return d == kademlia.Pong{} })
		k := c26id(rng).ID
		check("find-node request", kademlia.FindNodeRequest{Target: k}, encoded(opFind, k[:]), func(d noise.Serializable) bool { return d == kademlia.FindNodeRequest{Target: k} })
		var ids []noise.ID
		for n := []int{0, 1, 2, 15, 16, 17, 127, 128, 254, 255, rng.Intn(256)}[rng.Intn(11)]; n > 0; n-- {
			ids = append(ids, c26id(rng))
		}
		raw := answer(ids)
		check(fmt.Sprintf("find-node response of %d", len(ids)), kademlia.FindNodeResponse{Results: ids}, raw, func(d noise.Serializable) bool {
			r, ok := d.(kademlia.FindNodeResponse)
			if !ok || len(r.Results) != len(ids) {
				return false
			}
			for i := range ids {
				if !equalID(r.Results[i], ids[i]) {
					return false
				}
			}
			return true
		})
		// Truncated, and too long where the length is fixed.
		refused := func(what string, b []byte) {
			var d noise.Serializable
			var err error
			if p := guarded(func() { d, err = m.n.DecodeMessage(b) }); p != nil {
				t.Violation("panic", "decoding a %s of %d bytes panics: %v", what, len(b), p)
			} else if err == nil {
				t.Violation("malformed", "a %s of %d bytes decodes to %v", what, len(b), d)
			}
			t.Count("malformed", 1)
		}
		for n := 0; n < 70; n++ {
			if n != 32 {
				b := make([]byte, n)
				rng.Read(b)
				refused("find-node request", encoded(opFind, b))
			}
		}
		cuts := []int{2, 3, len(raw) - 1, len(raw) - 2, len(raw) - 3, len(raw) - 17, len(raw) - 49, len(raw) - 50, 2 + rng.Intn(len(raw)-2)}
		if i < 3 {
			for n := 2; n < len(raw); n++ {
				cuts = append(cuts, n)
			}
		}
		for _, n := range cuts {
			if n >= 2 && n < len(raw) {
				refused("truncated find-node response", raw[:n])
			}
		}
		if len(ids) < 255 {
			b := append([]byte(nil), raw...)
			b[2] += byte(1 + rng.Intn(255-len(ids)))
			refused("find-node response of too few peers", b)
		}
		// Anything at all: it is rejected, or it decodes to what encodes to it.
		b := make([]byte, rng.Intn(300))
		rng.Read(b)
		if len(b) > 1 {
			b[0], b[1] = 0, byte(rng.Intn(4))
		}
		if len(b) > 2 {
			b[2] = byte(rng.Intn(8))
		}
		var d noise.Serializable
		var err error
		if p := guarded(func() { d, err = m.n.DecodeMessage(b) }); p != nil {
			t.Violation("panic", "decoding %x panics: %v", b, p)
		} else if err == nil {
			e, err := m.n.EncodeMessage(d)
			if err != nil || !bytes.HasPrefix(b, e) {
				t.Violation("round-trip", "%x decodes to %v, which is encoded as %x (%v)", b, d, e, err)
			}
			if r, ok := d.(kademlia.FindNodeResponse); ok && len(r.Results) != int(b[2]) {
				t.Violation("malformed", "a find-node response that claims %d results decodes to %d", b[2], len(r.Results))
			}
		}
	}
}

// c26peer is a reference peer connected to a node, with the responses it got.
type c26peer struct {
	*ref
	c    *wire.Conn
	mu   sync.Mutex
	got  map[uint64][][]byte
	last uint64
	gone atomic.Bool
}

// newC26peer connects to x, or has x connect to it.
func newC26peer(t *core.T, x *member, inbound bool) *c26peer {
	p := &c26peer{got: map[uint64][][]byte{}}
	ready := make(chan *wire.Conn, 1)
	p.ref = newRef(t, func(r *ref, c *wire.Conn, m wire.Msg) bool {
		if pong(c, m) {
			return true
		}
		if m.Nonce != 0 && len(m.Data) == 34 && binary.BigEndian.Uint16(m.Data) == opFind {
			c.Send(wire.Msg{Nonce: m.Nonce, Data: found()})
			return true
		}
		select {
		case ready <- c:
		default:
		}
		p.mu.Lock()
		defer p.mu.Unlock()
		p.got[m.Nonce] = append(p.got[m.Nonce], m.Data)
		return true
	})
	if inbound {
		c, err := p.dial(loop(x.n))
		if err != nil {
			t.Violation("connect", "a peer cannot connect: %v", err)
			return nil
		}
		p.c = c
		return p
	}
	ctx, cancel := ctxT(core.Long)
	defer cancel()
	if _, err := x.n.Ping(ctx, p.nid().Address); err != nil {
		t.Violation("connect", "a node cannot connect to a peer: %v", err)
		return nil
	}
	if !t.Await(core.Long, func() bool {
		p.ref.mu.Lock()
		defer p.ref.mu.Unlock()
		if len(p.conn) > 0 {
			p.c = p.conn[0]
		}
		return p.c != nil
	}) {
		t.Violation("connect", "a node did not connect to a peer, but says it has")
		return nil
	}
	return p
}

// ask sends a request, and returns the response, if one comes, and whether it was one only.
func (p *c26peer) ask(nonce uint64, data []byte) ([]byte, bool) {
	if p.c.Send(wire.Msg{Nonce: nonce, Data: data}) != nil {
		return nil, false
	}
	var r []byte
	ok := p.t.Await(core.Long, func() bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		if l := p.got[nonce]; len(l) > 0 {
			r = l[0]
		}
		return r != nil
	})
	return r, ok
}

// number of messages received under a nonce
func (p *c26peer) responses(nonce uint64) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.got[nonce])
}

// ended reports whether the node closes the connection.
func (p *c26peer) ended(d time.Duration) bool {
	return p.t.Await(d, func() bool { return p.c.Send(wire.Msg{Nonce: 0, Data: []byte{0xff, 0xff}}) != nil })
}

// settle waits until the node has recorded the peers, so that requests of theirs do not change its table any more.
func c26settle(t *core.T, x *member, ps ...*c26peer) bool {
	return t.Await(core.Long, func() bool {
		for _, p := range ps {
			if p == nil || !x.has(p.key()) {
				return false
			}
		}
		return true
	})
}

// c26answers: requests are answered once each, with a pong or the closest peers of the table.
func c26answers(t *core.T) {
	t.Require("find-node requests", 600)
	t.Require("pings", 60)
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		rng := t.RNG("answers", round)
		x := newMember(t, 10*time.Second, nil)
		var ps []*c26peer
		for i := 0; i < 1+round%4; i++ {
			ps = append(ps, newC26peer(t, x, (i+round)%2 == 0))
		}
		if !c26settle(t, x, ps...) {
			t.Inconclusive("peers were not recorded")
			return
		}
		// The peers are recorded: nothing else changes the table but this.
		size := []int{0, 3, 14, 16, 40, 300}[round%6]
		for i := 0; i < size; i++ {
			id := c26id(rng)
			switch rng.Intn(3) {
			case 0:
				id.ID = near(rng, x.key(), rng.Intn(256))
			case 1:
				id.ID = near(rng, ps[rng.Intn(len(ps))].key(), rng.Intn(256))
			}
			if id.ID != (noise.PublicKey{}) && id.ID != x.key() {
				x.o.Table().Update(id)
			}
		}
		all := x.o.Table().Entries() // among them the node itself
		var nonce atomic.Uint64
		nonce.Store(rng.Uint64() | 1<<63)
		par(len(ps), func(pi int) {
			p := ps[pi]
			rng := t.RNG("asking", 100*round+pi)
			for q := 0; q < t.N(60, 200); q++ {
				n := nonce.Add(1)
				if q%5 == 4 {
					if r, ok := p.ask(n, encoded(opPing, nil)); !ok || !bytes.Equal(r, encoded(opPong, nil)) {
						t.Violation("pong", "a ping is answered by %x", r)
					}
					t.Count("pings", 1)
					continue
				}
				target, kind := c23target(rng, x.n.ID(), all)
				if rng.Intn(6) == 0 {
					target, kind = p.key(), "requester"
				}
				r, ok := p.ask(n, encoded(opFind, target[:]))
				if !ok {
					t.Violation("unanswered", "a find-node request for %x (%s) is not answered", target[:4], kind)
					return
				}
				if want := answer(closest(target, all, bucketSize)); !bytes.Equal(r, want) {
					t.Violation("answer", "a find-node request for %v (%s) to a node with %d entries in its table is answered by %x, should be %x", target, kind, len(all), r, want)
				}
				t.Count("find-node requests", 1)
				t.Case("answers/%d/%s/%d", len(all), kind, pi)
			}
		})
		for _, p := range ps {
			p.mu.Lock()
			for n, l := range p.got {
				if n == 0 || len(l) != 1 {
					t.Violation("twice", "%d messages came with the nonce %d", len(l), n)
				}
			}
			p.mu.Unlock()
		}
		if now := x.o.Table().Entries(); !sameSet(now, all) {
			t.Note("the table changed while it was asked for")
		}
		t.RunCleanups()
	}
}

// c26changing: answers given while the table changes are those of some moment in between.
func c26changing(t *core.T) {
	t.Require("answers", 200)
	t.Require("changes", 300)
	for round := 0; round < t.N(4, 40); round++ {
		t.PerturbRound(round)
		rng := t.RNG("changing", round)
		x := newMember(t, 10*time.Second, nil)
		p, q := newC26peer(t, x, true), newC26peer(t, x, false)
		if !c26settle(t, x, p, q) {
			t.Inconclusive("peers were not recorded")
			return
		}
		tab := x.o.Table()
		// Stable entries stay. The others come and go; they are of another bucket each, so that there is room.
		var stable, moving []noise.ID
		for i := 0; i < 10; i++ {
			id := c26id(rng)
			id.ID = near(rng, x.key(), 2+i)
			if tab.Update(id); tab.Recorded(id.ID) {
				stable = append(stable, id)
			}
		}
		for i := 0; i < 10; i++ {
			id := c26id(rng)
			id.ID = near(rng, x.key(), 2+i)
			moving = append(moving, id)
		}
		stable = append(stable, p.nid(), q.nid(), x.n.ID())
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for w := 0; w < 2; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				rng := t.RNG("mover", 2*round+w)
				for {
					select {
					case <-stop:
						return
					default:
					}
					id := moving[5*w+rng.Intn(5)]
					if rng.Intn(2) == 0 {
						tab.Update(id)
					} else {
						tab.Delete(id.ID)
					}
					t.Count("changes", 1)
					time.Sleep(time.Duration(rng.Intn(100)) * time.Microsecond)
				}
			}(w)
		}
		both := append(append([]noise.ID(nil), stable...), moving...)
		par(2, func(i int) {
			c := []*c26peer{p, q}[i]
			rng := t.RNG("asker", 2*round+i)
			for n := 0; n < t.N(40, 100); n++ {
				target, kind := c23target(rng, x.n.ID(), both)
				r, ok := c.ask(uint64(n+1), encoded(opFind, target[:]))
				if !ok {
					t.Violation("unanswered", "a find-node request is not answered while the table changes")
					return
				}
				d, err := x.n.DecodeMessage(r)
				res, is := d.(kademlia.FindNodeResponse)
				if err != nil || !is {
					t.Violation("answer", "a find-node request is answered by %x", r)
					return
				}
				got := map[noise.PublicKey]bool{}
				for i, id := range res.Results {
					known := false
					for _, b := range both {
						known = known || equalID(b, id)
					}
					if !known || got[id.ID] || id.ID == target {
						t.Violation("answer", "a find-node request (%s) is answered by %v", kind, keyNames(res.Results))
					}
					if i > 0 && nearer(target, id.ID, res.Results[i-1].ID) {
						t.Violation("order", "a find-node request (%s) is answered by %v", kind, keyNames(res.Results))
					}
					got[id.ID] = true
				}
				// A stable peer may be missing only if the answer is full of peers that are nearer.
				for _, s := range closest(target, stable, bucketSize) {
					if !got[s.ID] && (len(res.Results) < bucketSize || nearer(target, s.ID, res.Results[len(res.Results)-1].ID)) {
						t.Violation("missing", "a find-node request (%s) is answered by %v, without %x, which was in the table throughout", kind, keyNames(res.Results), s.ID[:4])
					}
				}
				t.Count("answers", 1)
				t.Case("changing/%d/%s", round, kind)
			}
		})
		close(stop)
		wg.Wait()
		t.RunCleanups()
	}
}

// c26misuse: pings and find-node requests that are not requests disconnect their senders, and nobody else.
func c26misuse(t *core.T) {
	t.Require("disconnected", 8)
	t.Require("kept", 8)
	for round := 0; round < t.N(4, 30); round++ {
		t.PerturbRound(round)
		rng := t.RNG("misuse", round)
		x := newMember(t, 10*time.Second, nil)
		good := newC26peer(t, x, round%2 == 0)
		if good == nil {
			return
		}
		k := c26id(rng).ID
		for _, c := range []struct {
			name string
			data []byte
			ends bool
		}{
			{"ping", encoded(opPing, nil), true},
			{"find-node request", encoded(opFind, k[:]), true},
			{"find-node request for the node", encoded(opFind, keyBytes(x.key())), true},
			{"pong", encoded(opPong, nil), false},
			{"find-node response", answer([]noise.ID{c26id(rng)}), false},
			{"malformed find-node request", encoded(opFind, k[:31]), false},
			{"malformed find-node response", encoded(opFound, []byte{9, 9}), false},
		} {
			for _, inbound := range []bool{true, false} {
				p := newC26peer(t, x, inbound)
				if p == nil {
					return
				}
				if _, ok := p.ask(5, encoded(opPing, nil)); !ok {
					t.Violation("pong", "a ping is not answered")
				}
				p.c.Send(wire.Msg{Nonce: 0, Data: c.data})
				if c.ends {
					if !p.ended(core.Long) {
						t.Violation("kept", "the sender of a %s that is not a request (inbound %v) is not disconnected", c.name, inbound)
					}
					if p.responses(0) > 0 {
						t.Violation("answered", "a %s that is not a request is answered", c.name)
					}
					t.Count("disconnected", 1)
				} else {
					if r, ok := p.ask(6, encoded(opPing, nil)); !ok || !bytes.Equal(r, encoded(opPong, nil)) {
						t.Violation("dropped", "after a %s that was not a request (inbound %v), a ping is answered by %x", c.name, inbound, r)
					}
					if p.responses(0) > 0 {
						t.Violation("answered", "a %s that is not a request is answered", c.name)
					}
					t.Count("kept", 1)
				}
				t.Case("misuse/%s/%v/%d", c.name, inbound, round)
				p.ref.close()
			}
		}
		if r, ok := good.ask(7, encoded(opPing, nil)); !ok || !bytes.Equal(r, encoded(opPong, nil)) {
			t.Violation("bystander", "a peer that did nothing wrong is not answered any more after others did")
		}
		t.RunCleanups()
	}
}

func keyBytes(k noise.PublicKey) []byte { return k[:] }

// c26left: what the overlay does not understand reaches other handlers, once, as it was sent.
func c26left(t *core.T) {
	t.Require("left", 100)
	for round := 0; round < t.N(4, 40); round++ {
		t.PerturbRound(round)
		rng := t.RNG("left", round)
		var mu sync.Mutex
		seen := map[string]int{}
		reqs := 0
		x := newMember(t, 10*time.Second, func(n *noise.Node) {
			// It comes after the overlay's handler, like any the application binds later.
			n.Bind(noise.Protocol{Bind: func(n *noise.Node) error {
				n.Handle(func(ctx noise.HandlerContext) error {
					mu.Lock()
					defer mu.Unlock()
					seen[string(ctx.Data())]++
					if ctx.IsRequest() {
						reqs++
					}
					return nil
				})
				return nil
			}})
		})
		ps := []*c26peer{newC26peer(t, x, true), newC26peer(t, x, false)}
		if ps[0] == nil || ps[1] == nil {
			return
		}
		sent := map[string]int{}
		for i := 0; i < 40; i++ {
			b := make([]byte, rng.Intn(120))
			rng.Read(b)
			what := "unknown opcode"
			switch i % 5 {
			case 0, 1:
				if len(b) > 0 {
					b[0] |= 0x80
				}
			case 2:
				what = "malformed find-node request"
				if len(b) == 32 {
					b = b[:31]
				}
				b = encoded(opFind, b)
			case 3:
				what = "malformed find-node response"
				b = encoded(opFound, append([]byte{200}, b...))
			case 4:
				what = "too short"
				b = b[:min(len(b), i%2)]
			}
			p := ps[rng.Intn(2)]
			if rng.Intn(2) == 0 && what != "too short" {
				r, ok := p.ask(uint64(100+i), b)
				if !ok || !bytes.Equal(r, echoOf(b)) {
					t.Violation("left", "a request the overlay does not understand (%s, %x) is answered by %x, another handler answers %x", what, b, r, echoOf(b))
				}
			} else {
				p.c.Send(wire.Msg{Nonce: 0, Data: b})
			}
			sent[string(b)]++
			t.Count("left", 1)
			t.Case("left/%s/%s", what, short(b))
		}
		if !t.Await(core.Long, func() bool {
			mu.Lock()
			defer mu.Unlock()
			for b, n := range sent {
				if seen[b] < n {
					return false
				}
			}
			return true
		}) {
			t.Violation("lost", "messages the overlay does not understand do not reach other handlers")
		}
		mu.Lock()
		for b, n := range seen {
			if sent[b] != n {
				t.Violation("left", "%x was sent %d times, and reached another handler %d times", b, sent[b], n)
			}
		}
		mu.Unlock()
		t.RunCleanups()
	}
}

// c26ping: a ping of the overlay succeeds if, and only if, a pong comes back.
func c26ping(t *core.T) {
	t.Require("answered", 20)
	t.Require("failed", 20)
	for round := 0; round < t.N(3, 30); round++ {
		t.PerturbRound(round)
		x := newMember(t, 10*time.Second, nil, noise.WithNodeMaxDialAttempts(1))
		y := newMember(t, 10*time.Second, nil)
		par(8, func(i int) {
			ctx, cancel := ctxT(core.Long)
			defer cancel()
			if err := x.o.Ping(ctx, y.n.Addr()); err != nil {
				t.Violation("ping", "a ping of a live overlay fails: %v", err)
			}
			t.Count("answered", 1)
		})
		for _, mode := range []string{"pong", "ping", "empty response", "response", "nothing", "unknown", "malformed", "silent", "hangup", "push", "wrong nonce"} {
			mode := mode
			r := newRef(t, func(r *ref, c *wire.Conn, m wire.Msg) bool {
				if m.Nonce == 0 {
					return true
				}
				if !bytes.Equal(m.Data, encoded(opPing, nil)) {
					t.Violation("ping", "a ping is sent as %x", m.Data)
				}
				switch mode {
				case "pong":
					c.Send(wire.Msg{Nonce: m.Nonce, Data: encoded(opPong, nil)})
				case "ping":
					c.Send(wire.Msg{Nonce: m.Nonce, Data: encoded(opPing, nil)})
				case "empty response":
					c.Send(wire.Msg{Nonce: m.Nonce, Data: found()})
				case "response":
					c.Send(wire.Msg{Nonce: m.Nonce, Data: found(r.id.Marshal())})
				case "nothing":
					c.Send(wire.Msg{Nonce: m.Nonce})
				case "unknown":
					c.Send(wire.Msg{Nonce: m.Nonce, Data: []byte{0xff, 0xff}})
				case "malformed":
					c.Send(wire.Msg{Nonce: m.Nonce, Data: []byte{0}})
				case "hangup":
					return false
				case "push":
					c.Send(wire.Msg{Nonce: 0, Data: encoded(opPong, nil)})
				case "wrong nonce":
					c.Send(wire.Msg{Nonce: m.Nonce + 1, Data: encoded(opPong, nil)})
				}
				return true
			})
			d := core.Long
			switch mode {
			case "silent", "push", "wrong nonce":
				d = 300 * time.Millisecond
			}
			ctx, cancel := context.WithTimeout(context.Background(), d)
			var err error
			if !t.Do(2*core.Long, func() { err = x.o.Ping(ctx, r.nid().Address) }) {
				t.Violation("hung", "a ping answered by %s does not end", mode)
			} else if mode == "pong" && err != nil {
				t.Violation("ping", "a ping that was answered by a pong fails: %v", err)
			} else if mode != "pong" && err == nil {
				t.Violation("no-pong", "a ping succeeds that was not answered by a pong (%s)", mode)
			}
			cancel()
			t.Count(map[bool]string{true: "answered", false: "failed"}[mode == "pong"], 1)
			t.Case("ping/%s/%d", mode, round)
			r.close()
		}
		t.RunCleanups()
	}
}
