package checks

import (
	"context"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:   "C28",
		Rule: "one case per piece of data pushed; distinct by scenario, graph, size, and who sends it how often; non-trivial: it came to a node more than once, or could have",
		Assumptions: []string{"a node remembers at least the last thousands of pieces of data, in its cache of 32 MB",
			"data that crosses on a connection, sent by both ends before either had received it, was not sent to a peer that sent it"},
		Scenarios: []core.Scenario{
			{Name: "graphs", Run: c28graphs},
			{Name: "senders", Run: c28senders},
			{Name: "order", Run: c28order},
			{Name: "pushers", Run: c28pushers},
			{Name: "remembered", Run: c28remembered},
			{Name: "own", Run: c28own},
			{Name: "busy", Run: c28busy},
			{Name: "meanwhile", Run: c28meanwhile},
		},
	})
}

// quietNet waits until no gossip comes to any of the talkers any more.
func quietNet(t *core.T, ks []*talker) bool {
	last, since := -1, time.Now()
	return t.Await(2*core.Long, func() bool {
		n := 0
		for _, k := range ks {
			n += k.messages()
		}
		if n != last {
			last, since = n, time.Now()
		}
		return time.Since(since) > 150*time.Millisecond
	})
}

// c28edges checks what came along every edge: each piece of data at most once. The traffic of a push is thus bounded
// by the number of edges, counted in both directions.
func c28edges(t *core.T, what string, ks []*talker) {
	for i, k := range ks {
		k.mu.Lock()
		for _, n := range k.came {
			if n > 1 {
				t.Violation("sent-again", "%s: a neighbour sent node %d the same data %d times", what, i, n)
			}
			t.Count("data over an edge", 1)
		}
		n := map[[32]byte]int{}
		for _, x := range k.log {
			if n[x.sum]++; n[x.sum] == 2 {
				t.Violation("told-again", "%s: node %d is told of %d bytes more than once", what, i, len(x.data))
			}
		}
		k.mu.Unlock()
	}
}

// c28graphs: pushes on graphs of all kinds, of all sizes.
func c28graphs(t *core.T) {
	t.OnMemory("endless", "gossip takes up all memory")
	t.Require("pushes", 60)
	t.Require("data over an edge", 1000)
	var clock atomic.Int64
	for round := 0; round < t.N(7, 42); round++ {
		t.PerturbRound(round)
		rng := t.RNG("graphs", round)
		shape := c27shapes[round%len(c27shapes)]
		n := 2 + rng.Intn(11)
		var ks []*talker
		for i := 0; i < n; i++ {
			ks = append(ks, newTalker(t, &clock, nil, noise.WithNodeNumWorkers(uint(1+rng.Intn(4)))))
		}
		adj, ok := c27connect(t, ks, c27graph(rng, shape, n))
		if !ok {
			return
		}
		what := fmt.Sprintf("%s of %d", shape, n)
		var all [][]byte
		var by []int
		batch := 1 + 2*(round%3)
		for q := 0; q < t.N(12, 30); q++ {
			data := payload(byte(round), uint32(q), 0, 64+[]int{0, 30, 1000, 65536 - 80, 65500, 70000, 140000}[rng.Intn(7)])
			p := rng.Intn(n)
			all, by = append(all, data), append(by, p)
			if !ks[p].push(t, data) {
				return
			}
			t.Count("pushes", 1)
			t.Case("graphs/%s/%d/%d", what, p, len(data))
			if q%batch > 0 {
				continue
			}
			if !spread(t, what, ks, adj, p, data) {
				t.Inconclusive("a push did not reach every node, which is the subject of C27")
				return
			}
		}
		if !quietNet(t, ks) {
			t.Violation("endless", "%s: gossip goes on, though nothing is pushed any more", what)
			return
		}
		c28edges(t, what, ks)
		for i, data := range all {
			if l := ks[by[i]].about(sha256.Sum256(data)); len(l) > 0 {
				t.Violation("told-own", "%s: a node is told of the %d bytes that it pushed itself", what, len(data))
			}
		}
		// Everything once more, by those who pushed it and by others: all who would get it have it or sent it.
		before := 0
		for _, k := range ks {
			before += k.messages()
		}
		for i, data := range all {
			k := ks[(by[i]+i%2)%n]
			if !k.push(t, data) {
				return
			}
		}
		if !quietNet(t, ks) {
			t.Violation("endless", "%s: gossip goes on, though nothing is pushed any more", what)
			return
		}
		after := 0
		for _, k := range ks {
			after += k.messages()
		}
		if after != before {
			t.Violation("sent-again", "%s: data that was pushed again is sent %d times more, though every edge had carried it", what, after-before)
		}
		c28edges(t, what, ks)
		t.RunCleanups()
	}
}

func (p *c26peer) gossiped(data []byte) (n int) {
	want := string(encoded(opGossip, data))
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, m := range p.got[0] {
		if string(m) == want {
			n++
		}
	}
	return n
}

// c28peers makes a talker and its neighbours.
func c28peers(t *core.T, n int, o ...opt) (*talker, []*c26peer, bool) {
	var clock atomic.Int64
	x := newTalker(t, &clock, nil, o...)
	var ps []*c26peer
	for i := 0; i < n; i++ {
		ps = append(ps, newC26peer(t, x.member, i%2 == 0))
	}
	ok := c26settle(t, x.member, ps...)
	if !ok {
		t.Inconclusive("peers were not recorded")
	}
	return x, ps, ok
}

// processed waits until x has handled what p sent so far: with one worker, it handles everything in order.
func processed(t *core.T, x *talker, p *c26peer, nonce uint64) bool {
	_, ok := p.ask(nonce, encoded(opPing, nil))
	if !ok {
		t.Violation("unanswered", "a node that was sent gossip does not answer a ping any more")
	}
	return ok
}

// c28senders: many peers send the same data at once, many times.
func c28senders(t *core.T) {
	t.OnMemory("endless", "gossip takes up all memory")
	t.Require("data", 100)
	t.Require("copies", 1500)
	for round := 0; round < t.N(5, 40); round++ {
		t.PerturbRound(round)
		rng := t.RNG("senders", round)
		n := []int{2, 6, 12, 14, 3}[round%5]
		x, ps, ok := c28peers(t, n, noise.WithNodeNumWorkers(uint([]int{4, 8, 16, 2, 1}[round%5])))
		if !ok {
			return
		}
		for q := 0; q < t.N(25, 60); q++ {
			data := payload(byte(round), uint32(q), 1, 64+[]int{0, 0, 100, 5000, 66000}[rng.Intn(5)])
			copies := 1 + rng.Intn(3)
			start := make(chan struct{})
			var wg sync.WaitGroup
			for i := range ps {
				wg.Add(1)
				go func(p *c26peer) {
					defer wg.Done()
					rec := encoded(opGossip, data)
					<-start
					for c := 0; c < copies; c++ {
						p.c.Send(wire.Msg{Nonce: 0, Data: rec})
					}
				}(ps[i])
			}
			close(start)
			wg.Wait()
			for i, p := range ps {
				if !processed(t, x, p, uint64(1000*q+i+1)) {
					return
				}
			}
			if !t.Await(core.Long, func() bool {
				x.mu.Lock()
				defer x.mu.Unlock()
				for _, p := range ps {
					if x.came[came{p.key(), sha256.Sum256(data)}] < copies {
						return false
					}
				}
				return true
			}) {
				t.Violation("lost", "gossip that was sent did not come")
				return
			}
			t.Count("copies", copies*n)
			t.Count("data", 1)
			t.Case("senders/%d/%d/%d", n, copies, len(data))
		}
		time.Sleep(20 * time.Millisecond)
		for q := uint32(0); ; q++ {
			l := 0
			var data []byte
			for _, size := range []int{64, 164, 5064, 66064} {
				data = payload(byte(round), q, 1, size)
				if l = len(x.about(sha256.Sum256(data))); l > 0 {
					break
				}
			}
			if l == 0 {
				if int(q) < t.N(25, 60) {
					t.Violation("never", "the application was never told of gossip that %d peers sent", n)
				}
				break
			}
			if l > 1 {
				t.Violation("told-again", "the application is told %d times of data that %d peers sent at once", l, n)
			}
			for _, p := range ps {
				if g := p.gossiped(data); g > 1 {
					t.Violation("sent-again", "a peer is sent the same data %d times", g)
				}
			}
		}
		t.RunCleanups()
	}
}

// c28order: data is not sent to a peer that has sent it, or that it was sent to, however far apart that is.
func c28order(t *core.T) {
	t.OnMemory("endless", "gossip takes up all memory")
	t.Require("data", 60)
	sizes := []int{0, 1, 40, 1000, 16384, 65400, 65500, 65502, 65503, 65504, 65536, 66000, 120000}
	for round := 0; round < t.N(4, 24); round++ {
		t.PerturbRound(round)
		rng := t.RNG("order", round)
		x, ps, ok := c28peers(t, 2+round%4, noise.WithNodeNumWorkers(1))
		if !ok {
			return
		}
		nonce := uint64(0)
		type expect struct {
			data []byte
			got  []int
		}
		var all []expect
		for q := 0; q < t.N(20, 60); q++ {
			size := sizes[rng.Intn(len(sizes))] + 8
			data := make([]byte, size)
			rng.Read(data)
			binary.BigEndian.PutUint32(data, uint32(q))
			e := expect{data, make([]int, len(ps))}
			has := make([]bool, len(ps))
			known := false
			// A history of sends and pushes, one after another. What must have been sent to whom is known at each step.
			steps := 1 + rng.Intn(5)
			for s := 0; s < steps; s++ {
				from := rng.Intn(len(ps)+1) - 1
				if from < 0 {
					if !x.push(t, data) {
						return
					}
				} else {
					has[from] = true
					ps[from].c.Send(wire.Msg{Nonce: 0, Data: encoded(opGossip, data)})
					nonce++
					if !processed(t, x, ps[from], nonce) {
						return
					}
				}
				if from < 0 || !known {
					for i := range ps {
						if !has[i] {
							has[i] = true
							e.got[i]++
						}
					}
				}
				known = true
			}
			all = append(all, e)
			t.Count("data", 1)
			t.Case("order/%d/%d/%d", len(ps), size, steps)
		}
		// Pings are answered after what was queued before.
		for i, p := range ps {
			nonce++
			if !processed(t, x, p, nonce) {
				return
			}
			for _, e := range all {
				if g := p.gossiped(e.data); g > e.got[i] {
					if e.got[i] == 0 {
						t.Violation("sent-back", "%d bytes are sent to a peer that had sent them", len(e.data))
					} else {
						t.Violation("sent-again", "%d bytes are sent to a peer %d times", len(e.data), g)
					}
				} else if g < e.got[i] {
					t.Violation("not-sent", "%d bytes are not sent to a peer that never had them", len(e.data))
				}
			}
		}
		told := map[[32]byte]int{}
		for _, l := range x.logged() {
			if told[l.sum]++; told[l.sum] > 1 {
				t.Violation("told-again", "the application is told of %d bytes twice", len(l.data))
			}
		}
		t.RunCleanups()
	}
}

// c28pushers: the same data is pushed many times at once, while peers send it.
func c28pushers(t *core.T) {
	t.OnMemory("endless", "gossip takes up all memory")
	t.Require("data", 80)
	for round := 0; round < t.N(4, 24); round++ {
		t.PerturbRound(round)
		rng := t.RNG("pushers", round)
		x, ps, ok := c28peers(t, 6)
		if !ok {
			return
		}
		var all [][]byte
		for q := 0; q < t.N(25, 60); q++ {
			data := payload(byte(round), uint32(q), 2, 64+[]int{0, 1000, 66000}[rng.Intn(3)])
			all = append(all, data)
			own := q%2 == 0 // it has been pushed before peers send it
			if own && !x.push(t, data) {
				return
			}
			senders := rng.Intn(3)
			par(8+senders, func(i int) {
				if i < 8 {
					x.push(t, data)
				} else {
					ps[i-8].c.Send(wire.Msg{Nonce: 0, Data: encoded(opGossip, data)})
				}
			})
			t.Count("data", 1)
			t.Case("pushers/%v/%d/%d", own, senders, len(data))
		}
		for i, p := range ps {
			if !processed(t, x, p, uint64(i+1)) {
				return
			}
		}
		time.Sleep(20 * time.Millisecond)
		for q, data := range all {
			for _, p := range ps {
				if g := p.gossiped(data); g > 1 {
					t.Violation("sent-again", "%d bytes that were pushed many times at once are sent to a peer %d times", len(data), g)
				} else if g == 0 && q%2 == 0 {
					t.Violation("not-sent", "%d bytes that were pushed many times at once are not sent to a peer", len(data))
				}
			}
			l := x.about(sha256.Sum256(data))
			if len(l) > 1 || q%2 == 0 && len(l) > 0 {
				t.Violation("told-again", "the application is told %d times of data that it pushed (%v before any peer sent it)", len(l), q%2 == 0)
			}
		}
		t.RunCleanups()
	}
}

// c28remembered: data is known again after thousands of others.
func c28remembered(t *core.T) {
	t.OnMemory("endless", "gossip takes up all memory")
	t.Require("sent again", 3000)
	x, ps, ok := c28peers(t, 2)
	if !ok {
		return
	}
	n := t.N(4000, 40000)
	size := func(i int) int {
		switch {
		case i%401 == 0:
			return 66000
		case i%50 == 0:
			return 4000
		}
		return 48
	}
	send := func(p *c26peer, from int) bool {
		for i := from; i < n; i++ {
			p.c.Send(wire.Msg{Nonce: 0, Data: encoded(opGossip, payload(3, uint32(i), 3, size(i)))})
			if i%200 == 0 && !processed(t, x, p, uint64(from+i+1)) {
				return false
			}
		}
		return processed(t, x, p, uint64(from+n+1))
	}
	if !send(ps[0], 0) {
		return
	}
	if !t.Await(core.Long, func() bool { return len(x.logged()) >= n }) {
		t.Violation("never", "the application was told of %d of %d data", len(x.logged()), n)
		return
	}
	if !t.Await(core.Long, func() bool { ps[1].mu.Lock(); defer ps[1].mu.Unlock(); return len(ps[1].got[0]) >= n }) {
		t.Violation("never", "%d of %d data were forwarded", len(ps[1].got[0]), n)
		return
	}
	// The same again, of either peer.
	for _, p := range ps {
		p.mu.Lock()
		p.got = map[uint64][][]byte{}
		p.mu.Unlock()
	}
	if !send(ps[1], 0) || !send(ps[0], 0) {
		return
	}
	if !t.Await(core.Long, func() bool { return x.messages() >= 3*n }) {
		t.Inconclusive("not everything came")
		return
	}
	time.Sleep(20 * time.Millisecond)
	if l := len(x.logged()); l != n {
		t.Violation("told-again", "the application is told of %d of %d data again when they are sent again", l-n, n)
	}
	for _, p := range ps {
		p.mu.Lock()
		if l := len(p.got[0]); l != 0 {
			t.Violation("sent-again", "%d of %d data are sent again", l, n)
		}
		p.mu.Unlock()
	}
	t.Count("sent again", 2*n)
	t.Case("remembered/%d", n)
}

// c28own: a node is not told of what it pushed itself, whether or not anybody could be sent it, and data that differs
// in anything is different.
func c28own(t *core.T) {
	t.OnMemory("endless", "gossip takes up all memory")
	t.Require("own", 40)
	t.Require("different", 200)
	for round := 0; round < t.N(4, 30); round++ {
		t.PerturbRound(round)
		rng := t.RNG("own", round)
		var clock atomic.Int64
		x := newTalker(t, &clock, nil)
		var own [][]byte
		for q := 0; q < 12; q++ {
			data := make([]byte, []int{0, 1, 10, 1000, 65503, 65504, 65536, 100000}[q%8]+4*(q/8))
			rng.Read(data)
			own = append(own, data)
			if round%2 == 0 { // before it knows anybody
				if !x.push(t, data) {
					return
				}
			}
		}
		p, o := newC26peer(t, x.member, true), newC26peer(t, x.member, false)
		if !c26settle(t, x.member, p, o) {
			t.Inconclusive("peers were not recorded")
			return
		}
		if round%2 == 1 {
			for _, data := range own {
				if !x.push(t, data) {
					return
				}
			}
		}
		for i, data := range own {
			for _, s := range []*c26peer{p, o} {
				s.c.Send(wire.Msg{Nonce: 0, Data: encoded(opGossip, data)})
				if !processed(t, x, s, uint64(i+1)) {
					return
				}
			}
			t.Count("own", 1)
			t.Case("own/%d/%d", round, len(data))
		}
		t.Await(core.Long, func() bool { return x.messages() >= 2*len(own) })
		time.Sleep(10 * time.Millisecond)
		for _, l := range x.logged() {
			t.Violation("told-own", "a node is told of %d bytes that it had pushed itself", len(l.data))
		}
		// Each differs a little from one that is known.
		var diff [][]byte
		for i := 0; i < 60; i++ {
			data := append([]byte(nil), own[1+rng.Intn(len(own)-1)]...)
			if len(data) < 8 {
				data = append(data, 0, 0, 0, 0, 0, 0, 0, byte(i))
			}
			switch rng.Intn(4) {
			case 0:
				data[len(data)-1] ^= 1 << rng.Intn(8)
			case 1:
				data[0] ^= 1 << rng.Intn(8)
			case 2:
				data = append(data, byte(rng.Intn(3)))
			case 3:
				data[rng.Intn(len(data))] ^= byte(1 + rng.Intn(255))
			}
			diff = append(diff, data)
			p.c.Send(wire.Msg{Nonce: 0, Data: encoded(opGossip, data)})
			t.Count("different", 1)
		}
		for _, data := range diff {
			data := data
			if !t.Await(core.Long, func() bool { return len(x.about(sha256.Sum256(data))) > 0 && o.gossiped(data) > 0 }) {
				t.Violation("taken-for-another", "%d bytes that resemble others are not told of or not forwarded (told %d, forwarded %d)", len(data), len(x.about(sha256.Sum256(data))), o.gossiped(data))
				return
			}
		}
		t.RunCleanups()
	}
}

// c28busy: applications that take their time, push what they are told of, or change what they do not own.
func c28busy(t *core.T) {
	t.OnMemory("endless", "gossip takes up all memory")
	t.Require("data", 40)
	var clock atomic.Int64
	for round := 0; round < t.N(4, 24); round++ {
		t.PerturbRound(round)
		rng := t.RNG("busy", round)
		n := 3 + rng.Intn(4)
		ks := make([]*talker, n)
		var made sync.WaitGroup
		made.Add(1)
		for i := 0; i < n; i++ {
			i := i
			slow := time.Duration(rng.Intn(8)) * time.Millisecond
			again := rng.Intn(2) == 0
			ks[i] = newTalker(t, &clock, func(_ noise.ID, data []byte) error {
				made.Wait()
				time.Sleep(slow)
				if again {
					ks[i].g.Push(context.Background(), data)
				}
				return nil
			}, noise.WithNodeNumWorkers(4))
		}
		made.Done()
		adj, ok := c27connect(t, ks, c27graph(rng, "complete", n))
		if !ok {
			return
		}
		for q := 0; q < t.N(12, 30); q++ {
			data := payload(byte(round), uint32(q), 4, 64+[]int{0, 500, 66000}[rng.Intn(3)])
			p := rng.Intn(n)
			par(3, func(int) { ks[p].push(t, data) })
			if q%4 == 0 && !spread(t, "busy", ks, adj, p, data) {
				t.Inconclusive("a push did not reach every node, which is the subject of C27")
				return
			}
			t.Count("data", 1)
			t.Case("busy/%d/%d", n, len(data))
		}
		if !quietNet(t, ks) {
			t.Violation("endless", "gossip goes on, though nothing is pushed any more")
			return
		}
		c28edges(t, fmt.Sprintf("complete graph of %d with slow applications that push what they are told", n), ks)
		t.RunCleanups()
	}
}

// c28meanwhile: while the application looks at the data of one peer, others send it, too. Nobody is sent it who had
// sent it before the application was done, and everybody else is, once.
func c28meanwhile(t *core.T) {
	t.OnMemory("endless", "gossip takes up all memory")
	t.Require("data", 40)
	t.Require("copies meanwhile", 40)
	for round := 0; round < t.N(4, 24); round++ {
		t.PerturbRound(round)
		rng := t.RNG("meanwhile", round)
		var clock atomic.Int64
		var free atomic.Pointer[chan struct{}]
		x := newTalker(t, &clock, func(noise.ID, []byte) error {
			<-*free.Load()
			return nil
		}, noise.WithNodeNumWorkers(4))
		var ps []*c26peer
		for i := 0; i < []int{3, 6, 4, 5}[round%4]; i++ {
			ps = append(ps, newC26peer(t, x.member, i%2 == 0))
		}
		if !c26settle(t, x.member, ps...) {
			t.Inconclusive("peers were not recorded")
			return
		}
		nonce := uint64(0)
		for q := 0; q < t.N(12, 40); q++ {
			data := payload(byte(round), uint32(q), 5, 64+[]int{0, 900, 66000}[rng.Intn(3)])
			gate := make(chan struct{})
			free.Store(&gate)
			rec := encoded(opGossip, data)
			handled := x.handled.Load()
			told := len(x.logged())
			has := make([]bool, len(ps))
			first := rng.Intn(len(ps))
			has[first] = true
			ps[first].c.Send(wire.Msg{Data: rec})
			if !t.Await(core.Long, func() bool { return len(x.logged()) > told }) {
				close(gate)
				t.Violation("never", "the application was not told of gossip that came")
				return
			}
			others := 0
			for i, p := range ps {
				if i == first || rng.Intn(2) == 0 {
					continue
				}
				has[i] = true
				for c := 1 + rng.Intn(2); c > 0; c-- {
					p.c.Send(wire.Msg{Data: rec})
					others++
				}
			}
			if !t.Await(core.Long, func() bool { return x.handled.Load() >= handled+int64(others) }) {
				close(gate)
				t.Inconclusive("copies were not handled while the application was busy")
				return
			}
			close(gate)
			if !t.Await(core.Long, func() bool { return x.handled.Load() >= handled+int64(others)+1 }) {
				t.Violation("push-hung", "gossip is not forwarded")
				return
			}
			for i, p := range ps {
				nonce++
				if !processed(t, x, p, nonce) {
					return
				}
				if !has[i] { // it comes over the node's connection to the peer, which may be another one
					t.Await(core.Long, func() bool { return p.gossiped(data) > 0 })
				}
				g := p.gossiped(data)
				if has[i] && g > 0 {
					t.Violation("sent-back", "a peer that had sent data while the application was looking at it is sent it")
				} else if !has[i] && g != 1 {
					t.Violation("sent-again", "a peer that had not sent data that several others had is sent it %d times", g)
				}
			}
			if l := len(x.about(sha256.Sum256(data))); l != 1 {
				t.Violation("told-again", "the application is told %d times of data that came meanwhile", l)
			}
			t.Count("data", 1)
			t.Count("copies meanwhile", others)
			t.Case("meanwhile/%d/%d/%d", len(ps), others, len(data))
		}
		t.RunCleanups()
	}
}
