package checks

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	mrand "math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/gossip"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C27",
		Rule:        "one case per push; distinct by scenario, graph, size and content of the data, and position of the pusher; non-trivial: the pusher has at least one neighbour",
		Assumptions: []string{"a node knows the neighbours that are in its routing table when it is told of the data"},
		Scenarios: []core.Scenario{
			{Name: "graphs", Run: c27graphs, Timeout: 180 * time.Second},
			{Name: "sizes", Run: c27sizes},
			{Name: "many", Run: c27many},
			{Name: "wide", Run: c27wide},
			{Name: "forwarded", Run: c27forwarded},
			{Name: "rejected", Run: c27rejected},
		},
	})
}

// told is one call of OnGossipReceived.
type told struct {
	from noise.ID
	data []byte // as it was handed over
	sum  [32]byte
	at   int64
}

// came is gossip that came from a peer, whether or not the application was told of it.
type came struct {
	from noise.PublicKey
	sum  [32]byte
}

// talker is a member that gossips, with a record of what came and what it was told.
type talker struct {
	*member
	g       *gossip.Protocol
	mu      sync.Mutex
	log     []told
	came    map[came]int
	total   int
	ended   atomic.Int64 // connections
	handled atomic.Int64 // messages that gossip is done with
}

// newTalker makes a talker. clock orders what all talkers of a network are told; on is the application, if any.
func newTalker(t *core.T, clock *atomic.Int64, on func(from noise.ID, data []byte) error, o ...opt) *talker {
	k := &talker{came: map[came]int{}}
	k.member = newMemberWith(t, 10*time.Second, func(m *member, n *noise.Node) {
		n.Handle(func(ctx noise.HandlerContext) error {
			if d := ctx.Data(); !ctx.IsRequest() && len(d) > 1 && binary.BigEndian.Uint16(d) == opGossip {
				k.mu.Lock()
				k.came[came{ctx.ID().ID, sha256.Sum256(d[2:])}]++
				n := k.came[came{ctx.ID().ID, sha256.Sum256(d[2:])}]
				k.total++
				k.mu.Unlock()
				if n > 500 { // it goes round and round: put an end to it
					if t.Check == "C28" {
						t.Violation("endless", "a neighbour sent a node the same %d bytes %d times", len(d)-2, n)
					}
					return errC27
				}
			}
			return nil
		})
		k.g = gossip.New(m.o, gossip.WithEvents(gossip.Events{OnGossipReceived: func(from noise.ID, data []byte) error {
			x := told{from, data, sha256.Sum256(data), clock.Add(1)}
			k.mu.Lock()
			k.log = append(k.log, x)
			k.mu.Unlock()
			if on != nil {
				return on(from, data)
			}
			return nil
		}}))
		n.Bind(k.g.Protocol(), noise.Protocol{OnPeerDisconnected: func(*noise.Client) { k.ended.Add(1) }, Bind: func(n *noise.Node) error {
			n.Handle(func(ctx noise.HandlerContext) error { // after gossip has handled it
				if d := ctx.Data(); !ctx.IsRequest() && len(d) > 1 && binary.BigEndian.Uint16(d) == opGossip {
					k.handled.Add(1)
				}
				return nil
			})
			return nil
		}})
	}, append(opts(noise.WithNodeNumWorkers(3)), o...)...)
	return k
}

// about is what k was told of data with this hash.
func (k *talker) about(sum [32]byte) (r []told) {
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, x := range k.log {
		if x.sum == sum {
			r = append(r, x)
		}
	}
	return r
}

func (k *talker) messages() int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.total
}

func (k *talker) reset() {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.log, k.came, k.total = nil, map[came]int{}, 0
}

// push pushes data and waits until that has returned.
func (k *talker) push(t *core.T, data []byte) bool {
	ok := t.Do(2*core.Long, func() { k.g.Push(context.Background(), data) })
	if !ok {
		t.Violation("push-hung", "a push of %d bytes does not return\n%s", len(data), core.LibDump(20))
	}
	return ok
}

// edges of a connected graph of n nodes
func c27graph(rng *mrand.Rand, shape string, n int) (e [][2]int) {
	has := map[[2]int]bool{}
	add := func(a, b int) {
		if a != b && !has[[2]int{a, b}] && !has[[2]int{b, a}] {
			has[[2]int{a, b}] = true
			if rng.Intn(2) == 0 {
				a, b = b, a
			}
			e = append(e, [2]int{a, b})
		}
	}
	switch shape {
	case "line":
		for i := 1; i < n; i++ {
			add(i-1, i)
		}
	case "ring":
		for i := 0; i < n; i++ {
			add(i, (i+1)%n)
		}
	case "star":
		for i := 1; i < n; i++ {
			add(0, i)
		}
	case "complete":
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				add(i, j)
			}
		}
	case "tree", "random":
		for i := 1; i < n; i++ {
			add(i, rng.Intn(i))
		}
		if shape == "random" {
			for k := n; k > 0; k-- {
				add(rng.Intn(n), rng.Intn(n))
			}
		}
	case "two cliques":
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				if (i < n/2) == (j < n/2) {
					add(i, j)
				}
			}
		}
		add(0, n-1)
	}
	return e
}

var c27shapes = []string{"line", "ring", "star", "complete", "tree", "random", "two cliques"}

// c27connect has the talkers meet along the edges, and returns who is whose neighbour.
func c27connect(t *core.T, ks []*talker, e [][2]int) ([]map[noise.PublicKey]bool, bool) {
	adj := make([]map[noise.PublicKey]bool, len(ks))
	for i := range adj {
		adj[i] = map[noise.PublicKey]bool{}
	}
	for _, x := range e {
		if err := meet(t, ks[x[0]].n, ks[x[1]].n); err != nil {
			t.Violation("connect", "live nodes cannot connect: %v", err)
			return nil, false
		}
		adj[x[0]][ks[x[1]].key()] = true
		adj[x[1]][ks[x[0]].key()] = true
	}
	ok := t.Await(core.Long, func() bool {
		for i, k := range ks {
			for o := range adj[i] {
				if !k.has(o) {
					return false
				}
			}
		}
		return true
	})
	if !ok {
		t.Inconclusive("not all neighbours were recorded")
	}
	return adj, ok
}

// spread waits until all but the pusher were told of data, and checks by whom they were, and of what.
func spread(t *core.T, what string, ks []*talker, adj []map[noise.PublicKey]bool, pusher int, data []byte) bool {
	sum := sha256.Sum256(data)
	missing := -1
	if !t.Await(2*core.Long, func() bool {
		for i, k := range ks {
			if i != pusher && len(k.about(sum)) == 0 {
				missing = i
				return false
			}
		}
		return true
	}) {
		t.Violation("not-told", "%s: of %d bytes pushed by node %d, node %d is never told\n%s", what, len(data), pusher, missing, core.LibDump(10))
		return false
	}
	at := map[noise.PublicKey]int64{ks[pusher].key(): -1}
	for i, k := range ks {
		if i != pusher {
			at[k.key()] = k.about(sum)[0].at
		}
	}
	for i, k := range ks {
		for _, x := range k.about(sum) {
			if i == pusher {
				continue // C28
			}
			when, node := at[x.from.ID]
			k.mu.Lock()
			really := k.came[came{x.from.ID, sum}] > 0
			k.mu.Unlock()
			switch {
			case !node || !adj[i][x.from.ID]:
				t.Violation("attribution", "%s: node %d is told of data by %s, which is no neighbour (node: %v, table: %v)", what, i, showID(x.from), node, keyNames(k.o.Table().Entries()))
			case when >= x.at:
				t.Violation("attribution", "%s: node %d is told of data by a neighbour that was not told of it before", what, i)
			case !really:
				t.Violation("attribution", "%s: node %d is told of data by a neighbour that did not send it", what, i)
			}
			for _, o := range ks {
				if o.key() == x.from.ID && !equalID(o.n.ID(), x.from) {
					t.Violation("attribution", "%s: the sender is reported as %s, and is %s", what, showID(x.from), showID(o.n.ID()))
				}
			}
		}
	}
	return true
}

// retained checks that all that was handed over is still what it was.
func retained(t *core.T, ks []*talker) {
	for _, k := range ks {
		k.mu.Lock()
		for _, x := range k.log {
			if sha256.Sum256(x.data) != x.sum {
				t.Violation("altered", "%d bytes of gossip were altered after the application was told of them", len(x.data))
			}
			t.Count("retained", 1)
		}
		k.mu.Unlock()
	}
}

var c27dims = []int{0, 1, 2, 31, 32, 33, 1000, 4096, 16384, 65497, 65500, 65501, 65502, 65503, 65504, 65534, 65535, 65536, 65537, 70000, 131072, 200000}

func c27data(rng *mrand.Rand, size int) []byte {
	b := make([]byte, size)
	switch rng.Intn(4) {
	case 0:
		for i := range b {
			b[i] = byte(size)
		}
	default:
		rng.Read(b)
	}
	return b
}

// c27graphs: on connected graphs of all kinds, from every position.
func c27graphs(t *core.T) {
	t.Require("pushes", 60)
	t.Require("retained", 200)
	var clock atomic.Int64
	for round := 0; round < t.N(7, 42); round++ {
		t.PerturbRound(round)
		rng := t.RNG("graphs", round)
		shape := c27shapes[round%len(c27shapes)]
		n := 2 + rng.Intn(11)
		if round%len(c27shapes) == 2 {
			n = 14
		}
		var ks []*talker
		for i := 0; i < n; i++ {
			ks = append(ks, newTalker(t, &clock, nil))
		}
		adj, ok := c27connect(t, ks, c27graph(rng, shape, n))
		if !ok {
			return
		}
		seen := map[[32]byte]bool{}
		for q := 0; q < t.N(14, 30); q++ {
			size := c27dims[rng.Intn(len(c27dims))]
			if q%2 == 0 {
				size = rng.Intn(300)
			}
			data := c27data(rng, size)
			if seen[sha256.Sum256(data)] {
				continue
			}
			seen[sha256.Sum256(data)] = true
			p := q % n
			if !ks[p].push(t, data) || !spread(t, fmt.Sprintf("%s of %d", shape, n), ks, adj, p, data) {
				return
			}
			t.Count("pushes", 1)
			t.Case("graphs/%s/%d/%d/%d", shape, n, p, size)
		}
		retained(t, ks)
		t.RunCleanups()
	}
}

// c27sizes: every size up to the limit for received messages arrives.
func c27sizes(t *core.T) {
	t.Require("pushes", 70)
	t.Require("at the limit", 6)
	t.Require("resembling the previous", 20)
	var clock atomic.Int64
	for round, limit := range []uint32{1 << 10, 64 << 10, 1 << 17, 4 << 20} {
		t.PerturbRound(round)
		rng := t.RNG("sizes", round)
		var ks []*talker
		for i := 0; i < 4; i++ {
			ks = append(ks, newTalker(t, &clock, nil, noise.WithNodeMaxRecvMessageSize(limit)))
		}
		adj, ok := c27connect(t, ks, [][2]int{{0, 1}, {1, 2}, {3, 2}})
		if !ok {
			return
		}
		top := int(limit) - wire.Overhead - 2
		sizes := []int{top, top - 1, top - 2, top - 15, top - 16, top / 2, 0, 1}
		for i := 0; i < t.N(10, 120); i++ {
			sizes = append(sizes, rng.Intn(top+1))
		}
		for _, s := range c27dims {
			if s <= top {
				sizes = append(sizes, s)
			}
		}
		var last []byte
		for i := 0; i < 8; i++ { // relatives of what was pushed before
			sizes = append(sizes, -1)
		}
		rng.Shuffle(len(sizes), func(i, j int) { sizes[i], sizes[j] = sizes[j], sizes[i] })
		for _, size := range sizes {
			var data []byte
			if size < 0 && len(last) > 1 {
				data = append(data, last...)
				switch rng.Intn(5) {
				case 0:
					data = data[:len(data)-1]
				case 1:
					if len(data) < top {
						data = append(data, 0)
					}
				case 2:
					data[0] ^= 1
				case 3:
					data[len(data)-1] ^= 1
				case 4:
					data[rng.Intn(len(data))] ^= 128
				}
				size = len(data)
				t.Count("resembling the previous", 1)
			} else {
				if size < 0 {
					size = top - rng.Intn(20)
				}
				data = make([]byte, size)
				rng.Read(data)
			}
			last = data
			if len(ks[0].about(sha256.Sum256(data))) > 0 || size == 0 && clock.Load() < 0 {
				continue
			}
			p := []int{0, 3, 1}[rng.Intn(3)]
			known := false
			for _, k := range ks {
				known = known || len(k.about(sha256.Sum256(data))) > 0
			}
			if known { // data that was pushed before is not spread again
				continue
			}
			if !ks[p].push(t, data) || !spread(t, fmt.Sprintf("limit of %d", limit), ks, adj, p, data) {
				return
			}
			if size >= top-2 {
				t.Count("at the limit", 1)
			}
			t.Count("pushes", 1)
			t.Case("sizes/%d/%d", limit, size)
		}
		retained(t, ks)
		t.RunCleanups()
	}
}

// c27many: pushes of many nodes at once, of all sizes.
func c27many(t *core.T) {
	t.Require("pushes", 200)
	t.Require("retained", 1000)
	var clock atomic.Int64
	for round := 0; round < t.N(4, 28); round++ {
		t.PerturbRound(round)
		rng := t.RNG("many", round)
		shape := []string{"random", "complete", "line", "star", "tree"}[round%5]
		n := 6 + rng.Intn(4)
		var ks []*talker
		for i := 0; i < n; i++ {
			ks = append(ks, newTalker(t, &clock, nil, noise.WithNodeNumWorkers(uint(1+rng.Intn(4)))))
		}
		adj, ok := c27connect(t, ks, c27graph(rng, shape, n))
		if !ok {
			return
		}
		type pushed struct {
			by   int
			data []byte
		}
		var mu sync.Mutex
		var all []pushed
		par(n*2, func(w int) {
			rng := t.RNG("pusher", 100*round+w)
			for q := 0; q < t.N(5, 12); q++ {
				data := payload(byte(round), uint32(w), uint32(q), 64+[]int{0, 10, 500, 5000, 66000, 300000}[rng.Intn(6)])
				mu.Lock()
				all = append(all, pushed{w % n, data})
				mu.Unlock()
				if !ks[w%n].push(t, data) {
					return
				}
				t.Count("pushes", 1)
			}
		})
		for _, p := range all {
			if !spread(t, fmt.Sprintf("many, %s of %d", shape, n), ks, adj, p.by, p.data) {
				return
			}
			t.Case("many/%s/%d/%d/%d", shape, round, p.by, len(p.data))
		}
		// Nothing else has been made up.
		real := map[[32]byte]bool{}
		for _, p := range all {
			real[sha256.Sum256(p.data)] = true
		}
		for i, k := range ks {
			k.mu.Lock()
			for _, x := range k.log {
				if !real[x.sum] {
					t.Violation("made-up", "node %d is told of %s, which nobody pushed", i, short(x.data))
				}
			}
			k.mu.Unlock()
		}
		retained(t, ks)
		t.RunCleanups()
	}
}

// c27wide: a node with many more neighbours than a bucket holds forwards to all that it has recorded.
func c27wide(t *core.T) {
	t.Require("sent", 150)
	var clock atomic.Int64
	for round := 0; round < t.N(2, 12); round++ {
		t.PerturbRound(round)
		rng := t.RNG("wide", round)
		x := newTalker(t, &clock, nil, noise.WithNodeMaxOutboundConnections(256), noise.WithNodeMaxInboundConnections(256))
		ps := make([]*c26peer, 40+20*round%60)
		for i := range ps {
			if ps[i] = newC26peer(t, x.member, i%2 == 0); ps[i] == nil {
				return
			}
			if _, ok := ps[i].ask(1, encoded(opPing, nil)); !ok {
				t.Violation("unanswered", "a ping is not answered")
				return
			}
		}
		for q := 0; q < 3; q++ {
			// Full buckets hold on to those that were there first, all of which are live: the table does not change any more.
			var known []*c26peer
			for _, p := range ps {
				if x.has(p.key()) {
					known = append(known, p)
				}
			}
			data := c27data(rng, 20+rng.Intn(2000))
			s := -1
			if q > 0 {
				s = rng.Intn(len(known))
				known[s].c.Send(wire.Msg{Nonce: 0, Data: encoded(opGossip, data)})
			} else if !x.push(t, data) {
				return
			}
			for i, p := range known {
				if i == s {
					continue
				}
				if !t.Await(core.Long, func() bool { return p.gossiped(data) > 0 }) {
					t.Violation("not-forwarded", "gossip (from %d) does not reach one of %d neighbours, which is in the table: %v", s, len(known), x.has(p.key()))
					return
				}
				t.Count("sent", 1)
			}
			t.Case("wide/%d/%d", len(ps), q)
			t.Count("neighbours", len(known))
		}
		t.RunCleanups()
	}
}

// c27forwarded: what a peer sends is forwarded to the others as it is, by messages of the right form.
func c27forwarded(t *core.T) {
	t.Require("forwarded", 60)
	var clock atomic.Int64
	for round := 0; round < t.N(2, 14); round++ {
		t.PerturbRound(round)
		rng := t.RNG("forwarded", round)
		x := newTalker(t, &clock, nil)
		var ps []*c26peer
		for i := 0; i < 4; i++ {
			ps = append(ps, newC26peer(t, x.member, i%2 == 0))
		}
		if !c26settle(t, x.member, ps...) {
			t.Inconclusive("peers were not recorded")
			return
		}
		seen := map[[32]byte]bool{}
		for q := 0; q < t.N(40, 100); q++ {
			var data []byte
			switch rng.Intn(5) {
			case 0:
				data = c27data(rng, c27dims[rng.Intn(len(c27dims))])
			case 1: // looks like a message itself
				data = encoded(uint16(rng.Intn(6)), c27data(rng, rng.Intn(60)))
			default:
				data = c27data(rng, rng.Intn(500))
			}
			if seen[sha256.Sum256(data)] {
				continue
			}
			seen[sha256.Sum256(data)] = true
			s := rng.Intn(len(ps)+1) - 1 // the node itself pushes
			if s < 0 {
				if !x.push(t, data) {
					return
				}
			} else {
				ps[s].c.Send(wire.Msg{Nonce: 0, Data: encoded(opGossip, data)})
				if !t.Await(core.Long, func() bool { return len(x.about(sha256.Sum256(data))) > 0 }) {
					t.Violation("not-told", "a node is not told of %d bytes of gossip a peer sent", len(data))
					return
				}
				if l := x.about(sha256.Sum256(data)); !equalID(l[0].from, ps[s].nid()) {
					t.Violation("attribution", "gossip of %s is reported as of %s", showID(ps[s].nid()), showID(l[0].from))
				}
			}
			for i, p := range ps {
				if i == s {
					continue
				}
				want := encoded(opGossip, data)
				if !t.Await(core.Long, func() bool {
					p.mu.Lock()
					defer p.mu.Unlock()
					for _, m := range p.got[0] {
						if bytes.Equal(m, want) {
							return true
						}
					}
					return false
				}) {
					t.Violation("not-forwarded", "%d bytes of gossip (from %d) do not reach neighbour %d", len(data), s, i)
					return
				}
				t.Count("forwarded", 1)
			}
			for _, p := range ps {
				p.mu.Lock()
				for _, m := range p.got[0] {
					if len(m) < 2 || binary.BigEndian.Uint16(m) != opGossip || !seen[sha256.Sum256(m[2:])] {
						t.Violation("made-up", "a neighbour gets %s, which nobody pushed", short(m))
					}
				}
				p.mu.Unlock()
			}
			t.Case("forwarded/%d/%d", s, len(data))
		}
		retained(t, []*talker{x})
		t.RunCleanups()
	}
}

// c27rejected: a node that rejects gossip disconnects its sender and does not forward it; all else goes on.
func c27rejected(t *core.T) {
	t.Require("disconnected", 16)
	t.Require("accepted", 16)
	var clock atomic.Int64
	bad := func(d []byte) bool { return bytes.HasPrefix(d, []byte("bad")) }
	for round := 0; round < t.N(3, 24); round++ {
		t.PerturbRound(round)
		rng := t.RNG("rejected", round)
		x := newTalker(t, &clock, func(_ noise.ID, data []byte) error {
			if bad(data) {
				return errC27
			}
			return nil
		})
		// y can be reached through x only; it rejects nothing.
		y := newTalker(t, &clock, nil)
		if _, ok := c27connect(t, []*talker{x, y}, [][2]int{{round % 2, 1 - round%2}}); !ok {
			return
		}
		watch := newC26peer(t, x.member, true)
		if !c26settle(t, x.member, watch) {
			t.Inconclusive("peers were not recorded")
			return
		}
		for q := 0; q < t.N(8, 20); q++ {
			p := newC26peer(t, x.member, q%2 == 0)
			if p == nil {
				return
			}
			good := append([]byte("good"), c27data(rng, rng.Intn(100))...)
			good = binary.BigEndian.AppendUint32(good, uint32(q))
			p.c.Send(wire.Msg{Nonce: 0, Data: encoded(opGossip, good)})
			if !t.Await(core.Long, func() bool { return len(y.about(sha256.Sum256(good))) > 0 }) {
				t.Violation("not-told", "gossip sent after other gossip was rejected does not spread")
				return
			}
			t.Count("accepted", 1)
			data := append([]byte("bad"), c27data(rng, []int{0, 10, 1000, 65530, 100000}[rng.Intn(5)])...)
			data = binary.BigEndian.AppendUint32(data, uint32(q))
			p.c.Send(wire.Msg{Nonce: 0, Data: encoded(opGossip, data)})
			if !p.ended(core.Long) {
				t.Violation("kept", "a peer whose gossip was rejected (dialed %v) is not disconnected", q%2 == 1)
			}
			if l := x.about(sha256.Sum256(data)); len(l) != 1 {
				t.Violation("not-told", "the application was told of gossip %d times before it was rejected", len(l))
			}
			t.Count("disconnected", 1)
			t.Case("rejected/%v/%d", q%2 == 0, len(data))
			p.ref.close()
		}
		if _, ok := watch.ask(9, encoded(opPing, nil)); !ok {
			t.Violation("bystander", "a peer that sent nothing is not answered after gossip of others was rejected")
		}
		time.Sleep(50 * time.Millisecond)
		for _, l := range y.logged() {
			if bad(l.data) {
				t.Violation("forwarded", "a node forwards gossip that it rejected")
			}
		}
		watch.mu.Lock()
		for _, m := range watch.got[0] {
			if len(m) > 2 && bad(m[2:]) {
				t.Violation("forwarded", "a node forwards gossip that it rejected")
			}
		}
		watch.mu.Unlock()
		// A node of the library that sends what is rejected is disconnected, too.
		p := newTalker(t, &clock, nil)
		if _, ok := c27connect(t, []*talker{x, p}, [][2]int{{round % 2, 1 - round%2}}); !ok {
			return
		}
		p.push(t, []byte(fmt.Sprint("bad", round)))
		if !t.Await(core.Long, func() bool {
			return len(x.about(sha256.Sum256([]byte(fmt.Sprint("bad", round))))) > 0
		}) {
			t.Violation("not-told", "a node is not told of what a neighbour pushes")
			return
		}
		if !t.Await(core.Long, func() bool { return p.ended.Load() > 0 }) { // there may be another connection, which did not carry it
			t.Violation("kept", "a node whose gossip was rejected is not disconnected")
		}
		t.RunCleanups()
	}
}

var errC27 = errors.New("rejected")

func (k *talker) logged() []told {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]told(nil), k.log...)
}
