package checks

import (
	"fmt"
	mrand "math/rand"
	"net"
	"sync"
	"time"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verif.test/h/core"
	"verif.test/h/wire"
)

func init() {
	core.Register(&core.Check{
		ID:          "C25",
		Rule:        "one case per lookup; distinct by scenario, kind of target, options, and the conduct of the peers; non-trivial: at least one peer was contacted",
		Assumptions: []string{"the peers make up finitely many identities", "a live peer on this machine answers within the lookup timeout of 10 s where it has to be found"},
		Scenarios: []core.Scenario{
			{Name: "network", Run: c25network, Timeout: 180 * time.Second},
			{Name: "chain", Run: c25chain},
			{Name: "graph", Run: c25graph},
			{Name: "hostile", Run: c25hostile, Timeout: 180 * time.Second},
			{Name: "asked", Run: c25asked},
			{Name: "stalled", Run: c25stalled},
			{Name: "together", Run: c25together},
		},
	})
}

// lookup runs a lookup and checks what holds for all of them: it ends, and the result is in order, without duplicates,
// without the searcher, and not too long. It returns the result.
func lookup(t *core.T, what string, m *member, target noise.PublicKey, max int, opts ...kademlia.IteratorOption) ([]noise.ID, bool) {
	if max >= 0 {
		opts = append(opts, kademlia.WithIteratorMaxNumResults(max))
	} else {
		max = bucketSize
	}
	var res []noise.ID
	ok := t.Do(3*core.Long, func() {
		if target == m.key() {
			res = m.o.Discover(opts...)
		} else {
			res = m.o.Find(target, opts...)
		}
	})
	if !ok {
		t.Violation("endless", "a lookup (%s) does not end\n%s", what, core.LibDump(20))
		return nil, false
	}
	t.Count("lookups", 1)
	if len(res) > max {
		t.Violation("too-many", "a lookup (%s) for at most %d peers returns %d", what, max, len(res))
	}
	seen := map[noise.PublicKey]bool{}
	for i, id := range res {
		if seen[id.ID] {
			t.Violation("twice", "a lookup (%s) returns %x twice", what, id.ID[:4])
		}
		seen[id.ID] = true
		if id.ID == m.key() {
			t.Violation("self", "a lookup (%s) returns the node that searches", what)
		}
		if i > 0 && nearer(target, id.ID, res[i-1].ID) {
			t.Violation("order", "a lookup (%s) returns %v, not nearest first to %x", what, keyNames(res), target[:4])
		}
	}
	return res, true
}

func without(ids []noise.ID, k noise.PublicKey) []noise.ID {
	var r []noise.ID
	for _, id := range ids {
		if id.ID != k {
			r = append(r, id)
		}
	}
	return r
}

// prefix reports whether res starts with want.
func prefix(res, want []noise.ID) bool {
	return len(res) >= len(want) && sameKeys(res[:len(want)], want)
}

func iterOpts(rng *mrand.Rand, timeout time.Duration) ([]kademlia.IteratorOption, string) {
	l, p := []int{1, 2, 3, 7, 20}[rng.Intn(5)], []int{1, 2, 8, 20}[rng.Intn(4)]
	return []kademlia.IteratorOption{
		kademlia.WithIteratorNumParallelLookups(l), kademlia.WithIteratorNumParallelRequestsPerLookup(p), kademlia.WithIteratorLookupTimeout(timeout),
	}, fmt.Sprintf("%d lookups of %d requests", l, p)
}

// c25network: in a network whose nodes know each other, lookups find the closest live ones.
func c25network(t *core.T) {
	t.Require("lookups", 28)
	t.Require("exact results", 28)
	for round := 0; round < t.N(2, 14); round++ {
		t.PerturbRound(round)
		rng := t.RNG("network", round)
		size := []int{6, 14, 22, 12}[round%4]
		var ms []*member
		for i := 0; i < size; i++ {
			ms = append(ms, newMember(t, 10*time.Second, nil, noise.WithNodeMaxDialAttempts(1)))
		}
		// Everybody meets everybody; buckets may be full before they hold all, so the tables are filled by hand, too.
		par(size, func(i int) {
			for j := 0; j < i; j++ {
				meet(t, ms[i].n, ms[j].n)
			}
		})
		complete := func(m *member) bool {
			for _, o := range ms {
				if !m.has(o.key()) {
					return false
				}
			}
			return true
		}
		t.Await(5*time.Second, func() bool {
			for _, m := range ms {
				if !complete(m) {
					return false
				}
			}
			return true
		})
		dead := 0
		if round%2 == 1 {
			dead = 1 + rng.Intn(3)
		}
		for _, m := range ms[:dead] {
			shut(t, m.n)
		}
		alive := ms[dead:]
		for _, m := range alive {
			if !complete(m) && !func() bool { // not all of them fit
				for _, o := range alive {
					if !m.has(o.key()) {
						return false
					}
				}
				return true
			}() {
				t.Note("a table does not hold all nodes")
			}
		}
		var all []noise.ID
		for _, m := range alive {
			all = append(all, m.n.ID())
		}
		for q := 0; q < t.N(14, 30); q++ {
			m := alive[rng.Intn(len(alive))]
			var target noise.PublicKey
			kind := ""
			switch q % 5 {
			case 0:
				rng.Read(target[:])
				kind = "unrelated"
			case 1:
				target, kind = m.key(), "own"
			case 2:
				target, kind = ms[rng.Intn(len(ms))].key(), "a node's"
			case 3:
				target, kind = near(rng, ms[rng.Intn(len(ms))].key(), 20+rng.Intn(200)), "near a node's"
			case 4:
				target, kind = near(rng, m.key(), rng.Intn(6)), "in a bucket"
			}
			o, how := iterOpts(rng, 10*time.Second)
			max := []int{-1, 1, 2, 5, 12, 16, 50}[rng.Intn(7)]
			known := true
			for _, a := range alive {
				known = known && complete(a) || dead > 0
			}
			what := fmt.Sprintf("%s key, %d nodes, %d of them dead, max %d, %s", kind, size, dead, max, how)
			res, ok := lookup(t, what, m, target, max, o...)
			if !ok {
				return
			}
			for _, id := range res {
				live := false
				for _, a := range all {
					live = live || a.ID == id.ID && a.Address == id.Address
				}
				if !live {
					t.Violation("not-live", "a lookup (%s) returns %x at %s, which is no live node", what, id.ID[:4], id.Address)
				}
			}
			// Each answer holds up to 16 peers, one of which may be the searcher, and some of which may be dead.
			n := bucketSize - 1 - dead
			if max >= 0 && max < n {
				n = max
			}
			got := without(res, target)
			want := closest(target, without(all, m.key()), n)
			if max >= 0 && len(res) != len(got) && len(want) >= max && max > 0 { // the target itself took a place
				want = want[:max-1]
			}
			if known && !prefix(got, want) {
				t.Violation("not-closest", "a lookup (%s) returns %v, but the closest live nodes to %x are %v", what, keyNames(got), target[:4], keyNames(want))
			}
			t.Count("exact results", 1)
			t.Case("network/%s", what)
		}
		t.RunCleanups()
	}
}

// c25chain: nodes that know their neighbours only are found through each other.
func c25chain(t *core.T) {
	t.Require("lookups", 4)
	for round := 0; round < t.N(4, 24); round++ {
		t.PerturbRound(round)
		rng := t.RNG("chain", round)
		n := 3 + rng.Intn(6)
		// Reference peers form a chain: each answers with the next. The last ones answer with all before them.
		var rs []*ref
		for i := 0; i < n; i++ {
			i := i
			rs = append(rs, nil)
			rs[i] = newRef(t, func(r *ref, c *wire.Conn, m wire.Msg) bool {
				if pong(c, m) {
					return true
				}
				var ids [][]byte
				if i+1 < n {
					ids = append(ids, rs[i+1].id.Marshal())
				} else {
					for _, r := range rs {
						ids = append(ids, r.id.Marshal())
					}
				}
				if m.Nonce != 0 {
					c.Send(wire.Msg{Nonce: m.Nonce, Data: found(ids...)})
				}
				return true
			})
		}
		m := newMember(t, 3*time.Second, nil)
		m.o.Table().Update(rs[0].nid())
		var target noise.PublicKey
		rng.Read(target[:])
		o, how := iterOpts(rng, 10*time.Second)
		res, ok := lookup(t, "chain, "+how, m, target, -1, o...)
		if !ok {
			return
		}
		var all []noise.ID
		for _, r := range rs {
			all = append(all, r.nid())
		}
		if want := closest(target, all, bucketSize); !sameKeys(res, want) {
			t.Violation("chain", "a lookup along a chain of %d peers returns %v, should be %v", n, keyNames(res), keyNames(want))
		}
		for i, r := range rs {
			if a := r.asked(); len(a) != 1 || a[0] != target {
				t.Violation("target", "peer %d of a chain was asked for %v in a lookup of %v", i, a, target)
			}
		}
		t.Case("chain/%d/%s", n, how)
		t.RunCleanups()
	}
}

// c25graph: whoever can be reached through answers is found, whatever the shape of who knows whom, however many they
// are, and though answers name peers that do not exist.
func c25graph(t *core.T) {
	t.Require("lookups", 10)
	t.Require("peers found", 200)
	for round := 0; round < t.N(10, 60); round++ {
		t.PerturbRound(round)
		rng := t.RNG("graph", round)
		shape := []string{"star", "tree", "ring", "random", "star"}[round%5]
		n := []int{60, 40, 30, 50, 90}[round%5] - rng.Intn(20)
		knows := make([][]int, n)
		for i := range knows {
			switch shape {
			case "star":
				if i == 0 {
					for j := 1; j < n; j++ {
						knows[0] = append(knows[0], j)
					}
				}
			case "tree":
				for j := 3*i + 1; j <= 3*i+3 && j < n; j++ {
					knows[i] = append(knows[i], j)
				}
			case "ring":
				knows[i] = []int{(i + 1) % n, (i + n - 1) % n}
			case "random":
				for j := 0; j < 3; j++ {
					knows[i] = append(knows[i], rng.Intn(n))
				}
			}
		}
		rs := make([]*ref, n)
		answers := make([][][]byte, n)
		for i := range rs {
			i := i
			rs[i] = newRef(t, func(r *ref, c *wire.Conn, m wire.Msg) bool {
				if !pong(c, m) && m.Nonce != 0 {
					c.Send(wire.Msg{Nonce: m.Nonce, Data: found(answers[i]...)})
				}
				return true
			})
		}
		for i := range rs {
			for _, j := range knows[i] {
				answers[i] = append(answers[i], rs[j].id.Marshal())
			}
			for k := rng.Intn(40); k > 0; k-- { // nobody
				answers[i] = append(answers[i], wire.NewIdentity(uint16(1+rng.Intn(20))).Marshal())
			}
			rng.Shuffle(len(answers[i]), func(a, b int) { answers[i][a], answers[i][b] = answers[i][b], answers[i][a] })
		}
		m := newMember(t, 10*time.Second, nil, noise.WithNodeMaxOutboundConnections(256))
		m.o.Table().Update(rs[0].nid())
		reach := []int{0}
		is := map[int]bool{0: true}
		for k := 0; k < len(reach); k++ {
			for _, j := range knows[reach[k]] {
				if !is[j] {
					is[j] = true
					reach = append(reach, j)
				}
			}
		}
		var all []noise.ID
		for _, i := range reach {
			all = append(all, rs[i].nid())
		}
		var target noise.PublicKey
		rng.Read(target[:])
		o, how := iterOpts(rng, 10*time.Second)
		max := 200
		if rng.Intn(3) == 0 {
			max = 1 + rng.Intn(20)
		}
		res, ok := lookup(t, shape+", "+how, m, target, max, o...)
		if !ok {
			return
		}
		if want := closest(target, all, max); !sameKeys(res, want) {
			t.Violation("not-found", "a lookup for %d peers in a %s of %d, of which %d can be reached, returns %v, should be %v", max, shape, n, len(reach), keyNames(res), keyNames(want))
		}
		t.Count("peers found", len(res))
		for _, i := range reach {
			if a := rs[i].asked(); len(a) != 1 || a[0] != target {
				t.Violation("target", "a peer of a %s was asked for %v in a lookup of %v", shape, a, target)
			}
		}
		t.Case("graph/%s/%d/%d/%s", shape, n, max, how)
		t.RunCleanups()
	}
}

// c25answers are ways to answer a find-node request.
var c25answers = []string{"honest", "honest", "sybils", "repeated", "self", "searcher", "target", "zero", "stolen", "misplaced", "everyone", "empty", "silent", "late",
	"malformed", "truncated", "pong", "unknown", "hangup", "wrong-nonce", "push", "twice", "unasked"}

// c25hostile: peers that answer in every way, and combinations of them.
func c25hostile(t *core.T) {
	t.Require("lookups", 20)
	t.Require("honest peers found", 20)
	t.Require("answers", 100)
	// Most of the time is spent waiting for peers that do not answer: sixteen at once.
	workers, rounds := 16, t.N(1, 5)
	var shutdown []*member
	var all sync.Mutex
	for r := 0; r < rounds; r++ {
		t.PerturbRound(r)
		par(workers, func(w int) {
			round := workers*r + w
			c25round(t, round, func(m *member) { all.Lock(); shutdown = append(shutdown, m); all.Unlock() })
		})
		for _, m := range shutdown {
			shut(t, m.n)
		}
		shutdown = nil
		t.RunCleanups()
	}
}

func c25round(t *core.T, round int, over func(m *member)) {
	rng := t.RNG("hostile", round)
	var mu sync.Mutex
	answered := map[noise.PublicKey]bool{} // in the current lookup
	var searcher noise.ID
	var target noise.PublicKey
	var rs []*ref
	how := map[*ref]string{}
	sybil := func(r *mrand.Rand, n int) (ids [][]byte) {
		for i := 0; i < n; i++ {
			id := wire.NewIdentity(uint16(1 + r.Intn(20)))
			ids = append(ids, id.Marshal())
		}
		return ids
	}
	sybils := sybil(rng, 40)
	// Peers that keep to the protocol know each other, and some hostile ones.
	on := func(r *ref, c *wire.Conn, m wire.Msg) bool {
		if pong(c, m) || m.Nonce == 0 || len(m.Data) != 34 {
			return true
		}
		mu.Lock()
		defer mu.Unlock()
		t.Count("answers", 1)
		mode := how[r]
		answer := func(data []byte) { c.Send(wire.Msg{Nonce: m.Nonce, Data: data}) }
		var some [][]byte
		for _, o := range rs {
			some = append(some, o.id.Marshal())
		}
		good := true
		switch mode {
		case "honest":
			answer(found(some[:min(16, len(some))]...))
		case "sybils":
			answer(found(sybils...))
		case "repeated":
			var ids [][]byte
			for i := 0; i < 255; i++ {
				ids = append(ids, some[i%2])
			}
			answer(found(ids...))
		case "self":
			answer(found(r.id.Marshal(), r.id.Marshal()))
		case "searcher":
			k := searcher.ID
			answer(found(searcher.Marshal(), wire.EncodeID(k[:], net.IPv4(127, 0, 0, 1), 1)))
		case "target":
			answer(found(wire.EncodeID(target[:], net.IPv4(127, 0, 0, 1), r.id.Port), wire.EncodeID(target[:], net.IPv4(127, 0, 0, 1), 2)))
		case "zero":
			answer(found(make([]byte, 50), wire.EncodeID(make([]byte, 32), net.IPv4(127, 0, 0, 1), r.id.Port)))
		case "stolen": // made-up keys at the addresses of other peers
			var ids [][]byte
			for _, o := range rs {
				p := wire.NewIdentity(o.id.Port).Pub()
				ids = append(ids, wire.EncodeID(p[:], net.IPv4(127, 0, 0, 1), o.id.Port))
			}
			answer(found(ids...))
		case "misplaced": // its own made-up keys at its own address
			var ids [][]byte
			for i := 0; i < 10; i++ {
				id := wire.NewIdentity(r.id.Port)
				ids = append(ids, id.Marshal())
			}
			answer(found(ids...))
		case "everyone":
			answer(found(append(append([][]byte{}, some...), sybils...)...))
		case "empty":
			answer(found())
		case "silent":
			good = false
		case "late":
			good = false
			nonce := m.Nonce
			go func() {
				time.Sleep(6 * time.Second)
				c.Send(wire.Msg{Nonce: nonce, Data: found(some...)})
			}()
		case "malformed":
			good = false
			b := encoded(opFound, nil)
			answer(append(b, 200, 1, 2, 3))
		case "truncated":
			good = false
			f := found(some...)
			answer(f[:len(f)-1])
		case "pong":
			good = false
			answer(encoded(opPong, nil))
		case "unknown":
			good = false
			answer([]byte{0xff, 0xff, 1})
		case "hangup":
			return false
		case "wrong-nonce":
			good = false
			c.Send(wire.Msg{Nonce: m.Nonce + 1000, Data: found(some...)})
		case "push":
			good = false
			c.Send(wire.Msg{Nonce: 0, Data: found(some...)})
		case "twice":
			answer(found(some...))
			answer(found(sybils...))
		case "unasked":
			c.Send(wire.Msg{Nonce: m.Nonce + 7, Data: found(sybils...)})
			answer(found(some...))
		}
		if good {
			answered[r.key()] = true
		}
		return true
	}
	for i := 0; i < len(c25answers); i++ {
		r := newRef(t, on)
		mu.Lock()
		rs = append(rs, r)
		mu.Unlock()
	}
	for q := 0; q < t.N(2, 6); q++ {
		m := newMember(t, 5*time.Second, nil, noise.WithNodeMaxDialAttempts(1))
		mu.Lock()
		searcher = m.n.ID()
		answered = map[noise.PublicKey]bool{}
		perm := rng.Perm(len(rs))
		for i, r := range rs {
			how[r] = c25answers[perm[i]]
			r.mu.Lock()
			r.asks = nil
			r.mu.Unlock()
		}
		rng.Read(target[:])
		kind := "any"
		switch rng.Intn(4) {
		case 1:
			target, kind = m.key(), "own"
		case 2:
			target, kind = rs[rng.Intn(len(rs))].key(), "a peer's"
		}
		want := target
		mu.Unlock()
		// Some of them are known from the beginning, among them honest ones.
		var honest []*ref
		known := 0
		for _, i := range rng.Perm(len(rs)) {
			if known < 8 && rs[i].key() != want {
				m.o.Table().Update(rs[i].nid())
				if m.has(rs[i].key()) {
					known++
					if how[rs[i]] == "honest" {
						honest = append(honest, rs[i])
					}
				}
			}
		}
		o, opts := iterOpts(rng, 4*time.Second)
		res, ok := lookup(t, fmt.Sprintf("hostile peers, %s key, %s", kind, opts), m, want, 400, o...)
		if !ok {
			return
		}
		mu.Lock()
		byKey := map[noise.PublicKey]*ref{}
		for _, r := range rs {
			byKey[r.key()] = r
		}
		for _, id := range res {
			r := byKey[id.ID]
			switch {
			case r == nil:
				t.Violation("unauthentic", "a lookup returns %x at %s, which nobody is", id.ID[:4], id.Address)
			case !answered[id.ID]:
				t.Violation("unanswered", "a lookup returns a peer that did not answer it (%s)", how[r])
			case id.Address != r.nid().Address:
				t.Violation("elsewhere", "a lookup returns a peer at %s, which is at %s", id.Address, r.nid().Address)
			}
		}
		for _, r := range honest {
			ok := false
			for _, id := range res {
				ok = ok || id.ID == r.key()
			}
			if !ok {
				t.Violation("honest-missing", "a lookup among hostile peers leaves out an honest one that was known from the beginning (asked %d times)\n%v", len(r.asked()), opts)
			}
			t.Count("honest peers found", 1)
		}
		for _, r := range rs {
			for _, k := range r.asked() {
				if k != want {
					t.Violation("target", "a lookup of %v asks for %v", want, k)
				}
			}
			if n := len(r.asked()); n > 1 && how[r] != "hangup" {
				t.Count("asked more than once", 1)
			}
		}
		mu.Unlock()
		t.Case("hostile/%d/%s/%s", round, kind, opts)
		over(m)
	}
}

// c25asked: every kind of target reaches the peers unaltered, and every option is honoured.
func c25asked(t *core.T) {
	t.Require("lookups", 30)
	m := newMember(t, 3*time.Second, nil)
	var rs []*ref
	for i := 0; i < 12; i++ {
		rs = append(rs, newRef(t, func(r *ref, c *wire.Conn, m wire.Msg) bool {
			if !pong(c, m) && m.Nonce != 0 {
				c.Send(wire.Msg{Nonce: m.Nonce, Data: found()})
			}
			return true
		}))
		m.o.Table().Update(rs[i].nid())
	}
	var all []noise.ID
	for _, r := range rs {
		all = append(all, r.nid())
	}
	for q := 0; q < t.N(60, 600); q++ {
		t.PerturbRound(q / 10)
		rng := t.RNG("asked", q)
		target, kind := c23target(rng, m.n.ID(), all)
		for _, r := range rs {
			r.mu.Lock()
			r.asks = nil
			r.mu.Unlock()
		}
		o, how := iterOpts(rng, 10*time.Second)
		max := []int{-1, 0, 1, 3, 12, 30}[rng.Intn(6)]
		res, ok := lookup(t, kind+", "+how, m, target, max, o...)
		if !ok {
			return
		}
		n := max
		if n < 0 {
			n = bucketSize
		}
		want := append([]noise.ID(nil), all...)
		want = kademlia.SortByDistance(target, want)
		if len(want) > n {
			want = want[:n]
		}
		w2 := closest(target, all, n) // whether the target itself is listed is up to the library
		if !sameKeys(res, want) && !sameKeys(without(res, target), w2) {
			t.Violation("not-closest", "a lookup of %x (%s) for %d peers returns %v, should be %v", target[:4], kind, max, keyNames(res), keyNames(want))
		}
		for _, r := range rs {
			a := r.asked()
			if len(a) > 1 {
				t.Violation("asked-twice", "a lookup asks a peer %d times", len(a))
			}
			if len(a) == 0 && r.key() != target {
				t.Violation("not-asked", "a lookup does not ask a peer the node knows")
			}
			for _, k := range a {
				if k != target {
					t.Violation("target", "a lookup of %v (%s) asks for %v", target, kind, k)
				}
			}
		}
		t.Case("asked/%s/%d/%s", kind, max, how)
	}
}

// c25stalled: peers that never answer, at any step, hold a lookup up for no longer than the timeouts allow.
func c25stalled(t *core.T) {
	t.Require("lookups", 4)
	for round := 0; round < t.N(4, 20); round++ {
		t.PerturbRound(round)
		rng := t.RNG("stalled", round)
		m := newMember(t, 3*time.Second, nil)
		n := 5 + rng.Intn(8)
		for i := 0; i < n; i++ {
			switch rng.Intn(3) {
			case 0: // answers the handshake, but no requests
				r := newRef(t, func(r *ref, c *wire.Conn, m wire.Msg) bool { return true })
				m.o.Table().Update(r.nid())
			case 1: // accepts, and that is all
				ln, err := net.Listen("tcp", "127.0.0.1:0")
				if err != nil {
					panic(err)
				}
				t.Cleanup(func() { ln.Close() })
				m.o.Table().Update(noise.NewID(near(rng, m.key(), rng.Intn(8)), net.IPv4(127, 0, 0, 1), uint16(portOf(ln.Addr().String()))))
			case 2: // answers with many that do not exist
				var ids [][]byte
				for j := 0; j < 30; j++ {
					ids = append(ids, wire.NewIdentity(uint16(1+j)).Marshal())
				}
				r := newRef(t, func(r *ref, c *wire.Conn, m wire.Msg) bool {
					if !pong(c, m) && m.Nonce != 0 {
						c.Send(wire.Msg{Nonce: m.Nonce, Data: found(ids...)})
					}
					return true
				})
				m.o.Table().Update(r.nid())
			}
		}
		var target noise.PublicKey
		rng.Read(target[:])
		l, p := 1+rng.Intn(3), 1+rng.Intn(4)
		from := time.Now()
		_, ok := lookup(t, fmt.Sprintf("%d stalled peers, %d lookups of %d requests", n, l, p), m, target, -1,
			kademlia.WithIteratorLookupTimeout(400*time.Millisecond), kademlia.WithIteratorNumParallelLookups(l), kademlia.WithIteratorNumParallelRequestsPerLookup(p))
		if !ok {
			return
		}
		// Each of at most 12 stalled peers takes its timeout; the 30 that do not exist fail at once.
		if d := time.Since(from); d > 12*400*time.Millisecond+core.Long {
			t.Violation("slow", "a lookup takes %v with a timeout of 400ms for each of %d peers", d, n)
		}
		t.Case("stalled/%d/%d/%d", n, l, p)
		t.RunCleanups()
	}
}

// c25together: many lookups at once, of several nodes, do not get into each other's way; nor does the node's end.
func c25together(t *core.T) {
	t.Require("lookups", 40)
	for round := 0; round < t.N(2, 14); round++ {
		t.PerturbRound(round)
		var ms []*member
		for i := 0; i < 8; i++ {
			ms = append(ms, newMember(t, 10*time.Second, nil))
		}
		for i := range ms {
			for j := 0; j < i; j++ {
				meet(t, ms[i].n, ms[j].n)
			}
		}
		var all []noise.ID
		for _, m := range ms {
			all = append(all, m.n.ID())
		}
		if !t.Await(core.Long, func() bool {
			for _, m := range ms {
				if m.o.Table().NumEntries() != len(ms) {
					return false
				}
			}
			return true
		}) {
			t.Violation("tables", "nodes that met do not all know each other")
			return
		}
		par(24, func(i int) {
			rng := t.RNG("together", 24*round+i)
			m := ms[i%len(ms)]
			target, kind := c23target(rng, m.n.ID(), all)
			o, how := iterOpts(rng, 10*time.Second)
			res, ok := lookup(t, "together, "+how, m, target, -1, o...)
			if !ok {
				return
			}
			if got, want := without(res, target), closest(target, without(all, m.key()), bucketSize); !sameKeys(got, want) {
				t.Violation("not-closest", "one of many lookups (%s key, %s) returns %v, should be %v", kind, how, keyNames(got), keyNames(want))
			}
			t.Case("together/%s/%s", kind, how)
		})
		// The searching node is closed under its lookups.
		m := ms[0]
		end := make(chan struct{})
		go func() {
			defer close(end)
			par(4, func(i int) {
				rng := t.RNG("ending", 4*round+i)
				var target noise.PublicKey
				rng.Read(target[:])
				m.o.Find(target, kademlia.WithIteratorLookupTimeout(2*time.Second))
			})
		}()
		time.Sleep(time.Duration(round) * time.Millisecond)
		shut(t, m.n)
		if !t.Done(2*core.Long, end) {
			t.Violation("endless", "a lookup of a node that was closed does not end\n%s", core.LibDump(20))
			return
		}
		t.RunCleanups()
	}
}
