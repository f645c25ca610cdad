package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verif.test/h/core"
)

func init() {
	core.Register(&core.Check{
		ID:          "C22",
		Rule:        "one case per history of table operations (single-threaded ones of 50 to 400 operations, concurrent ones of 2 to 6 threads checked for linearizability); distinct by scenario, owner, key set and operations; non-trivial: at least one bucket fills up or an entry moves or goes away",
		Assumptions: []string{"operations on the table that a caller has not seen return may take effect at any moment of the call"},
		Scenarios: []core.Scenario{
			{Name: "model", Run: c22model},
			{Name: "linear", Run: c22linear},
			{Name: "shared", Run: c22shared},
			{Name: "overlay", Run: c22overlay},
		},
	})
}

const bucketSize = 16

// near makes a key that shares exactly p leading bits with owner (p = 256 makes the owner's key itself).
func near(rng *rand.Rand, owner noise.PublicKey, p int) noise.PublicKey {
	k := owner
	if p >= 256 {
		return k
	}
	k[p/8] ^= 0x80 >> (p % 8)
	for b := p + 1; b < 256; b++ {
		if rng.Intn(2) == 0 {
			k[b/8] ^= 0x80 >> (b % 8)
		}
	}
	return k
}

// lcp is the number of leading bits two keys share, bit by bit.
func lcp(a, b noise.PublicKey) int {
	for i := 0; i < 256; i++ {
		if (a[i/8]^b[i/8])&(0x80>>(i%8)) != 0 {
			return i
		}
	}
	return 256
}

func bucketOf(owner, k noise.PublicKey) int {
	if p := lcp(owner, k); p < 256 {
		return p
	}
	return 255
}

// tableModel is the reference: buckets of keys, most recent first.
type tableModel struct {
	owner   noise.PublicKey
	buckets map[int][]noise.ID
}

func newTableModel(owner noise.ID) *tableModel {
	m := &tableModel{owner: owner.ID, buckets: map[int][]noise.ID{}}
	m.update(owner)
	return m
}

func (m *tableModel) find(k noise.PublicKey) (b, i int) {
	b = bucketOf(m.owner, k)
	for i, id := range m.buckets[b] {
		if id.ID == k {
			return b, i
		}
	}
	return b, -1
}

func (m *tableModel) update(id noise.ID) (inserted, full bool) {
	if id.ID == (noise.PublicKey{}) {
		return false, false
	}
	b, i := m.find(id.ID)
	l := m.buckets[b]
	if i >= 0 {
		e := l[i]
		n := append([]noise.ID{e}, l[:i]...)
		m.buckets[b] = append(n, l[i+1:]...)
		return false, false
	}
	if len(l) >= bucketSize {
		return false, true
	}
	m.buckets[b] = append([]noise.ID{id}, l...)
	return true, false
}

func (m *tableModel) remove(k noise.PublicKey) bool {
	b, i := m.find(k)
	if i < 0 {
		return false
	}
	m.buckets[b] = append(append([]noise.ID(nil), m.buckets[b][:i]...), m.buckets[b][i+1:]...)
	return true
}

func (m *tableModel) all() []noise.ID {
	var r []noise.ID
	for _, l := range m.buckets {
		r = append(r, l...)
	}
	return r
}

// closest is the k entries other than target with the smallest distances to it, nearest first.
func closest(target noise.PublicKey, from []noise.ID, k int) []noise.ID {
	var r []noise.ID
	for _, id := range from {
		if id.ID != target {
			r = append(r, id)
		}
	}
	sort.Slice(r, func(i, j int) bool { return nearer(target, r[i].ID, r[j].ID) })
	if len(r) > k {
		r = r[:k]
	}
	return r
}

// nearer reports whether a is strictly nearer to target than b.
func nearer(target, a, b noise.PublicKey) bool {
	for i := range target {
		if x, y := a[i]^target[i], b[i]^target[i]; x != y {
			return x < y
		}
	}
	return false
}

func keysOf(ids []noise.ID) []noise.PublicKey {
	r := make([]noise.PublicKey, len(ids))
	for i, id := range ids {
		r[i] = id.ID
	}
	return r
}

func sameKeys(a, b []noise.ID) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID {
			return false
		}
	}
	return true
}

func sameSet(a, b []noise.ID) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[noise.PublicKey]int{}
	for i := range a {
		n[a[i].ID]++
		n[b[i].ID]--
	}
	for _, c := range n {
		if c != 0 {
			return false
		}
	}
	return true
}

func keyNames(ids []noise.ID) string {
	var s []string
	for _, id := range ids {
		s = append(s, fmt.Sprintf("%x", id.ID[:4]))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func idWith(rng *rand.Rand, k noise.PublicKey, addrs int) noise.ID {
	host := net.IPv4(10, 0, byte(rng.Intn(2)), byte(rng.Intn(addrs)))
	return noise.NewID(k, host, uint16(1+rng.Intn(2)))
}

// c22owner makes an owner's key: random, or one of the extremes.
func c22owner(rng *rand.Rand) noise.PublicKey {
	var k noise.PublicKey
	switch rng.Intn(8) {
	case 0: // the zero key
	case 1:
		for i := range k {
			k[i] = 0xff
		}
	case 2:
		k[31] = 1
	default:
		rng.Read(k[:])
	}
	return k
}

// c22prefixes picks which buckets a history uses: few, so that they fill up.
func c22prefixes(rng *rand.Rand) []int {
	pick := []int{0, 1, 7, 8, 9, 100, 248, 250, 251, 252, 253, 254, 255, 256}
	var r []int
	for n := 1 + rng.Intn(5); n > 0; n-- {
		r = append(r, pick[rng.Intn(len(pick))])
	}
	return r
}

// c22panics runs an operation and reports a panic as a violation.
func c22panics(t *core.T, what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			t.Violation("panic", "%s panics: %v", what, r)
			ok = false
		}
	}()
	f()
	return true
}

// c22model compares single-threaded histories with the reference, result by result, for all kinds of keys.
func c22model(t *core.T) {
	t.Require("operations", 20000)
	t.Require("refused", 200)
	t.Require("moved", 200)
	t.Require("removed", 200)
	for i := 0; i < t.N(600, 12000); i++ {
		rng := t.RNG("history", i)
		owner := noise.NewID(c22owner(rng), net.IPv4(10, 9, 9, 9), 9)
		var tab *kademlia.Table
		if !c22panics(t, fmt.Sprintf("making the table of %x", owner.ID[:4]), func() { tab = kademlia.NewTable(owner) }) {
			return
		}
		if tab.Self().ID != owner.ID {
			t.Violation("self", "the owner is reported as %x, is %x", tab.Self().ID, owner.ID)
		}
		m := newTableModel(owner)
		pre := c22prefixes(rng)
		var keys []noise.ID
		for n := 2 + rng.Intn(50); n > 0; n-- {
			keys = append(keys, idWith(rng, near(rng, owner.ID, pre[rng.Intn(len(pre))]), 3))
		}
		keys = append(keys, noise.ID{}, owner, noise.NewID(noise.PublicKey{}, net.IPv4(10, 8, 8, 8), 8))
		var trace []string
		bad := func(kind, format string, a ...any) {
			from := 0
			if len(trace) > 40 {
				from = len(trace) - 40
			}
			t.Violation(kind, "%s\nhistory %d, owner %v, the latest operations: %s", fmt.Sprintf(format, a...), i, owner.ID, strings.Join(trace[from:], "; "))
		}
		ops := 50 + rng.Intn(t.N(150, 350))
		for o := 0; o < ops; o++ {
			id := keys[rng.Intn(len(keys))]
			op := []string{"update", "update", "update", "update", "delete", "deleteaddr", "last", "bucket", "recorded", "entries", "count", "closest", "peers"}[rng.Intn(13)]
			if rng.Intn(40) > 0 && (op == "delete" || op == "deleteaddr") && len(m.all()) < 20 {
				op = "update"
			}
			trace = append(trace, fmt.Sprintf("%s %x/%s", op, id.ID[:4], id.Address))
			ok := c22panics(t, fmt.Sprintf("%s of key %v in the table of %v", op, id.ID, owner.ID), func() {
				switch op {
				case "update":
					wi, wf := m.update(id)
					got, err := tab.Update(id)
					if got != wi || (err != nil) != wf || (err != nil && !errors.Is(err, kademlia.ErrBucketFull)) {
						bad("update", "recording %x returns %v, %v; should be %v, full=%v", id.ID[:4], got, err, wi, wf)
					}
					if wf {
						t.Count("refused", 1)
					} else if !wi {
						t.Count("moved", 1)
					}
				case "delete":
					b, at := m.find(id.ID)
					var want noise.ID
					if at >= 0 {
						want = m.buckets[b][at]
					}
					wd := m.remove(id.ID)
					got, deleted := tab.Delete(id.ID)
					if deleted != wd || got.ID != want.ID || (wd && got.Address != want.Address) {
						bad("delete", "deleting %x returns %x %q, %v; should be %x %q, %v", id.ID[:4], got.ID[:4], got.Address, deleted, want.ID[:4], want.Address, wd)
					}
					if wd {
						t.Count("removed", 1)
					}
				case "deleteaddr":
					any := false
					for _, e := range m.all() {
						any = any || e.Address == id.Address
					}
					got, deleted := tab.DeleteByAddress(id.Address)
					if deleted != any {
						bad("delete-address", "deleting the address %q returns %v, should be %v", id.Address, deleted, any)
					}
					if deleted {
						b, at := m.find(got.ID)
						if at < 0 || m.buckets[b][at].Address != id.Address {
							bad("delete-address", "deleting the address %q removes %x at %q, which is not an entry with that address", id.Address, got.ID[:4], got.Address)
						}
						m.remove(got.ID)
						t.Count("removed", 1)
					}
				case "last":
					l := m.buckets[bucketOf(owner.ID, id.ID)]
					var want noise.ID
					if len(l) > 0 {
						want = l[len(l)-1]
					}
					if got := tab.Last(id.ID); got.ID != want.ID || got.Address != want.Address {
						bad("last", "the last entry of %x's bucket is %x, should be %x", id.ID[:4], got.ID[:4], want.ID[:4])
					}
				case "bucket":
					if got, want := tab.Bucket(id.ID), m.buckets[bucketOf(owner.ID, id.ID)]; !sameKeys(got, want) {
						bad("bucket", "the bucket of %x is %v, should be %v", id.ID[:4], keyNames(got), keyNames(want))
					}
				case "recorded":
					_, at := m.find(id.ID)
					if got := tab.Recorded(id.ID); got != (at >= 0) {
						bad("recorded", "%x recorded: %v, should be %v", id.ID[:4], got, at >= 0)
					}
				case "entries":
					if got, want := tab.Entries(), m.all(); !sameSet(got, want) {
						bad("entries", "the entries are %v, should be %v", keyNames(got), keyNames(want))
					}
				case "count":
					if got, want := tab.NumEntries(), len(m.all()); got != want {
						bad("count", "there are said to be %d entries, should be %d", got, want)
					}
				case "closest":
					k := rng.Intn(40)
					if got, want := tab.FindClosest(id.ID, k), closest(id.ID, m.all(), k); !sameKeys(got, want) {
						bad("closest", "the %d closest to %x are %v, should be %v", k, id.ID[:4], keyNames(got), keyNames(want))
					}
				case "peers":
					if got, want := tab.Peers(), closest(owner.ID, m.all(), bucketSize); !sameKeys(got, want) {
						bad("peers", "the peers are %v, should be %v", keyNames(got), keyNames(want))
					}
				}
			})
			t.Count("operations", 1)
			if !ok {
				break
			}
		}
		// What the table lists after all agrees with the reference in every bucket.
		for p := 0; p < 256; p++ {
			k := near(rng, owner.ID, p)
			if got, want := tab.Bucket(k), m.buckets[bucketOf(owner.ID, k)]; !sameKeys(got, want) {
				bad("bucket", "bucket %d is %v in the end, should be %v", p, keyNames(got), keyNames(want))
			}
		}
		for _, e := range tab.Entries() {
			b, at := m.find(e.ID)
			if at >= 0 && m.buckets[b][at].Address != e.Address {
				bad("entry", "%x is recorded with address %q, should be %q", e.ID[:4], e.Address, m.buckets[b][at].Address)
			}
		}
		t.Case("model/%x/%d", owner.ID[:4], i)
		if i < 2 {
			t.Sample("owner %x: %s", owner.ID[:4], strings.Join(trace[:min(12, len(trace))], "; "))
		}
	}
}

// tableOp and tableOut are an operation of a concurrent history and what it returned.
type tableOp struct {
	op string
	id noise.ID
	k  int
}

type tableOut struct {
	ok, full bool
	id       noise.ID
	ids      []noise.ID
	n        int
}

func (o tableOp) run(tab *kademlia.Table) (r tableOut) {
	switch o.op {
	case "update":
		var err error
		r.ok, err = tab.Update(o.id)
		r.full = err != nil
	case "delete":
		r.id, r.ok = tab.Delete(o.id.ID)
	case "deleteaddr":
		r.id, r.ok = tab.DeleteByAddress(o.id.Address)
	case "last":
		r.id = tab.Last(o.id.ID)
	case "bucket":
		r.ids = tab.Bucket(o.id.ID)
	case "recorded":
		r.ok = tab.Recorded(o.id.ID)
	case "entries":
		r.ids = tab.Entries()
	case "count":
		r.n = tab.NumEntries()
	case "closest":
		r.ids = tab.FindClosest(o.id.ID, o.k)
	case "peers":
		r.ids = tab.Peers()
	}
	return r
}

// lin is a state of the linearizability model; it is never changed once made.
type lin struct {
	owner   noise.PublicKey
	buckets map[int][]noise.ID
}

func (s *lin) with(b int, l []noise.ID) *lin {
	n := &lin{owner: s.owner, buckets: make(map[int][]noise.ID, len(s.buckets)+1)}
	for k, v := range s.buckets {
		n.buckets[k] = v
	}
	n.buckets[b] = l
	return n
}

func c22porcupine(init *lin) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return init },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			s, in, out := state.(*lin), input.(tableOp), output.(tableOut)
			m := &tableModel{owner: s.owner, buckets: s.buckets}
			b, at := m.find(in.id.ID)
			l := s.buckets[b]
			switch in.op {
			case "update":
				if in.id.ID == (noise.PublicKey{}) {
					return !out.ok && !out.full, s
				}
				c := &tableModel{owner: s.owner, buckets: map[int][]noise.ID{b: l}}
				ins, full := c.update(in.id)
				if out.ok != ins || out.full != full {
					return false, s
				}
				return true, s.with(b, c.buckets[b])
			case "delete":
				if out.ok != (at >= 0) {
					return false, s
				}
				if at < 0 {
					return out.id.ID == noise.PublicKey{}, s
				}
				if out.id.ID != in.id.ID {
					return false, s
				}
				return true, s.with(b, append(append([]noise.ID(nil), l[:at]...), l[at+1:]...))
			case "deleteaddr":
				any := false
				for _, e := range m.all() {
					any = any || e.Address == in.id.Address
				}
				if out.ok != any {
					return false, s
				}
				if !any {
					return true, s
				}
				b, at := m.find(out.id.ID)
				if at < 0 || s.buckets[b][at].Address != in.id.Address {
					return false, s
				}
				l := s.buckets[b]
				return true, s.with(b, append(append([]noise.ID(nil), l[:at]...), l[at+1:]...))
			case "last":
				if len(l) == 0 {
					return out.id.ID == noise.PublicKey{}, s
				}
				return out.id.ID == l[len(l)-1].ID, s
			case "bucket":
				return sameKeys(out.ids, l), s
			case "recorded":
				return out.ok == (at >= 0), s
			case "entries":
				return sameSet(out.ids, m.all()), s
			case "count":
				return out.n == len(m.all()), s
			case "closest":
				return sameKeys(out.ids, closest(in.id.ID, m.all(), in.k)), s
			case "peers":
				return sameKeys(out.ids, closest(s.owner, m.all(), bucketSize)), s
			}
			return false, s
		},
		Equal: func(a, b interface{}) bool {
			x, y := a.(*lin), b.(*lin)
			same := func(a, b []noise.ID) bool {
				if !sameKeys(a, b) {
					return false
				}
				for i := range a {
					if a[i].Address != b[i].Address {
						return false
					}
				}
				return true
			}
			for k, v := range x.buckets {
				if !same(v, y.buckets[k]) {
					return false
				}
			}
			for k, v := range y.buckets {
				if !same(v, x.buckets[k]) {
					return false
				}
			}
			return true
		},
		DescribeOperation: func(input, output interface{}) string {
			in, out := input.(tableOp), output.(tableOut)
			return fmt.Sprintf("%s(%x,%s,%d) -> ok=%v full=%v id=%x ids=%s n=%d", in.op, in.id.ID[:4], in.id.Address, in.k, out.ok, out.full, out.id.ID[:4], keyNames(out.ids), out.n)
		},
	}
}

// c22linear runs short concurrent histories around full buckets and checks that each has a sequential explanation.
func c22linear(t *core.T) {
	t.Require("histories", 200)
	t.Require("overlapping operations", 500)
	t.Perturb(3)
	for i := 0; i < t.N(1500, 30000); i++ {
		t.PerturbRound(i)
		rng := t.RNG("linear", i)
		owner := noise.NewID(c22owner(rng), net.IPv4(10, 9, 9, 9), 9)
		tab := kademlia.NewTable(owner)
		m := newTableModel(owner)
		pre := []int{[]int{0, 3, 248, 255, 256}[rng.Intn(5)], rng.Intn(250)}
		if rng.Intn(2) == 0 {
			pre = pre[:1]
		}
		var keys []noise.ID
		for n := 18; n > 0; n-- {
			keys = append(keys, idWith(rng, near(rng, owner.ID, pre[rng.Intn(len(pre))]), 3))
		}
		for n := rng.Intn(len(keys)); n > 0; n-- { // may fill a bucket up
			k := keys[rng.Intn(len(keys))]
			m.update(k)
			tab.Update(k)
		}
		if rng.Intn(3) == 0 {
			keys = append(keys, owner, noise.ID{})
		}
		hot := keys
		if rng.Intn(2) == 0 {
			rng.Shuffle(len(keys), func(a, b int) { keys[a], keys[b] = keys[b], keys[a] })
			hot = keys[:2+rng.Intn(3)]
		}
		kinds := []string{"update", "update", "update", "delete", "delete", "deleteaddr", "last", "bucket", "recorded", "entries", "count", "closest", "peers"}
		threads, per := 2+rng.Intn(5), 3+rng.Intn(3)
		plan := make([][]tableOp, threads)
		for j := range plan {
			for n := 0; n < per; n++ {
				plan[j] = append(plan[j], tableOp{kinds[rng.Intn(len(kinds))], hot[rng.Intn(len(hot))], rng.Intn(20)})
			}
		}
		var clock atomic.Int64
		var mu sync.Mutex
		var hist []porcupine.Operation
		start := make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			var wg sync.WaitGroup
			for j := range plan {
				j := j
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, o := range plan[j] {
						from := clock.Add(1)
						r := o.run(tab)
						to := clock.Add(1)
						mu.Lock()
						hist = append(hist, porcupine.Operation{ClientId: j, Input: o, Call: from, Output: r, Return: to})
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
		}()
		close(start)
		select {
		case <-done:
		case <-time.After(core.Long):
			t.Violation("stuck", "operations on a table do not return\n%s", core.LibDump(10))
			return
		}
		// The final state closes the history.
		for _, o := range []tableOp{{op: "entries"}, {op: "count"}, {op: "bucket", id: hot[0]}, {op: "peers"}} {
			from := clock.Add(1)
			r := o.run(tab)
			hist = append(hist, porcupine.Operation{ClientId: threads, Input: o, Call: from, Output: r, Return: clock.Add(1)})
		}
		over := 0
		for a := range hist {
			for b := range hist[:a] {
				if hist[a].Call < hist[b].Return && hist[b].Call < hist[a].Return {
					over++
				}
			}
		}
		t.Count("overlapping operations", over)
		model := c22porcupine(&lin{owner: owner.ID, buckets: m.buckets})
		switch res := porcupine.CheckOperationsTimeout(model, hist, 20*time.Second); res {
		case porcupine.Ok:
			t.Count("histories", 1)
			if over > 0 {
				t.Case("linear/%d/%d/%d", threads, per, i)
			}
		case porcupine.Unknown:
			t.Count("histories undecided in time", 1)
		default:
			sort.Slice(hist, func(a, b int) bool { return hist[a].Call < hist[b].Call })
			var s []string
			for _, h := range hist {
				s = append(s, fmt.Sprintf("  thread %d %d..%d %s", h.ClientId, h.Call, h.Return, model.DescribeOperation(h.Input, h.Output)))
			}
			t.Violation("not-linearizable", "no order of these operations explains what they returned (history %d, owner %x, entries before %v):\n%s", i, owner.ID[:4], keyNames(m.all()), strings.Join(s, "\n"))
			return
		}
	}
}

// wellFormed checks what a table lists at one moment.
func wellFormed(t *core.T, what string, owner noise.PublicKey, ids []noise.ID, bucket int) {
	seen := map[noise.PublicKey]bool{}
	per := map[int]int{}
	for _, id := range ids {
		if seen[id.ID] {
			t.Violation("duplicate", "%s lists %x twice", what, id.ID[:4])
		}
		seen[id.ID] = true
		if id.ID == (noise.PublicKey{}) {
			t.Violation("zero-key", "%s lists the zero key", what)
		}
		b := bucketOf(owner, id.ID)
		per[b]++
		if bucket >= 0 && b != bucket {
			t.Violation("misplaced", "%s lists %x, which belongs to bucket %d, not %d", what, id.ID[:4], b, bucket)
		}
	}
	for b, n := range per {
		if n > bucketSize {
			t.Violation("overfull", "%s has %d entries in bucket %d", what, n, b)
		}
	}
}

// c22shared hammers one table from many threads and watches every listing; in the end the counts must add up.
func c22shared(t *core.T) {
	t.Require("listings", 500)
	for round := 0; round < t.N(6, 60); round++ {
		t.PerturbRound(round)
		rng := t.RNG("shared", round)
		owner := noise.NewID(c22owner(rng), net.IPv4(10, 9, 9, 9), 9)
		tab := kademlia.NewTable(owner)
		var keys []noise.ID
		for n := 0; n < 120; n++ {
			keys = append(keys, noise.NewID(near(rng, owner.ID, []int{0, 1, 2, 254, 255, 256}[rng.Intn(6)]), net.IPv4(10, 0, 0, byte(n)), 1))
		}
		keys = append(keys, noise.ID{})
		var wg sync.WaitGroup
		var admitted, gone atomic.Int64
		if owner.ID != (noise.PublicKey{}) {
			admitted.Add(1)
		}
		for w := 0; w < 8; w++ {
			r := t.RNG("shared-ops", 8*round+w)
			wg.Add(1)
			go func() {
				defer wg.Done()
				c22panics(t, "an operation under concurrency", func() {
					for i := 0; i < 400; i++ {
						id := keys[r.Intn(len(keys))]
						switch r.Intn(10) {
						case 0, 1, 2, 3:
							ok, err := tab.Update(id)
							if ok {
								admitted.Add(1)
							}
							if err != nil && !errors.Is(err, kademlia.ErrBucketFull) {
								t.Violation("update", "recording fails with %v", err)
							}
						case 4, 5:
							if got, ok := tab.Delete(id.ID); ok {
								gone.Add(1)
								if got.ID != id.ID {
									t.Violation("delete", "deleting %x removes %x", id.ID[:4], got.ID[:4])
								}
							}
						case 6:
							if _, ok := tab.DeleteByAddress(id.Address); ok {
								gone.Add(1)
							}
						case 7:
							wellFormed(t, "Bucket", owner.ID, tab.Bucket(id.ID), bucketOf(owner.ID, id.ID))
							t.Count("listings", 1)
						case 8:
							wellFormed(t, "Entries", owner.ID, tab.Entries(), -1)
							t.Count("listings", 1)
						case 9:
							k := r.Intn(30)
							got := tab.FindClosest(id.ID, k)
							wellFormed(t, "FindClosest", owner.ID, got, -1)
							if len(got) > k {
								t.Violation("closest", "FindClosest(%d) returns %d", k, len(got))
							}
							for i := 1; i < len(got); i++ {
								if !nearer(id.ID, got[i-1].ID, got[i].ID) {
									t.Violation("closest", "FindClosest returns %v for %x", keyNames(got), id.ID[:4])
								}
							}
							t.Count("listings", 1)
						}
					}
				})
			}()
		}
		if !t.MustDo("operations on a table", wg.Wait) {
			return
		}
		want := int(admitted.Load() - gone.Load())
		if n := len(tab.Entries()); n != want || tab.NumEntries() != want {
			t.Violation("conservation", "%d entries were admitted and %d removed, but %d are listed and %d counted", admitted.Load(), gone.Load(), n, tab.NumEntries())
		}
		t.Case("shared/%x/%d", owner.ID[:4], round)
	}
}

// c22overlay watches the tables of nodes that meet, leave, and look each other up.
func c22overlay(t *core.T) {
	t.Require("listings", 200)
	for round := 0; round < t.N(2, 10); round++ {
		t.PerturbRound(round)
		var nodes []*noise.Node
		var over []*kademlia.Protocol
		for i := 0; i < 10; i++ {
			o := kademlia.New(kademlia.WithProtocolPingTimeout(2 * time.Second))
			n := mk(t, func(n *noise.Node) {
				o = kademlia.New(kademlia.WithProtocolPingTimeout(2 * time.Second))
				n.Bind(o.Protocol())
			}, noise.WithNodeMaxDialAttempts(1))
			nodes, over = append(nodes, n), append(over, o)
		}
		stop := make(chan struct{})
		var watch, work sync.WaitGroup
		for i := range nodes {
			i := i
			watch.Add(1)
			go func() {
				defer watch.Done()
				owner := nodes[i].ID().ID
				for {
					select {
					case <-stop:
						return
					case <-time.After(2 * time.Millisecond):
					}
					tab := over[i].Table()
					wellFormed(t, "Entries", owner, tab.Entries(), -1)
					wellFormed(t, "Peers", owner, tab.Peers(), -1)
					k := nodes[(i+1)%len(nodes)].ID().ID
					wellFormed(t, "Bucket", owner, tab.Bucket(k), bucketOf(owner, k))
					t.Count("listings", 3)
				}
			}()
		}
		for i := range nodes {
			i := i
			work.Add(1)
			go func() {
				defer work.Done()
				r := t.RNG("overlay", 10*round+i)
				for j := 0; j < 6; j++ {
					p := r.Intn(len(nodes))
					ctx, cancel := ctxT(5 * time.Second)
					nodes[i].Ping(ctx, nodes[p].Addr())
					cancel()
					if j%2 == 1 {
						over[i].Discover(kademlia.WithIteratorLookupTimeout(2 * time.Second))
					}
				}
				if i < 3 {
					nodes[i].Close()
				}
			}()
		}
		t.MustDo("pings and discoveries", work.Wait)
		close(stop)
		watch.Wait()
		for i := range nodes {
			tab := over[i].Table()
			if tab.NumEntries() != len(tab.Entries()) {
				if !t.Await(5*time.Second, func() bool { return tab.NumEntries() == len(tab.Entries()) }) {
					t.Violation("count", "%d entries are counted, %d listed", tab.NumEntries(), len(tab.Entries()))
				}
			}
		}
		t.Case("overlay/%d", round)
		t.RunCleanups()
	}
}
