package checks

import (
	"bytes"
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"net"
	"sort"
	"sync"

	"github.com/perlin-network/noise"
	"github.com/perlin-network/noise/kademlia"

	"verif.test/h/core"
)

func init() {
	core.Register(&core.Check{
		ID:          "C23",
		Rule:        "one case per query of a generated table (owner, entries, target, k), per pair or triple of byte strings, or per list to sort; distinct by scenario and content; non-trivial: the table has more than one bucket in use, or the strings are not all equal",
		Assumptions: nil,
		Scenarios: []core.Scenario{
			{Name: "closest", Run: c23closest},
			{Name: "every", Run: c23every},
			{Name: "metric", Run: c23metric},
			{Name: "sort", Run: c23sort},
			{Name: "churn", Run: c23churn},
		},
	})
}

// c23table makes a table of many entries in a way that fills some of its buckets.
func c23table(rng *rand.Rand, size int) (noise.ID, *kademlia.Table, []noise.ID) {
	owner := noise.NewID(c22owner(rng), net.IPv4(10, 9, 9, 9), 9)
	tab := kademlia.NewTable(owner)
	held := map[noise.PublicKey]noise.ID{}
	if owner.ID != (noise.PublicKey{}) {
		held[owner.ID] = owner
	}
	style := rng.Intn(5)
	for i := 0; i < size; i++ {
		var k noise.PublicKey
		switch style {
		case 0: // anywhere: as in a real network
			rng.Read(k[:])
		case 1: // the same number in every bucket
			k = near(rng, owner.ID, i%256)
		case 2: // around a few lengths
			k = near(rng, owner.ID, []int{0, 1, 2, 3, 10, 254, 255, 256}[rng.Intn(8)])
		case 3: // differing from the owner in few bits
			k = owner.ID
			for n := 1 + rng.Intn(3); n > 0; n-- {
				b := rng.Intn(256)
				k[b/8] ^= 0x80 >> (b % 8)
			}
		case 4: // sparse
			k = near(rng, owner.ID, rng.Intn(16)*16)
		}
		id := noise.NewID(k, net.IPv4(10, 1, byte(i>>8), byte(i)), uint16(1+i))
		if ok, _ := tab.Update(id); ok {
			held[k] = id
		}
	}
	var all []noise.ID
	for _, id := range held {
		all = append(all, id)
	}
	sort.Slice(all, func(i, j int) bool { return bytes.Compare(all[i].ID[:], all[j].ID[:]) < 0 })
	return owner, tab, all
}

// c23target picks a target: unrelated, recorded, almost recorded, the owner or an extreme.
func c23target(rng *rand.Rand, owner noise.ID, all []noise.ID) (k noise.PublicKey, kind string) {
	switch n := rng.Intn(9); {
	case n == 0:
		return owner.ID, "owner"
	case n == 1:
		return k, "zero"
	case n == 2:
		for i := range k {
			k[i] = 0xff
		}
		return k, "ones"
	case n <= 4 && len(all) > 0:
		return all[rng.Intn(len(all))].ID, "recorded"
	case n == 5 && len(all) > 0:
		return near(rng, all[rng.Intn(len(all))].ID, rng.Intn(256)), "by-recorded"
	case n <= 7:
		return near(rng, owner.ID, rng.Intn(256)), "by-owner"
	}
	rng.Read(k[:])
	return k, "any"
}

func c23compare(t *core.T, tab *kademlia.Table, all []noise.ID, target noise.PublicKey, kind string, k int) {
	want := closest(target, all, k)
	got := tab.FindClosest(target, k)
	if !sameKeys(got, want) {
		t.Violation("closest", "the %d closest to %v (%s) among %d entries of the table of %v are %v, should be %v", k, target, kind, len(all), tab.Self().ID, keyNames(got), keyNames(want))
		return
	}
	for i := range got {
		if got[i].Address != want[i].Address || got[i].Port != want[i].Port || !got[i].Host.Equal(want[i].Host) {
			t.Violation("identity", "%x is returned as %v %d %q, was recorded as %v %d %q", got[i].ID[:4], got[i].Host, got[i].Port, got[i].Address, want[i].Host, want[i].Port, want[i].Address)
		}
	}
	t.Count("queries", 1)
}

// c23closest asks many tables for the peers closest to targets of all kinds.
func c23closest(t *core.T) {
	t.Require("queries", 5000)
	for i := 0; i < t.N(400, 6000); i++ {
		rng := t.RNG("closest", i)
		size := []int{0, 1, 2, 5, 15, 16, 17, 40, 120, 400}[rng.Intn(10)]
		owner, tab, all := c23table(rng, size)
		if n := tab.NumEntries(); n != len(all) {
			t.Violation("count", "a table of %d entries says it has %d", len(all), n)
		}
		for q := 0; q < 30; q++ {
			target, kind := c23target(rng, owner, all)
			k := []int{0, 1, 2, 15, 16, 17, len(all) - 1, len(all), len(all) + 1, 1000, rng.Intn(40)}[rng.Intn(11)]
			if k < 0 {
				k = 0
			}
			c23compare(t, tab, all, target, kind, k)
			t.Case("closest/%d/%s/%d/%x", i, kind, k, target[:4])
		}
		if got, want := tab.Peers(), closest(owner.ID, all, bucketSize); !sameKeys(got, want) {
			t.Violation("peers", "the peers of %x are %v, should be %v", owner.ID[:4], keyNames(got), keyNames(want))
		}
		t.Count("own lists", 1)
		// What is returned is the caller's: changing it changes nothing.
		if got := tab.FindClosest(owner.ID, 16); len(got) > 0 {
			for i := range got {
				got[i] = noise.ID{}
			}
			for _, e := range tab.Entries() {
				e.ID[0] ^= 1
			}
			c23compare(t, tab, all, owner.ID, "owner, after changing an earlier answer", 16)
		}
	}
}

// c23every asks a few tables with every bucket in use for the neighbours of a target in each bucket, for every k.
func c23every(t *core.T) {
	t.Require("queries", 2000)
	for i := 0; i < t.N(1, 20); i++ {
		rng := t.RNG("every", i)
		owner := noise.NewID(c22owner(rng), net.IPv4(10, 9, 9, 9), 9)
		tab := kademlia.NewTable(owner)
		var all []noise.ID
		if owner.ID != (noise.PublicKey{}) {
			all = append(all, owner)
		}
		for p := 0; p < 256; p++ {
			for n := rng.Intn(4); n > 0; n-- {
				id := noise.NewID(near(rng, owner.ID, p), net.IPv4(10, 1, byte(p), byte(n)), 1)
				if ok, _ := tab.Update(id); ok {
					all = append(all, id)
				}
			}
		}
		for p := 0; p <= 256; p++ {
			target := near(rng, owner.ID, p)
			for _, k := range []int{0, 1, 2, 3, 5, 8, 16, 17, 31, 64, 300, len(all)} {
				c23compare(t, tab, all, target, fmt.Sprint("bucket ", p), k)
			}
			t.Case("every/%d/%d", i, p)
		}
	}
}

// c23metric checks that XOR is a metric in which each distance from a key leads to one other key only, and that
// prefix lengths are the logarithms of distances.
func c23metric(t *core.T) {
	t.Require("triples", 2000)
	gen := func(rng *rand.Rand, n int) []byte {
		b := make([]byte, n)
		switch rng.Intn(5) {
		case 0:
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		case 2:
			if n > 0 {
				b[rng.Intn(n)] = 1 << rng.Intn(8)
			}
		default:
			rng.Read(b)
		}
		return b
	}
	num := func(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
	for i := 0; i < t.N(4000, 60000); i++ {
		rng := t.RNG("metric", i)
		n := []int{0, 1, 2, 7, 31, 32, 33, 64}[rng.Intn(8)]
		a, b, c := gen(rng, n), gen(rng, n), gen(rng, n)
		if rng.Intn(3) == 0 { // nearly alike
			b = append([]byte(nil), a...)
			if n > 0 {
				b[rng.Intn(n)] ^= 1 << rng.Intn(8)
			}
		}
		a0, b0 := append([]byte(nil), a...), append([]byte(nil), b...)
		ab := kademlia.XOR(a, b)
		for j := 0; j < n; j++ {
			if len(ab) != n || ab[j] != a0[j]^b0[j] {
				t.Violation("xor", "XOR(%x, %x) = %x", a0, b0, ab)
				return
			}
		}
		if !bytes.Equal(a, a0) || !bytes.Equal(b, b0) {
			t.Violation("xor-inputs", "XOR(%x, %x) changes what it is given", a0, b0)
		}
		if n > 0 { // the result is a copy
			ab[0] ^= 0xff
			if !bytes.Equal(a, a0) || !bytes.Equal(b, b0) {
				t.Violation("xor-alias", "the result of XOR shares memory with what it was given")
			}
			ab[0] ^= 0xff
		}
		if ba := kademlia.XOR(b, a); !bytes.Equal(ab, ba) {
			t.Violation("symmetry", "XOR(%x, %x) = %x but %x the other way round", a, b, ab, ba)
		}
		if num(kademlia.XOR(a, a)).Sign() != 0 {
			t.Violation("identity", "the distance of %x to itself is %x", a, kademlia.XOR(a, a))
		}
		if num(ab).Sign() == 0 && !bytes.Equal(a, b) {
			t.Violation("identity", "the distance of %x and %x is 0", a, b)
		}
		ac, bc := kademlia.XOR(a, c), kademlia.XOR(b, c)
		if num(ac).Cmp(new(big.Int).Add(num(ab), num(bc))) > 0 {
			t.Violation("triangle", "d(%x, %x) > d via %x", a, c, b)
		}
		if !bytes.Equal(kademlia.XOR(ab, a), b) {
			t.Violation("unidirectional", "XOR(XOR(a, b), a) is not b for %x, %x", a, b)
		}
		pl := kademlia.PrefixLen(ab)
		if want := 8*n - num(ab).BitLen(); pl != want {
			t.Violation("prefix", "%x starts with %d zero bits, said to be %d", ab, want, pl)
		}
		// Keys that share longer prefixes are nearer, and shared prefixes obey the ultrametric law.
		if p, q, r := pl, kademlia.PrefixLen(bc), kademlia.PrefixLen(ac); r < min(p, q) {
			t.Violation("ultrametric", "%x, %x, %x share prefixes of %d, %d and %d bits", a, b, c, p, q, r)
		}
		t.Count("triples", 1)
		t.Case("metric/%d/%x", n, a)
	}
	// Every single bit and every length.
	for n := 0; n <= 64; n++ {
		z := make([]byte, n)
		if got := kademlia.PrefixLen(z); got != 8*n {
			t.Violation("prefix", "%d zero bytes start with %d zero bits", n, got)
		}
		for b := 0; b < 8*n; b++ {
			z[b/8] = 0x80 >> (b % 8)
			if b%8 != 7 {
				z[b/8] |= 1
			}
			if b/8+1 < n {
				z[b/8+1] = 0xaa
			}
			if got, want := kademlia.PrefixLen(z), 8*(b/8)+bits.LeadingZeros8(z[b/8]); got != want {
				t.Violation("prefix", "%x starts with %d zero bits, said to be %d", z, want, got)
			}
			z[b/8] = 0
			if b/8+1 < n {
				z[b/8+1] = 0
			}
			t.Count("prefixes", 1)
		}
	}
}

// c23sort sorts lists by distance, with ties, and keeps every entry.
func c23sort(t *core.T) {
	t.Require("lists", 500)
	for i := 0; i < t.N(1500, 20000); i++ {
		rng := t.RNG("sort", i)
		var target noise.PublicKey
		rng.Read(target[:])
		var ids []noise.ID
		n := []int{0, 1, 2, 3, 11, 12, 13, 50, 300}[rng.Intn(9)]
		for j := 0; j < n; j++ {
			k := near(rng, target, []int{rng.Intn(257), 256, 0, 255, 128}[rng.Intn(5)])
			if j > 0 && rng.Intn(5) == 0 {
				k = ids[rng.Intn(j)].ID
			}
			ids = append(ids, noise.NewID(k, net.IPv4(10, 0, byte(j>>8), byte(j)), 1))
		}
		in := append([]noise.ID(nil), ids...)
		got := kademlia.SortByDistance(target, ids)
		left := map[string]int{}
		for _, id := range in {
			left[fmt.Sprintf("%x %s", id.ID, id.Address)]++
		}
		for _, id := range got {
			left[fmt.Sprintf("%x %s", id.ID, id.Address)]--
		}
		for k, c := range left {
			if c != 0 {
				t.Violation("permutation", "sorting %d ids by distance loses or repeats %s", n, k)
				break
			}
		}
		for j := 1; j < len(got); j++ {
			if nearer(target, got[j].ID, got[j-1].ID) {
				t.Violation("order", "sorted by distance to %v, %v comes after %v", target, got[j].ID, got[j-1].ID)
				break
			}
		}
		t.Count("lists", 1)
		t.Case("sort/%d/%x", n, target[:4])
	}
}

// c23churn queries a table while entries far away come and go: the answer about the entries that stay is fixed.
func c23churn(t *core.T) {
	t.Require("queries under churn", 1000)
	for round := 0; round < t.N(4, 40); round++ {
		t.PerturbRound(round)
		rng := t.RNG("churn", round)
		owner := noise.NewID(near(rng, noise.PublicKey{}, 3), net.IPv4(10, 9, 9, 9), 9)
		tab := kademlia.NewTable(owner)
		// The entries that stay share at least 4 bits with the owner; those that come and go share at most 3.
		stay := []noise.ID{owner}
		for i := 0; i < 60; i++ {
			id := noise.NewID(near(rng, owner.ID, 4+rng.Intn(10)), net.IPv4(10, 1, 0, byte(i)), 1)
			if ok, _ := tab.Update(id); ok {
				stay = append(stay, id)
			}
		}
		var come []noise.ID
		for i := 0; i < 60; i++ {
			come = append(come, noise.NewID(near(rng, owner.ID, rng.Intn(4)), net.IPv4(10, 2, 0, byte(i)), 1))
		}
		stop := make(chan struct{})
		var churners, askers sync.WaitGroup
		for w := 0; w < 3; w++ {
			r := t.RNG("churner", 3*round+w)
			churners.Add(1)
			go func() {
				defer churners.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					id := come[r.Intn(len(come))]
					switch r.Intn(3) {
					case 0:
						tab.Delete(id.ID)
					case 1:
						tab.DeleteByAddress(id.Address)
					default:
						tab.Update(id)
					}
					if r.Intn(4) == 0 { // moving an entry within its bucket changes no answer either
						tab.Update(stay[r.Intn(len(stay))])
					}
				}
			}()
		}
		for w := 0; w < 4; w++ {
			r := t.RNG("asker", 4*round+w)
			askers.Add(1)
			go func() {
				defer askers.Done()
				for i := 0; i < 150; i++ {
					target := near(r, owner.ID, 4+r.Intn(253))
					k := 1 + r.Intn(30)
					want := closest(target, stay, k)
					got := tab.FindClosest(target, k)
					if len(got) > len(want) {
						if len(got) > k {
							t.Violation("closest", "%d entries are returned, %d were asked for", len(got), k)
						}
						got = got[:len(want)] // beyond the entries that stay are some that come and go
					}
					if !sameKeys(got, want) {
						t.Violation("churn", "while entries far away come and go, the %d closest to %v are %v, should be %v", k, target, keyNames(got), keyNames(want))
						return
					}
					t.Count("queries under churn", 1)
				}
			}()
		}
		t.MustDo("queries", askers.Wait)
		close(stop)
		churners.Wait()
		t.Case("churn/%d/%x", round, owner.ID[:4])
	}
}
