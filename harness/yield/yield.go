// Package yield is woven into the library by cmd/instr: P is called before statements that touch shared state,
// channels, locks or other functions. It perturbs the schedule according to a seeded plan. It deliberately uses
// plain memory accesses in functions the race detector does not instrument, so that it adds no happens-before edge
// which could hide a race of the library.
package yield

import (
	"runtime"
	"time"
)

const MaxSites = 8192

var (
	on       uint32
	state    uint64
	goschedP uint32 // out of 65536
	sleepP   uint32 // out of 65536, at hot sites
	maxSleep int64  // ns
	budget   int64  // remaining ns of sleep in this plan
	hot      [MaxSites]bool

	hits     [MaxSites]uint32
	gosched  uint64
	sleeps   uint64
	sleepSum int64
)

// P is a schedule perturbation point.
//
//go:norace
//go:noinline
func P(site int) {
	if on == 0 {
		return
	}
	if uint(site) >= MaxSites {
		return
	}
	hits[site]++
	state = state*6364136223846793005 + 1442695040888963407
	x := uint32(state >> 33)
	if hot[site] && x&0xffff < sleepP && budget > 0 {
		d := int64(x>>8) % (maxSleep + 1)
		budget -= d
		sleeps++
		sleepSum += d
		time.Sleep(time.Duration(d))
		return
	}
	if (x>>4)&0xffff < goschedP {
		gosched++
		runtime.Gosched()
	}
}

// Plan describes the perturbation of one round.
type Plan struct {
	Seed     uint64
	Gosched  float64 // probability of yielding at any site
	Hot      int     // number of hot sites, chosen among those hit so far (or all known sites)
	Sites    int     // number of sites in the library
	Sleep    float64 // probability of sleeping at a hot site
	MaxSleep time.Duration
	Budget   time.Duration
}

// Set installs a plan. It must be called while the library is quiet.
//
//go:norace
func Set(p Plan) {
	on = 0
	s := p.Seed*0x9e3779b97f4a7c15 + 0x1234567
	state = s
	goschedP = uint32(p.Gosched * 65536)
	sleepP = uint32(p.Sleep * 65536)
	maxSleep = int64(p.MaxSleep)
	budget = int64(p.Budget)
	for i := range hot {
		hot[i] = false
	}
	if p.Sites > MaxSites {
		p.Sites = MaxSites
	}
	for i := 0; i < p.Hot && p.Sites > 0; i++ {
		s = s*6364136223846793005 + 1442695040888963407
		hot[int((s>>20)%uint64(p.Sites))] = true
	}
	on = 1
}

// Off disables perturbation.
//
//go:norace
func Off() { on = 0 }

// Stats returns how many distinct sites were reached and what was injected.
//
//go:norace
func Stats() (sites int, yields, slept uint64, total time.Duration) {
	for i := range hits {
		if hits[i] > 0 {
			sites++
		}
	}
	return sites, gosched, sleeps, time.Duration(sleepSum)
}

// HitSites lists the sites reached.
//
//go:norace
func HitSites() []int {
	var l []int
	for i := range hits {
		if hits[i] > 0 {
			l = append(l, i)
		}
	}
	return l
}
