// Package vy is the target of the yield points that the instrumenter inserts.
// It must not create happens-before edges (no locks, channels or atomics), so
// that it never hides a data race from the race detector.
package vy

import (
	"math/rand/v2"
	"runtime"
	"time"
)

const maxSites = 1 << 14

var (
	enabled bool
	mode    [maxSites]uint8 // 0: rare Gosched, 1: frequent Gosched, 2: hot (sleep)
	hits    [maxSites]uint32
	cur     [maxSites]bool // reached since the last plan
	last    uint32
	pairs   [1 << 17]uint8
	delays  uint64
)

// P is called before each instrumented statement.
//
//go:norace
//go:noinline
func P(s uint32) {
	s &= maxSites - 1
	if !enabled {
		return
	}
	hits[s]++
	cur[s] = true
	last = s
	r := rand.Uint32()
	switch mode[s] {
	case 0:
		if r&1023 != 0 {
			return
		}
		runtime.Gosched()
	case 1:
		if r&7 != 0 {
			return
		}
		runtime.Gosched()
	default:
		if r&3 == 0 {
			return
		}
		time.Sleep(time.Duration(5+(r>>8)&127) * time.Microsecond)
	}
	delays++
	if o := last; o != s {
		h := (s*2654435761 ^ o*40503) & (1<<17 - 1)
		pairs[h] = 1
	}
}

// Plan sets a new delay plan: nhot sites that were reached before become hot,
// a fraction become frequent yielders.  Half of the plans draw from the sites
// that the previous case reached.
//
//go:norace
func Plan(seed uint64, nhot int, on bool) []uint32 {
	rg := rand.New(rand.NewPCG(seed, 0x9e3779b97f4a7c15))
	var reached, recent []uint32
	for i := range mode {
		mode[i] = 0
		if hits[i] > 0 {
			reached = append(reached, uint32(i))
		}
		if cur[i] {
			recent = append(recent, uint32(i))
		}
		cur[i] = false
	}
	if len(recent) > 0 && rg.IntN(2) == 0 {
		reached = recent
	}
	var hot []uint32
	if len(reached) > 0 {
		for i := 0; i < len(reached)/8; i++ {
			mode[reached[rg.IntN(len(reached))]] = 1
		}
		for i := 0; i < nhot; i++ {
			s := reached[rg.IntN(len(reached))]
			mode[s] = 2
			hot = append(hot, s)
		}
	}
	enabled = on
	return hot
}

//go:norace
func Off() { enabled = false }

// Stats reports sites reached, distinct (delayed site, site that ran
// meanwhile) pairs, and the number of delays.
//
//go:norace
func Stats() (sites, npairs int, nd uint64) {
	for i := range hits {
		if hits[i] > 0 {
			sites++
		}
	}
	for i := range pairs {
		if pairs[i] > 0 {
			npairs++
		}
	}
	return sites, npairs, delays
}
