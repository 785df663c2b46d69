package main

import (
	"context"
	"math/rand/v2"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
)

// Gauge register monitor: every write has a unique value and a logical
// [begin,end] interval; every reported value is checked offline against the
// recorded history for register linearizability per output series.

type gwrite struct {
	begin, end int64
	val        int64
	s          *cser
}

type gread struct {
	cb, ce int64
	vals   map[string]int64
	ri     int
}

func gaugeConc(c *hz.Case, merge, rename bool) {
	w := newConc(c, concCfg{kinds: []sdkinstrument.Kind{sdkinstrument.SyncGauge}, maxReader: 3, keys: true, merge: merge, rename: rename})
	var clock, next atomic.Int64
	var wg, cg sync.WaitGroup
	var stop atomic.Bool
	nw := 2 + c.R.IntN(4)
	writes := make([][]gwrite, nw)
	reads := make([][]gread, len(w.readers))
	start := make(chan struct{})
	for i := 0; i < nw; i++ {
		r := rand.New(rand.NewPCG(c.Seed, uint64(i)+1))
		ops := 40 + r.IntN(160)
		c.Go(&wg, func() {
			<-start
			ctx := context.Background()
			for j := 0; j < ops; j++ {
				s := w.ser[r.IntN(len(w.ser))]
				in := w.insts[s.inst]
				v := next.Add(1)
				b := clock.Add(1)
				in.record(ctx, toNum(in.nk, v), path(r.IntN(2)), s.kvs)
				e := clock.Add(1)
				writes[i] = append(writes[i], gwrite{b, e, v, s})
				c.Tick()
			}
		})
	}
	collect := func(ri int, mem *data.Metrics) {
		rd := gread{ri: ri, vals: map[string]int64{}}
		rd.cb = clock.Add(1)
		s := produce(w.readers[ri], mem)
		rd.ce = clock.Add(1)
		pts, dups := w.points(s)
		for _, d := range dups {
			c.Violate(nil, "reader %d: two points for series %s in one collection", ri, d)
		}
		for k, p := range pts {
			v, ok := fromNum(p.val)
			if !ok || p.kind != aggregation.GaugeKind {
				c.Violate(nil, "reader %d: series %s: unexpected value %v of kind %v", ri, k, p.val, p.kind)
			}
			if (p.tempo == aggregation.DeltaTemporality) != (w.tempo[ri] == aggregation.DeltaTemporality) {
				c.Violate(nil, "reader %d: series %s has temporality %v", ri, k, p.tempo)
			}
			rd.vals[k] = v
		}
		reads[ri] = append(reads[ri], rd)
	}
	mems := make([]*data.Metrics, len(w.readers))
	for ri := range w.readers {
		if c.R.IntN(2) == 0 {
			mems[ri] = &data.Metrics{}
		}
		c.Go(&cg, func() {
			<-start
			for !stop.Load() {
				collect(ri, mems[ri])
			}
		})
	}
	close(start)
	wg.Wait()
	stop.Store(true)
	cg.Wait()
	for ri := range w.readers {
		collect(ri, mems[ri])
		collect(ri, mems[ri])
	}

	for ri := range w.readers {
		byOut := map[string][]gwrite{}
		byVal := map[int64]gwrite{}
		for _, ws := range writes {
			for _, g := range ws {
				k := w.out(ri, g.s)
				byOut[k] = append(byOut[k], g)
				byVal[g.val] = g
			}
		}
		delta := w.tempo[ri] == aggregation.DeltaTemporality
		keys := map[string]bool{}
		for k, ws := range byOut {
			keys[k] = true
			sort.Slice(ws, func(i, j int) bool { return ws[i].end < ws[j].end })
			seen := map[int64]int{}
			prevEnd := int64(0)
			for ci, rd := range reads[ri] {
				c.Eval(1)
				// newest begin among writes finished before the collection
				newest, newestEnd := int64(-1), int64(-1)
				window := int64(-1) // same, among those begun after the last collection
				for _, g := range ws {
					if g.end >= rd.cb {
						break
					}
					if g.begin > prevEnd {
						window = max(window, g.begin)
					}
					newest = max(newest, g.begin)
					newestEnd = g.end
				}
				v, present := rd.vals[k]
				if present {
					g, ok := byVal[v]
					if !ok || w.out(ri, g.s) != k {
						c.Violate(nil, "reader %d: series %s: collection %d reports %d, which nobody recorded there", ri, k, ci, v)
						return
					}
					if g.begin > rd.ce {
						c.Violate(nil, "reader %d: series %s: collection %d reports a value recorded later", ri, k, ci)
					}
					limit := newest
					if delta && (w.keys[ri] != nil || w.renamed[ri]) {
						// Several attribute sets merge into this series;
						// the previous delta collection may already have
						// reported a newer value of another one of them.
						limit = window
					}
					if g.end < limit {
						c.Violate(nil, "reader %d (%v): series %s: collection %d reports the stale value %d: recorded in [%d,%d], but a later recording began at %d and finished before the collection started at %d",
							ri, w.tempo[ri], k, ci, v, g.begin, g.end, limit, rd.cb)
					}
					if p, dup := seen[v]; dup && delta {
						c.Violate(nil, "reader %d: series %s: delta collections %d and %d both report the same recording", ri, k, p, ci)
					}
					seen[v] = ci
				} else {
					if !delta && newest >= 0 {
						c.Violate(nil, "reader %d: series %s: cumulative gauge missing from collection %d", ri, k, ci)
					}
					// a recording that happened entirely between two collections must be reported
					if delta && newest > prevEnd && newestEnd < rd.cb {
						c.Violate(nil, "reader %d: series %s: delta collection %d misses a gauge recorded since the last collection", ri, k, ci)
					}
				}
				prevEnd = rd.ce
			}
			c.Distinct(ri, k, len(seen), len(ws))
			c.Count("gauge_values_seen", int64(len(seen)))
			c.Count("gauge_writes", int64(len(ws)))
		}
		for ci, rd := range reads[ri] {
			for k, v := range rd.vals {
				if !keys[k] {
					c.Violate(nil, "reader %d: collection %d reports series %s (%d) that nobody recorded", ri, ci, k, v)
				}
			}
		}
		c.Count("collections", int64(len(reads[ri])))
	}
}
