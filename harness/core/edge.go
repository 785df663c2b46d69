package main

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/lightstep/go-expohisto/structure"
	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
)

// The histogram data structure (a dependency) fails for some values next to
// powers of two. libraryPanic is what it says then.
const libraryPanic = "downscale logic error"

// recordSafely makes a measurement; it returns the panic of the call, if any.
func recordSafely(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprint(e)
			if msg != libraryPanic || !strings.Contains(string(debug.Stack()), "go-expohisto/structure") {
				msg += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return ""
}

// libraryFails tells whether the data structure by itself fails for these.
func libraryFails(size int32, vals []float64) bool {
	return recordSafely(func() {
		h := structure.NewFloat64(structure.NewConfig(structure.WithMaxSize(size)))
		for _, v := range vals {
			h.Update(v)
		}
	}) == libraryPanic
}

func edgeValue(r *rand.Rand, width int) float64 {
	v := math.Ldexp(1, r.IntN(2*width+1)-width)
	if r.IntN(3) == 0 {
		v *= 1 + r.Float64()
	}
	to := []float64{0, math.Inf(1)}[r.IntN(2)]
	for n := r.IntN(4); n > 0; n-- {
		v = math.Nextafter(v, to)
	}
	return v
}

// edgeValues records values in and around the bounds of buckets, from a
// range of up to two thousand powers of two.
func edgeValues(c *hz.Case) {
	r := c.R
	size := []int32{160, 160, 2, 3, 4, 20, 24, 200, 320, 1000, 16384}[r.IntN(11)]
	width := []int{3, 20, 60, 300, 1000}[r.IntN(5)]
	tempo := []aggregation.Temporality{aggregation.CumulativeTemporality, aggregation.DeltaTemporality}[r.IntN(2)]
	vo := []view.Option{view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return tempo })}
	if size != 160 {
		cfg := aggregator.Config{Histogram: structure.NewConfig(structure.WithMaxSize(size))}
		vo = append(vo, view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) { return cfg, cfg }))
	}
	rd := lmetric.NewManualReader("edge")
	prov := lmetric.NewMeterProvider(lmetric.WithReader(rd, vo...))
	in, err := create(prov.Meter(concScope), sdkinstrument.SyncHistogram, number.Float64Kind, "inst0", "", "")
	if err != nil {
		c.Violate(nil, "creation failed: %v", err)
		return
	}
	var all, now []float64
	for round, rounds := 0, 1+r.IntN(4); round < rounds; round++ {
		now = nil
		for i, n := 0, r.IntN(8); i < n; i++ {
			v := edgeValue(r, width)
			now = append(now, v)
			msg := recordSafely(func() { in.record(context.Background(), fnum(v), path(r.IntN(2)), nil) })
			if msg == libraryPanic && libraryFails(size, now) {
				c.Count("measurements the histogram library cannot take by itself", 1)
				return
			}
			if msg != "" {
				c.Violate(map[string]any{"values": fmt.Sprint(now), "size": size}, "recording %x panics: %s", v, msg)
				return
			}
		}
		all = append(all, now...)
		want := all
		if tempo == aggregation.DeltaTemporality {
			want = now
		}
		s := produce(rd, nil)
		pts := s.pointsOf("inst0")
		if len(want) == 0 {
			if len(pts) != 0 {
				c.Violate(nil, "%d points without a measurement", len(pts))
			}
			continue
		}
		if len(pts) != 1 {
			c.Violate(nil, "%d points of one attribute set", len(pts))
			return
		}
		for _, m := range checkEdge(&pts[0], want, size) {
			c.Violate(map[string]any{"values": fmt.Sprintf("%x", want), "size": size, "round": round, "tempo": tempo.String()}, "values at bucket bounds, maximum size %d: %s", size, m)
			return
		}
		c.Eval(len(want))
		c.Distinct(size, width, tempo, pts[0].scale, len(pts[0].pos), len(pts[0].neg))
	}
}

// checkEdge compares a point with the values it summarizes. The library puts
// a value within a rounding error of a bound on either side of it.
func checkEdge(p *spoint, want []float64, size int32) (bad []string) {
	f := func(s string, a ...any) { bad = append(bad, fmt.Sprintf(s, a...)) }
	if p.count != uint64(len(want)) || p.zero != 0 {
		f("count %d zeros %d, recorded %d, no zeros", p.count, p.zero, len(want))
	}
	sum, abs := new(big.Float).SetPrec(2400), new(big.Float).SetPrec(2400)
	mn, mx := math.Inf(1), math.Inf(-1)
	for _, v := range want {
		sum.Add(sum, big.NewFloat(v))
		abs.Add(abs, big.NewFloat(math.Abs(v)))
		mn, mx = math.Min(mn, v), math.Max(mx, v)
	}
	d := new(big.Float).SetPrec(2400).Sub(sum, big.NewFloat(p.val.float()))
	if d.Abs(d).Cmp(new(big.Float).Mul(abs, big.NewFloat(1e-13))) > 0 {
		f("sum %v, recorded %v", p.val, sum)
	}
	if p.min.float() != mn || p.max.float() != mx {
		f("min/max %v/%v, recorded %v/%v", p.min, p.max, mn, mx)
	}
	if p.plen > uint32(size) || p.nlen > uint32(size) {
		f("%d/%d buckets", p.plen, p.nlen)
	}
	mp, err := mapperFor(p.scale)
	if err != nil {
		f("scale %d: %v", p.scale, err)
		return
	}
	const eps = 1e-11
	for sign, got := range []map[int32]uint64{p.pos, p.neg} {
		var vs []float64
		for _, v := range want {
			if v < 0 == (sign == 1) {
				vs = append(vs, math.Abs(v))
			}
		}
		sort.Float64s(vs)
		var at []int32
		for i, n := range got {
			for ; n > 0 && len(at) <= len(want); n-- {
				at = append(at, i)
			}
		}
		sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
		if len(at) != len(vs) {
			f("%d values in buckets, recorded %d (sign %d)", len(at), len(vs), sign)
			continue
		}
		for i, v := range vs {
			if lo, hi := mp.MapToIndex(v*(1-eps)), mp.MapToIndex(v*(1+eps)); at[i] < lo || at[i] > hi {
				f("%x is in bucket %d at scale %d, belongs in %d", v, at[i], p.scale, mp.MapToIndex(v))
				break
			}
		}
	}
	// The finest scale that certainly fits is to be used.
	if p.scale < 20 {
		finer, err := mapperFor(p.scale + 1)
		if err != nil {
			return
		}
		fits := true
		for sign := 0; sign < 2; sign++ {
			lo, hi := math.Inf(1), 0.
			for _, v := range want {
				if v < 0 == (sign == 1) {
					lo, hi = math.Min(lo, math.Abs(v)), math.Max(hi, math.Abs(v))
				}
			}
			if hi > 0 && int64(finer.MapToIndex(hi*(1+eps)))-int64(finer.MapToIndex(lo*(1-eps))) >= int64(size) {
				fits = false
			}
		}
		if fits {
			f("scale %d is coarser than needed for %d buckets", p.scale, size)
		}
	}
	return
}

// edgeKnown is the one pair of values known to fail with default settings.
func edgeKnown(c *hz.Case) {
	rd := lmetric.NewManualReader("edge")
	prov := lmetric.NewMeterProvider(lmetric.WithReader(rd))
	in, err := create(prov.Meter(concScope), sdkinstrument.SyncHistogram, number.Float64Kind, "inst0", "", "")
	if err != nil {
		c.Violate(nil, "creation failed: %v", err)
		return
	}
	for _, v := range []float64{math.Nextafter(math.Ldexp(1, -1000+159), 0), math.Nextafter(math.Ldexp(1, -1000), 0)} {
		msg := recordSafely(func() { in.record(context.Background(), fnum(v), 0, nil) })
		if msg == libraryPanic {
			c.Violate(nil, "recording a value next to a power of two panics in go-expohisto: %s", msg)
		} else if msg != "" {
			c.Violate(nil, "recording %x panics: %s", v, msg)
		}
	}
	c.Eval(2)
}
