package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

// timesConc lets several goroutines collect the same readers and checks that
// the reported time intervals of each reader tile time.
func timesConc(c *hz.Case) {
	r := c.R
	nr := 1 + r.IntN(2)
	var rds []*lmetric.ManualReader
	var tempos [][]aggregation.Temporality
	var opts []lmetric.Option
	for i := 0; i < nr; i++ {
		rd := lmetric.NewManualReader(readerName(c, i))
		rds = append(rds, rd)
		t := genTempo(r)
		var ts []aggregation.Temporality
		for k := range t {
			ts = append(ts, t[k])
		}
		tempos = append(tempos, ts)
		opts = append(opts, lmetric.WithReader(rd, view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality { return t[k] })))
	}
	lo := time.Now()
	p := lmetric.NewMeterProvider(opts...)
	hi := time.Now()
	m := p.Meter("m")
	var ins []*inst
	for i, k := range allKinds {
		nk := []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
		in, _ := create(m, k, nk, fmt.Sprint("i", i), "", "")
		ins = append(ins, in)
	}
	var ctr atomic.Int64
	var obs []metric.Observable
	for _, in := range ins {
		if !in.kind.Synchronous() {
			obs = append(obs, in.observable())
		}
	}
	_, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		for _, in := range ins {
			if !in.kind.Synchronous() {
				in.observe(o, toNum(in.nk, ctr.Add(1)), nil)
			}
		}
		return nil
	}, obs...)
	if err != nil {
		c.Violate(nil, "RegisterCallback: %v", err)
		return
	}
	type iv struct{ start, end time.Time }
	var mu sync.Mutex
	delta := make([]map[int64]iv, nr)
	for i := range delta {
		delta[i] = map[int64]iv{}
	}
	cumStart := map[int64]int{}
	var wg, cg sync.WaitGroup
	var stop atomic.Bool
	for i := 0; i < 2; i++ {
		seed := r.Uint64()
		c.Go(&wg, func() {
			rr := rand.New(rand.NewPCG(seed, 3))
			for !stop.Load() {
				in := ins[rr.IntN(len(ins))]
				if in.kind.Synchronous() {
					in.record(context.Background(), toNum(in.nk, int64(1+rr.IntN(9))), viaOptions, []attribute.KeyValue{attribute.Int("a", rr.IntN(3))})
				}
				c.Tick()
				runtime.Gosched()
			}
		})
	}
	for ri, rd := range rds {
		for g, n := 0, 1+r.IntN(3); g < n; g++ {
			var mem *data.Metrics
			if r.IntN(2) == 0 {
				mem = &data.Metrics{}
			}
			c.Go(&cg, func() {
				for k := 0; k < 15 && !c.Failed(); k++ {
					s := produce(rd, mem)
					var first *spoint
					for i := range s.scopes {
						for j := range s.scopes[i].insts {
							in := &s.scopes[i].insts[j]
							want := tempos[ri][in.desc.Kind]
							if in.desc.Kind == sdkinstrument.AsyncGauge {
								want = aggregation.CumulativeTemporality
							}
							for q := range in.points {
								pt := &in.points[q]
								c.Eval(1)
								if pt.tempo != want {
									c.Violate(nil, "reader %d: %v point has temporality %v, configured %v", ri, in.desc.Kind, pt.tempo, want)
								}
								if first == nil {
									first = pt
								}
								if !pt.end.Equal(first.end) {
									c.Violate(nil, "reader %d: points of one collection end at different times", ri)
								}
								if pt.end.Before(s.before) || pt.end.After(s.after) {
									c.Violate(nil, "reader %d: point ends outside the collection that reported it", ri)
								}
								if pt.end.Before(pt.start) {
									c.Violate(nil, "reader %d: point ends before it starts", ri)
								}
								mu.Lock()
								if want == aggregation.CumulativeTemporality {
									cumStart[pt.start.UnixNano()]++
									if pt.start.Before(lo) || pt.start.After(hi) {
										c.Violate(nil, "reader %d: cumulative %v point starts %v after the provider", ri, in.desc.Kind, pt.start.Sub(hi))
									}
								} else if in.desc.Kind != sdkinstrument.AsyncGauge {
									x := iv{pt.start, pt.end}
									if o, ok := delta[ri][pt.end.UnixNano()]; ok && !o.start.Equal(x.start) {
										c.Violate(nil, "reader %d: two delta points with the same end start at different times", ri)
									}
									delta[ri][pt.end.UnixNano()] = x
								}
								mu.Unlock()
							}
						}
					}
					c.Tick()
					runtime.Gosched()
				}
			})
		}
	}
	cg.Wait()
	stop.Store(true)
	wg.Wait()
	if len(cumStart) > 1 {
		c.Violate(nil, "cumulative points use %d different start times", len(cumStart))
	}
	for ri := range rds {
		var ivs []iv
		for _, x := range delta[ri] {
			ivs = append(ivs, x)
		}
		sort.Slice(ivs, func(i, j int) bool { return ivs[i].end.Before(ivs[j].end) })
		asyncDelta := tempos[ri][sdkinstrument.AsyncCounter] == aggregation.DeltaTemporality || tempos[ri][sdkinstrument.AsyncUpDownCounter] == aggregation.DeltaTemporality
		for i := range ivs {
			c.Eval(1)
			if i == 0 {
				if asyncDelta && (ivs[0].start.Before(lo) || ivs[0].start.After(hi)) {
					c.Violate(nil, "reader %d: the first delta interval does not start with the provider", ri)
				}
				continue
			}
			if ivs[i].start.Before(ivs[i-1].end) {
				c.Violate(nil, "reader %d: delta intervals overlap by %v", ri, ivs[i-1].end.Sub(ivs[i].start))
			}
			if asyncDelta && !ivs[i].start.Equal(ivs[i-1].end) {
				c.Violate(nil, "reader %d: gap of %v between consecutive delta intervals", ri, ivs[i].start.Sub(ivs[i-1].end))
			}
		}
		c.Distinct(fmt.Sprint(tempos[ri]), len(ivs), nr)
		c.Count("delta intervals", int64(len(ivs)))
	}
}

// independence compares a reader alone with the same reader in company.
func independence(c *hz.Case) {
	r := c.R
	pr := profile{kinds: allKinds, maxClauses: 2, simple: true, aggDefault: true}
	spec := readerSpec{tempo: genTempo(r)}
	for j, n := 0, r.IntN(3); j < n; j++ {
		cl := genClause(r, j, &pr)
		cl.keys = nil
		spec.clauses = append(spec.clauses, cl)
	}
	var others []readerSpec
	for i, n := 0, 1+r.IntN(3); i < n; i++ {
		o := readerSpec{tempo: genTempo(r)}
		for j, n := 0, r.IntN(4); j < n; j++ {
			o.clauses = append(o.clauses, genClause(r, j, &pr))
		}
		others = append(others, o)
	}
	perf := sdkinstrument.Performance{InactiveCollectionPeriods: uint32(1 + r.IntN(3))}
	var kinds []sdkinstrument.Kind
	var nks []number.Kind
	for i, n := 0, 1+r.IntN(5); i < n; i++ {
		kinds = append(kinds, allKinds[r.IntN(len(allKinds))])
		nks = append(nks, []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)])
	}
	type ob struct {
		inst int
		v    num
		kvs  []attribute.KeyValue
	}
	var plan []ob
	type side struct {
		rd  *lmetric.ManualReader
		ext []*lmetric.ManualReader
		in  []*inst
	}
	build := func(company bool) *side {
		s := &side{rd: lmetric.NewManualReader("main")}
		opts := []lmetric.Option{lmetric.WithPerformance(perf)}
		mainAt := 0
		if company {
			mainAt = int(c.Seed % uint64(len(others)+1))
		}
		for i := 0; i <= len(others); i++ {
			if i == mainAt {
				opts = append(opts, lmetric.WithReader(s.rd, spec.options()...))
			}
			if company && i < len(others) {
				x := lmetric.NewManualReader(fmt.Sprint("x", i))
				s.ext = append(s.ext, x)
				opts = append(opts, lmetric.WithReader(x, others[i].options()...))
			}
			if !company {
				break
			}
		}
		p := lmetric.NewMeterProvider(opts...)
		for i, k := range kinds {
			m := p.Meter(fmt.Sprint("m", i%2))
			in, _ := create(m, k, nks[i], instNames[i%len(instNames)]+fmt.Sprint(i), "", "")
			s.in = append(s.in, in)
			if !k.Synchronous() {
				_, _ = m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
					for _, x := range plan {
						if x.inst == i {
							in.observe(o, x.v, x.kvs)
						}
					}
					return nil
				}, in.observable())
			}
		}
		return s
	}
	alone, company := build(false), build(true)
	mkPlan := func() {
		plan = nil
		for i, k := range kinds {
			if !k.Synchronous() {
				for j, m := 0, r.IntN(5); j < m; j++ {
					plan = append(plan, ob{i, genNum(r, k, nks[i], false), []attribute.KeyValue{attribute.Int("a", r.IntN(3))}})
				}
			}
		}
	}
	var hist []string
	for op, n := 0, 20+r.IntN(80); op < n; op++ {
		switch r.IntN(6) {
		case 0:
			mkPlan()
			a, b := produce(alone.rd, nil), produce(company.rd, nil)
			ca, cb := canonSnap(a, false), canonSnap(b, false)
			c.Eval(1)
			c.Distinct(ca)
			if ca != cb {
				c.Violate(map[string]any{"alone": ca, "in company": cb, "history": hist}, "a reader's output depends on other readers")
				return
			}
			hist = append(hist, "collect")
		case 1, 2:
			mkPlan()
			x := r.IntN(len(company.ext))
			produce(company.ext[x], nil)
			hist = append(hist, fmt.Sprint("collect other ", x))
		default:
			i := r.IntN(len(kinds))
			if !kinds[i].Synchronous() {
				continue
			}
			v := genNum(r, kinds[i], nks[i], false)
			if v.isZero() {
				continue // merging all-zero histograms is lossy in scale only
			}
			kvs := []attribute.KeyValue{attribute.Int("a", r.IntN(3))}
			alone.in[i].record(context.Background(), v, viaOptions, kvs)
			company.in[i].record(context.Background(), v, viaOptions, kvs)
			hist = append(hist, fmt.Sprintf("record %d %v %s", i, v, canonListRaw(kvs)))
		}
	}
}

// flushContext: the exporter sees the context given to ForceFlush and
// Shutdown, including its cancellation.
func flushContext(c *hz.Case) {
	var clock atomic.Int64
	e := &recExporter{name: "ctx", clock: &clock, metric: "ctr"}
	p := lmetric.NewMeterProvider(lmetric.WithReader(lmetric.NewPeriodicReader(e, time.Hour)))
	ctr, _ := p.Meter("m").Int64Counter("ctr")
	ctr.Add(context.Background(), 3)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), lifeKey{}, "mine"))
	kind := c.R.IntN(2)
	if c.R.IntN(2) == 0 {
		cancel()
	}
	defer cancel()
	want := ctx.Err()
	what := "flush"
	if kind == 0 {
		_ = p.ForceFlush(ctx)
	} else {
		what = "shutdown"
		_ = p.Shutdown(ctx)
	}
	evs := e.log()
	c.Eval(1)
	c.Distinct(kind, want)
	if len(evs) != 1 || evs[0].method != what || evs[0].value != "mine" || evs[0].ctxErr != want || evs[0].sum != 3 {
		c.Violate(nil, "expected one %s with the caller's context (err %v), got %s", what, want, fmtEvents(evs))
	}
	if kind == 0 {
		_ = p.Shutdown(context.Background())
	}
}
