package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

func goid() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i > 0 {
		n, _ := strconv.ParseInt(string(b[:i]), 10, 64)
		return n
	}
	return -1
}

// asyncConc: several readers collect concurrently; callbacks make different
// observations in every collection.  What a collection observed is logged per
// collecting goroutine, and each collection's output must be exactly what the
// reference model of that reader alone derives from its own observations.
func asyncConc(c *hz.Case, clauses int) {
	r := c.R
	p := &profile{kinds: asyncKinds, maxClauses: clauses}
	nr := 2 + r.IntN(3)
	var readers []*lmetric.ManualReader
	var models []*model
	opts := []lmetric.Option{}
	for i := 0; i < nr; i++ {
		rs := readerSpec{tempo: genTempo(r)}
		if clauses > 0 {
			for j, n := 0, r.IntN(clauses+1); j < n; j++ {
				rs.clauses = append(rs.clauses, genClause(r, j, p))
			}
		}
		m := newModel([]readerSpec{rs})
		models = append(models, m)
		rd := lmetric.NewManualReader(readerName(c, i))
		readers = append(readers, rd)
		opts = append(opts, lmetric.WithReader(rd, m.readers[0].options()...))
	}
	lo := timeNow()
	prov := lmetric.NewMeterProvider(opts...)
	hi := timeNow()
	lib := instrumentation.Scope{Name: "lib1"}
	meter := prov.Meter(lib.Name)
	var insts []*inst
	minsts := make([][]*minst, nr)
	for ri := range models {
		models[ri].provLo, models[ri].provHi = lo, hi
	}
	ni := 1 + r.IntN(4)
	for i := 0; i < ni; i++ {
		kind := asyncKinds[r.IntN(3)]
		nk := []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
		name := instNames[i]
		in, _ := create(meter, kind, nk, name, "", "")
		insts = append(insts, in)
		for ri, m := range models {
			mi, _ := m.instrument(m.scope(lib), sdkinstrument.NewDescriptor(name, kind, nk, "", ""))
			minsts[ri] = append(minsts[ri], mi)
		}
	}
	type plog struct {
		rnd  *rand.Rand
		ri   int
		obs  []observation
		runs int
	}
	var logs sync.Map // goroutine id -> *plog
	ncb := 1 + r.IntN(3)
	for i := 0; i < ncb; i++ {
		var obsv []metric.Observable
		var mine []int
		for j, in := range insts {
			if j == i%ni || r.IntN(2) == 0 {
				mine = append(mine, j)
				obsv = append(obsv, in.observable())
			}
		}
		_, err := meter.RegisterCallback(func(_ context.Context, o metric.Observer) error {
			x, ok := logs.Load(goid())
			if !ok {
				c.Violate(nil, "callback runs on a goroutine that is not collecting")
				return nil
			}
			lg := x.(*plog)
			lg.runs++
			for k, n := 0, lg.rnd.IntN(6); k < n; k++ {
				j := mine[lg.rnd.IntN(len(mine))]
				in := insts[j]
				v := genNum(lg.rnd, in.kind, in.nk, false)
				kvs := genAttrs(lg.rnd, attrOpts{max: 3})
				in.observe(o, v, kvs)
				lg.obs = append(lg.obs, observation{minsts[lg.ri][j], v, kvs})
			}
			return nil
		}, obsv...)
		if err != nil {
			c.Violate(nil, "RegisterCallback: %v", err)
		}
	}
	var wg sync.WaitGroup
	ncoll := 10 + r.IntN(30)
	for ri := range readers {
		rnd := rand.New(rand.NewPCG(c.Seed, uint64(ri)+9))
		c.Go(&wg, func() {
			lg := &plog{rnd: rnd, ri: ri}
			id := goid()
			logs.Store(id, lg)
			defer logs.Delete(id)
			var mem *data.Metrics
			if rnd.IntN(2) == 0 {
				mem = &data.Metrics{}
			}
			for k := 0; k < ncoll && !c.Failed(); k++ {
				lg.obs, lg.runs = nil, 0
				s := produce(readers[ri], mem)
				if lg.runs != ncb {
					c.Violate(nil, "reader %d collection %d ran %d callbacks, %d are registered", ri, k, lg.runs, ncb)
				}
				exp := models[ri].collect(0, lg.obs)
				for _, mm := range models[ri].compare(0, s, exp) {
					c.Violate(map[string]any{"aspect": mm.aspect}, "reader %d collection %d (concurrent with other readers): %s", ri, k, mm.msg)
				}
				n := 0
				for _, sc := range s.scopes {
					for _, in := range sc.insts {
						n += len(in.points)
						for _, pt := range in.points {
							c.Distinct(in.desc.Kind, pt.attrs, pt.val, pt.tempo)
						}
					}
				}
				c.Eval(1 + n)
				c.Count("async_points_compared", int64(n))
			}
		})
	}
	wg.Wait()
}

// asyncShared: several goroutines collect the same reader at once.
func asyncShared(c *hz.Case) {
	r := c.R
	tempo := []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}[r.IntN(2)]
	kind := []sdkinstrument.Kind{sdkinstrument.AsyncCounter, sdkinstrument.AsyncUpDownCounter}[r.IntN(2)]
	nk := []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
	rs := readerSpec{}
	for k := range rs.tempo {
		rs.tempo[k] = tempo
	}
	rd := lmetric.NewManualReader("shared")
	prov := lmetric.NewMeterProvider(lmetric.WithReader(rd, rs.options()...))
	in, _ := create(prov.Meter(concScope), kind, nk, "inst0", "", "")
	var next atomic.Int64
	var seen sync.Map
	_, _ = prov.Meter(concScope).RegisterCallback(func(_ context.Context, o metric.Observer) error {
		v := next.Add(3)
		in.observe(o, toNum(nk, v), []attribute.KeyValue{attribute.Int("a", 1)})
		seen.Store(goid(), v)
		return nil
	}, in.observable())
	var wg sync.WaitGroup
	var tot atomic.Int64
	g := 2 + r.IntN(3)
	n := 5 + r.IntN(20)
	for i := 0; i < g; i++ {
		c.Go(&wg, func() {
			for k := 0; k < n && !c.Failed(); k++ {
				s := produce(rd, nil)
				mine, _ := seen.Load(goid())
				pts, _ := s.find(concScope, "inst0")
				c.Eval(1)
				c.Count("overlapping_collections", 1)
				for _, p := range pts {
					v, _ := fromNum(p.val)
					tot.Add(v)
					if tempo == aggregation.CumulativeTemporality && v != mine.(int64) {
						c.Violate(nil, "overlapping collections of one reader: this collection observed %v but reported %v", mine, v)
					}
				}
				if tempo == aggregation.CumulativeTemporality && len(pts) != 1 {
					c.Violate(nil, "overlapping collections of one reader: %d points for one observation", len(pts))
				}
			}
		})
	}
	wg.Wait()
	if tempo == aggregation.DeltaTemporality && !c.Failed() {
		s := produce(rd, nil)
		pts, _ := s.find(concScope, "inst0")
		for _, p := range pts {
			v, _ := fromNum(p.val)
			tot.Add(v)
		}
		c.Eval(1)
		if tot.Load() != next.Load() {
			c.Violate(nil, "overlapping delta collections of one reader add up to %d, the observed total is %d", tot.Load(), next.Load())
		}
	}
}

// callbackConc: callbacks are registered and unregistered while readers
// collect.  A callback registered throughout a collection runs exactly once in
// it; one not yet registered, or already unregistered when the collection
// starts, does not run.
func callbackConc(c *hz.Case) {
	r := c.R
	nr := 1 + r.IntN(3)
	var readers []*lmetric.ManualReader
	var opts []lmetric.Option
	for i := 0; i < nr; i++ {
		rd := lmetric.NewManualReader(readerName(c, i))
		readers = append(readers, rd)
		opts = append(opts, lmetric.WithReader(rd))
	}
	prov := lmetric.NewMeterProvider(opts...)
	meter := prov.Meter(concScope)
	in, _ := create(meter, sdkinstrument.AsyncGauge, number.Int64Kind, "inst0", "", "")
	var clock atomic.Int64
	type crec struct {
		id                 int64
		regB, regE         int64
		unregB, unregE     int64
		registered, undone bool
	}
	type run struct {
		cb, ce int64
		ri     int
		ids    map[int64]int
		pts    map[int64]bool
	}
	var cur sync.Map // goroutine -> *run
	var ids atomic.Int64
	nw := 1 + r.IntN(3)
	recs := make([][]*crec, nw)
	var wg, cg sync.WaitGroup
	var stop atomic.Bool
	for i := 0; i < nw; i++ {
		rnd := rand.New(rand.NewPCG(c.Seed, uint64(i)+5))
		ops := 20 + rnd.IntN(60)
		c.Go(&wg, func() {
			var live []*crec
			regs := map[*crec]metric.Registration{}
			for k := 0; k < ops; k++ {
				if len(live) == 0 || (rnd.IntN(2) == 0 && len(live) < 6) {
					rec := &crec{id: ids.Add(1), unregB: 1 << 62, unregE: 1 << 62}
					recs[i] = append(recs[i], rec)
					rec.regB = clock.Add(1)
					reg, err := meter.RegisterCallback(func(_ context.Context, o metric.Observer) error {
						if x, ok := cur.Load(goid()); ok {
							x.(*run).ids[rec.id]++
						} else {
							c.Violate(nil, "callback ran outside a collection")
						}
						in.observe(o, inum(rec.id), []attribute.KeyValue{attribute.Int64("cb", rec.id)})
						return nil
					}, in.observable())
					rec.regE = clock.Add(1)
					if err != nil {
						c.Violate(nil, "RegisterCallback: %v", err)
						return
					}
					live = append(live, rec)
					regs[rec] = reg
				} else {
					j := rnd.IntN(len(live))
					rec := live[j]
					live = append(live[:j], live[j+1:]...)
					b := clock.Add(1)
					if err := regs[rec].Unregister(); err != nil {
						c.Violate(nil, "first Unregister of a callback failed: %v", err)
					}
					rec.unregE = clock.Add(1)
					rec.unregB = b
					if rnd.IntN(4) == 0 {
						if err := regs[rec].Unregister(); err == nil {
							c.Violate(nil, "second Unregister of a callback succeeded")
						}
					}
				}
				c.Tick()
			}
		})
	}
	runs := make([][]*run, nr)
	for ri := range readers {
		c.Go(&cg, func() {
			id := goid()
			for k := 0; (!stop.Load() || k < 3) && k < 400 && !c.Failed(); k++ {
				rn := &run{ri: ri, ids: map[int64]int{}, pts: map[int64]bool{}}
				cur.Store(id, rn)
				rn.cb = clock.Add(1)
				s := produce(readers[ri], nil)
				rn.ce = clock.Add(1)
				pts, _ := s.find(concScope, "inst0")
				for _, p := range pts {
					rn.pts[p.val.i] = true
				}
				runs[ri] = append(runs[ri], rn)
				c.Tick()
			}
		})
	}
	wg.Wait()
	stop.Store(true)
	cg.Wait()
	for _, rr := range runs {
		for k, rn := range rr {
			seen := map[int64]bool{}
			for _, rs := range recs {
				for _, rec := range rs {
					n := rn.ids[rec.id]
					seen[rec.id] = true
					c.Eval(1)
					switch {
					case n > 1:
						c.Violate(nil, "callback %d ran %d times in collection %d of reader %d", rec.id, n, k, rn.ri)
					case rec.regE < rn.cb && rec.unregB > rn.ce && n != 1:
						c.Violate(nil, "callback %d, registered throughout collection %d of reader %d, did not run", rec.id, k, rn.ri)
					case rec.regB > rn.ce && n != 0:
						c.Violate(nil, "callback %d ran before it was registered", rec.id)
					case rec.unregE < rn.cb && n != 0:
						c.Violate(nil, "callback %d ran in a collection that started after it was unregistered", rec.id)
					}
					if (n > 0) != rn.pts[rec.id] {
						c.Violate(nil, "callback %d ran %d times in collection %d but its observation reported=%v", rec.id, n, k, rn.pts[rec.id])
					}
				}
			}
			c.Distinct(len(rn.ids), rn.cb, rn.ce)
		}
		c.Count("collections", int64(len(rr)))
	}
	c.Count("callbacks", ids.Load())
}

// staleObserver: an observer is good only during the callback it was given to.
// Callbacks leak their observers (some then fail); what is observed through
// a leaked observer, by other callbacks of the collection, by other goroutines
// or later, never appears.
func staleObserver(c *hz.Case) {
	r := c.R
	nr := 1 + r.IntN(2)
	var readers []*lmetric.ManualReader
	var opts []lmetric.Option
	for i := 0; i < nr; i++ {
		rs := readerSpec{tempo: genTempo(r)}
		rd := lmetric.NewManualReader(readerName(c, i))
		readers = append(readers, rd)
		opts = append(opts, lmetric.WithReader(rd, rs.options()...))
	}
	prov := lmetric.NewMeterProvider(opts...)
	meter := prov.Meter(concScope)
	var insts []*inst
	for i, n := 0, 1+r.IntN(2); i < n; i++ {
		in, _ := create(meter, asyncKinds[r.IntN(3)], []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)], instNames[i], "", "")
		insts = append(insts, in)
	}
	var mu sync.Mutex
	pending := map[int64]metric.Observer{} // by goroutine: its callback may still be running
	var leaked []metric.Observer
	returned := func() {
		mu.Lock()
		defer mu.Unlock()
		if o := pending[goid()]; o != nil {
			leaked = append(leaked, o)
			delete(pending, goid())
		}
	}
	var late, good atomic.Int64
	lateObs := func(rnd *rand.Rand) {
		mu.Lock()
		var o metric.Observer
		if n := len(leaked); n > 0 {
			o = leaked[n-1-rnd.IntN(min(n, 4))]
		}
		mu.Unlock()
		if o == nil {
			return
		}
		in := insts[rnd.IntN(len(insts))]
		in.observe(o, toNum(in.nk, 40+int64(rnd.IntN(3))*4), []attribute.KeyValue{attribute.Int("late", 1)})
		late.Add(1)
	}
	var obs []metric.Observable
	for _, in := range insts {
		obs = append(obs, in.observable())
	}
	for i, n := 0, 2+r.IntN(3); i < n; i++ {
		var cn atomic.Int64
		leaky := i == 0 || r.IntN(2) == 0
		fail := r.IntN(2) == 0
		_, err := meter.RegisterCallback(func(_ context.Context, o metric.Observer) error {
			returned() // the callback that ran before this one
			k := cn.Add(1)
			rnd := rand.New(rand.NewPCG(c.Seed, uint64(k)<<8+uint64(i)))
			if rnd.IntN(3) > 0 {
				lateObs(rnd)
			}
			in := insts[rnd.IntN(len(insts))]
			in.observe(o, toNum(in.nk, 4+4*k), []attribute.KeyValue{attribute.Int("cb", i)})
			good.Add(1)
			if leaky {
				mu.Lock()
				pending[goid()] = o
				mu.Unlock()
			}
			if fail && rnd.IntN(2) == 0 {
				return fmt.Errorf("callback %d fails", i)
			}
			return nil
		}, obs...)
		if err != nil {
			c.Violate(nil, "RegisterCallback: %v", err)
		}
	}
	var wg, lg sync.WaitGroup
	var stop atomic.Bool
	for ri := range readers {
		rnd := rand.New(rand.NewPCG(c.Seed, uint64(ri)+31))
		n := 5 + rnd.IntN(20)
		c.Go(&wg, func() {
			for k := 0; k < n && !c.Failed(); k++ {
				s := produce(readers[ri], nil)
				returned()
				if rnd.IntN(2) == 0 {
					lateObs(rnd)
				}
				pts := 0
				for _, sc := range s.scopes {
					for _, in := range sc.insts {
						for _, p := range in.points {
							pts++
							c.Eval(1)
							if bytes.Contains([]byte(p.attrs), []byte("late")) {
								c.Violate(nil, "reader %d collection %d reports {%s} = %v, observed through an observer whose callback had returned", ri, k, p.attrs, p.val)
							}
							c.Distinct(ri, in.desc.Kind, p.attrs, p.val)
						}
					}
				}
				c.Count("points", int64(pts))
				c.Tick()
			}
		})
	}
	for i := 0; i < r.IntN(3); i++ {
		rnd := rand.New(rand.NewPCG(c.Seed, uint64(i)+57))
		c.Go(&lg, func() {
			for n := 0; !stop.Load() && n < 5000; n++ {
				lateObs(rnd)
				runtime.Gosched()
			}
		})
	}
	wg.Wait()
	stop.Store(true)
	lg.Wait()
	c.Count("late_observations", late.Load())
	c.Count("callback_observations", good.Load())
}

// gapSeries: a set that a delta reader has seen before is observed, absent
// from some collections, and observed again.
func gapSeries(c *hz.Case) {
	r := c.R
	kind := []sdkinstrument.Kind{sdkinstrument.AsyncCounter, sdkinstrument.AsyncUpDownCounter}[r.IntN(2)]
	nk := []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
	rs := readerSpec{}
	for k := range rs.tempo {
		rs.tempo[k] = aggregation.DeltaTemporality
	}
	rd := lmetric.NewManualReader("gap")
	prov := lmetric.NewMeterProvider(lmetric.WithReader(rd, rs.options()...))
	in, _ := create(prov.Meter(concScope), kind, nk, "inst0", "", "")
	var v int64
	var observe bool
	_, _ = prov.Meter(concScope).RegisterCallback(func(_ context.Context, o metric.Observer) error {
		if observe {
			in.observe(o, toNum(nk, v), nil)
		}
		return nil
	}, in.observable())
	get := func() (int64, bool) {
		pts, _ := produce(rd, nil).find(concScope, "inst0")
		c.Eval(1)
		if len(pts) == 0 {
			return 0, false
		}
		n, _ := fromNum(pts[0].val)
		return n, true
	}
	v, observe = 1+r.Int64N(100), true
	first := v
	if n, ok := get(); !ok || n != v {
		c.Violate(nil, "first delta of an observation of %d is %d (%v)", v, n, ok)
	}
	observe = false
	for range 1 + r.IntN(3) {
		if n, ok := get(); ok {
			c.Violate(nil, "a set that is not observed is reported with %d", n)
		}
	}
	v, observe = v+1+r.Int64N(100), true
	n, ok := get()
	switch {
	case ok && n == v-first:
	case ok && n == v:
		c.Violate(nil, "delta after a gap counts again what was reported before it: observed %d, nothing for a while, then %d: the second delta is %d", first, v, n)
	default:
		c.Violate(nil, "observed %d, nothing for a while, then %d: the second delta is %d (present=%v)", first, v, n, ok)
	}
	last := v
	v += 1 + r.Int64N(100)
	if n, ok := get(); !ok || n != v-last {
		c.Violate(nil, "observed %d, then %d: the delta is %d (present=%v)", last, v, n, ok)
	}
	c.Distinct(kind, nk, first, v)
}

// asyncFan: a callback observes from several goroutines, which end before it
// returns.
func asyncFan(c *hz.Case) {
	r := c.R
	tempo := []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}[r.IntN(2)]
	rs := readerSpec{}
	for k := range rs.tempo {
		rs.tempo[k] = tempo
	}
	var rds []*lmetric.ManualReader
	var po []lmetric.Option
	for i, n := 0, 1+r.IntN(2); i < n; i++ {
		rds = append(rds, lmetric.NewManualReader(fmt.Sprint("fan", i)))
		po = append(po, lmetric.WithReader(rds[i], rs.options()...))
	}
	meter := lmetric.NewMeterProvider(po...).Meter(concScope)
	var ins []*inst
	var obs []metric.Observable
	for i, n := 0, 1+r.IntN(3); i < n; i++ {
		in, err := create(meter, asyncKinds[r.IntN(len(asyncKinds))], []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)], fmt.Sprint("inst", i), "", "")
		if err != nil {
			c.Violate(nil, "create: %v", err)
			return
		}
		ins = append(ins, in)
		obs = append(obs, in.observable())
	}
	g, per := 2+r.IntN(4), 1+r.IntN(6)
	round := atomic.Int64{}
	if _, err := meter.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		var wg sync.WaitGroup
		v := round.Load()
		for j := 0; j < g; j++ {
			c.Go(&wg, func() {
				for k := 0; k < per; k++ {
					for i, in := range ins {
						in.observe(o, toNum(in.nk, v*int64(1+j)), []attribute.KeyValue{attribute.Int("g", j), attribute.Int("k", k)})
						if (i+k)%2 == 0 {
							in.observe(o, toNum(in.nk, v), []attribute.KeyValue{attribute.Bool("same", true)})
						}
					}
				}
			})
		}
		wg.Wait()
		return nil
	}, obs...); err != nil {
		c.Violate(nil, "RegisterCallback: %v", err)
	}
	for n := int64(1); n <= 4 && !c.Failed(); n++ {
		round.Store(n)
		var wg sync.WaitGroup
		for ri, rd := range rds {
			c.Go(&wg, func() {
				s := produce(rd, nil)
				for i, in := range ins {
					pts := s.pointsOf(fmt.Sprint("inst", i))
					want := map[string]int64{}
					delta := tempo == aggregation.DeltaTemporality && in.kind != sdkinstrument.AsyncGauge
					val := func(x int64) int64 {
						if delta {
							return x
						}
						return x * n
					}
					for j := 0; j < g; j++ {
						for k := 0; k < per; k++ {
							want[canonList([]attribute.KeyValue{attribute.Int("g", j), attribute.Int("k", k)})] = val(int64(1 + j))
							if (i+k)%2 == 0 {
								want[canonList([]attribute.KeyValue{attribute.Bool("same", true)})] = val(1)
							}
						}
					}
					c.Eval(1 + len(pts))
					for _, p := range pts {
						x, ok := want[p.attrs]
						if v, _ := fromNum(p.val); !ok || v != x {
							c.Violate(nil, "collection %d of reader %d: %v observed by %d goroutines of one callback: {%s} is %v, want %d (known %v)", n, ri, in.kind, g, p.attrs, v, x, ok)
						}
						delete(want, p.attrs)
					}
					if len(want) != 0 {
						c.Violate(nil, "collection %d of reader %d: %v observed by %d goroutines of one callback: %d attribute sets are missing, %v", n, ri, in.kind, g, len(want), want)
					}
				}
			})
		}
		wg.Wait()
	}
	c.Distinct(g, per, len(ins), tempo, len(rds))
}
