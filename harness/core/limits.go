package main

import (
	"context"
	"fmt"
	"maps"
	"math/rand/v2"
	"runtime"
	"sync"

	"github.com/lightstep/go-expohisto/structure"
	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

const overflowKey = `"otel.metric.overflow"=1:true`

type limitCfg struct {
	instLimit uint32 // 0: default
	aggLimit  uint32
	how       int // how the aggregator limit is configured
	kind      sdkinstrument.Kind
	nk        number.Kind
	tempo     aggregation.Temporality
	keys      bool // the view keeps only key "k"
	idle      uint32
	shape     int    // what the values of key "k" are
	size      int32  // maximum histogram size configured with the limit, 0: default
	loser     uint32 // a limit configured where the one above takes precedence
	views     int    // further views of the same instrument, named inst1 ...
	readers   int    // further readers
}

func (cfg limitCfg) maxSize() int32 {
	if cfg.size != 0 {
		return cfg.size
	}
	return defMaxSize
}

type limitWorld struct {
	c   *hz.Case
	cfg limitCfg
	p   *lmetric.MeterProvider
	rd  *lmetric.ManualReader
	rds []*lmetric.ManualReader // with the further ones
	in  *inst
}

func newLimitWorld(c *hz.Case, cfg limitCfg) *limitWorld {
	w := &limitWorld{c: c, cfg: cfg}
	perf := sdkinstrument.Performance{InstrumentCardinalityLimit: cfg.instLimit, InactiveCollectionPeriods: cfg.idle}
	vo := []view.Option{view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return cfg.tempo })}
	var co []view.ClauseOption
	desc := ""
	if cfg.aggLimit != 0 {
		switch cfg.how {
		case 0:
			perf.AggregatorCardinalityLimit = cfg.aggLimit
		case 1:
			var ho []structure.Option
			if cfg.size != 0 {
				ho = append(ho, structure.WithMaxSize(cfg.size))
			}
			co = append(co, view.WithAggregatorConfig(aggregator.Config{CardinalityLimit: cfg.aggLimit, Histogram: structure.NewConfig(ho...)}))
			perf.AggregatorCardinalityLimit = cfg.loser
			if cfg.loser%2 == 1 {
				desc = fmt.Sprintf(`{"config":{"cardinality_limit":%d}}`, cfg.loser)
			}
		case 2:
			desc = fmt.Sprintf(`{"config":{"cardinality_limit":%d}}`, cfg.aggLimit)
			if cfg.size != 0 {
				desc = fmt.Sprintf(`{"config":{"cardinality_limit":%d,"histogram":{"max_size":%d}}}`, cfg.aggLimit, cfg.size)
			}
			perf.AggregatorCardinalityLimit = cfg.loser
		}
	}
	if cfg.keys {
		co = append(co, view.WithKeys([]attribute.Key{"k"}))
	}
	if len(co) > 0 || cfg.views > 0 {
		vo = append(vo, view.WithClause(co...))
	}
	for i := 1; i <= cfg.views; i++ {
		vo = append(vo, view.WithClause(append(co[:len(co):len(co)], view.MatchInstrumentName("inst0"), view.WithName(fmt.Sprint("inst", i)))...))
	}
	po := []lmetric.Option{lmetric.WithPerformance(perf)}
	for i := 0; i <= cfg.readers; i++ {
		w.rds = append(w.rds, lmetric.NewManualReader(fmt.Sprint("r", i)))
		po = append(po, lmetric.WithReader(w.rds[i], vo...))
	}
	w.rd = w.rds[0]
	w.p = lmetric.NewMeterProvider(po...)
	var err error
	w.in, err = create(w.p.Meter(concScope), cfg.kind, cfg.nk, "inst0", desc, "")
	if err != nil {
		c.Violate(nil, "creation failed: %v", err)
	}
	return w
}

func limitAttrs(r *rand.Rand, cfg limitCfg, i int) []attribute.KeyValue {
	kvs := []attribute.KeyValue{cfg.attr(i)}
	if cfg.keys {
		kvs = append(kvs, attribute.Int("noise", r.IntN(3)))
	}
	if r.IntN(2) == 0 && len(kvs) > 1 {
		kvs[0], kvs[1] = kvs[1], kvs[0]
	}
	return kvs
}

// attr is the i'th value of key "k": integers, permutations of one slice, or
// values of several types that print alike.
func (cfg limitCfg) attr(i int) attribute.KeyValue {
	perm := func() []int {
		from, out := []int{1, 2, 3, 4, 5, 6}, []int{}
		for n := i; len(from) > 0; n /= len(from) + 1 {
			j := n % len(from)
			out = append(out, from[j])
			from = append(from[:j:j], from[j+1:]...)
		}
		return out
	}
	switch cfg.shape {
	case 1:
		return attribute.IntSlice("k", perm())
	case 2:
		s := []string{}
		for _, x := range perm() {
			s = append(s, string(rune('a'+x)))
		}
		return attribute.StringSlice("k", s)
	case 3:
		switch n := i / 5; i % 5 {
		case 0:
			return attribute.String("k", fmt.Sprint(n))
		case 1:
			return attribute.Float64("k", float64(n))
		case 2:
			return attribute.StringSlice("k", []string{fmt.Sprint(n)})
		case 3:
			return attribute.Float64Slice("k", []float64{float64(n)})
		default:
			return attribute.Int("k", n)
		}
	}
	return attribute.Int("k", i)
}

func (cfg limitCfg) keyOf(i int) string { return canonKV(cfg.attr(i)) }

// limitSeq: exact admission and conservation for one sequential history.
func limitSeq(c *hz.Case) {
	r := c.R
	cfg := limitCfg{
		kind: syncKinds[r.IntN(4)], nk: []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)],
		tempo: []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}[r.IntN(2)],
		idle:  1000,
	}
	cfg.shape = r.IntN(4)
	limit := uint32(1 + r.IntN(12))
	useInst := r.IntN(2) == 0
	if useInst {
		cfg.instLimit = limit
		cfg.keys = r.IntN(3) == 0
	} else {
		cfg.aggLimit = limit
		cfg.how = r.IntN(3)
		cfg.keys = r.IntN(2) == 0
		if cfg.how > 0 && r.IntN(2) == 0 {
			cfg.size = int32(4 + r.IntN(40))
		}
		if cfg.how > 0 && r.IntN(2) == 0 {
			cfg.loser = uint32(2 + r.IntN(12))
		}
	}
	w := newLimitWorld(c, cfg)
	nsets := 1 + r.IntN(2*int(limit)+2)
	series := map[string][]num{}
	// Before the view's key filter for the instrument's limit, after it for
	// the aggregator's.
	admitted := map[any]bool{}
	overflowing := false
	ctx := context.Background()
	var mem *data.Metrics
	if r.IntN(2) == 0 {
		mem = &data.Metrics{}
	}
	for round := 0; round < 3+r.IntN(4) && !c.Failed(); round++ {
		for n := 1 + r.IntN(40); n > 0; n-- {
			i := r.IntN(nsets)
			v := genNum(r, cfg.kind, cfg.nk, false)
			kvs := limitAttrs(r, cfg, i)
			var id any = i
			if useInst {
				id = attribute.NewSet(append([]attribute.KeyValue(nil), kvs...)...)
			}
			w.in.record(ctx, v, path(r.IntN(int(numPaths))), kvs)
			key := cfg.keyOf(i)
			if !admitted[id] {
				if len(admitted) < int(limit)-1 {
					admitted[id] = true
				} else {
					overflowing = true
					key = overflowKey
				}
			}
			series[key] = append(series[key], v)
		}
		s := produce(w.rd, mem)
		pts, _ := s.find(concScope, "inst0")
		c.Eval(1 + len(pts))
		if len(pts) > int(limit) {
			c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg)}, "%d points, cardinality limit %d", len(pts), limit)
		}
		got := map[string]*spoint{}
		for j := range pts {
			got[pts[j].attrs] = &pts[j]
		}
		agg := stdAgg(cfg.kind)
		for k, vals := range series {
			p := got[k]
			delete(got, k)
			if p == nil {
				if cfg.tempo == aggregation.DeltaTemporality && agg != aggregation.HistogramKind && agg != aggregation.GaugeKind && sumOf(cfg.nk, vals).isZero() {
					continue
				}
				c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg)}, "limit %d, %d admitted: no point for {%s} (%d measurements)", limit, len(admitted), k, len(vals))
				continue
			}
			for _, m := range checkPoint(p, xpoint{agg: agg, tempo: cfg.tempo, vals: vals, size: cfg.maxSize()}) {
				c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg)}, "limit %d: {%s}: %s", limit, k, m.msg)
			}
		}
		for k, p := range got {
			c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg)}, "limit %d, %d admitted: unexpected point {%s} value %v", limit, len(admitted), k, p.val)
		}
		if cfg.tempo == aggregation.DeltaTemporality {
			series = map[string][]num{}
		}
		c.Distinct(limit, len(admitted), overflowing, len(pts), cfg.kind, cfg.tempo, useInst, cfg.how)
	}
	if overflowing {
		c.Count("histories_overflowing", 1)
	}
}

// limitDefaults: without configured limits, the documented defaults hold.
func limitDefaults(c *hz.Case) {
	r := c.R
	cfg := limitCfg{kind: sdkinstrument.SyncCounter, nk: number.Int64Kind, shape: r.IntN(4) / 2,
		tempo: []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}[r.IntN(2)]}
	limit := sdkinstrument.DefaultAggregatorCardinalityLimit
	if r.IntN(2) == 0 {
		cfg.shape = 0
		cfg.aggLimit, cfg.how = 5000, r.IntN(3)
		limit = sdkinstrument.DefaultInstrumentCardinalityLimit
	}
	if cfg.shape == 1 { // 720 permutations, all within the limits
		limit = 10000
	}
	w := newLimitWorld(c, cfg)
	n := limit - 1 + r.IntN(100)
	if cfg.shape == 1 {
		n = 720
	}
	for i := 0; i < n; i++ {
		w.in.record(context.Background(), inum(int64(i+1)), path(i%int(numPaths)), limitAttrs(r, cfg, i))
		c.Tick()
	}
	s := produce(w.rd, nil)
	pts, _ := s.find(concScope, "inst0")
	got := map[string]int64{}
	for i := range pts {
		got[pts[i].attrs] += pts[i].val.i
	}
	own := min(n, limit-1)
	over := int64(n)*int64(n+1)/2 - int64(own)*int64(own+1)/2
	c.Eval(own + 2)
	wantLen := own
	if over > 0 {
		wantLen++
	}
	if len(pts) != wantLen || got[overflowKey] != over {
		c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg)}, "%d attribute sets with default limit %d: %d points, overflow %d; want %d and %d", n, limit, len(pts), got[overflowKey], wantLen, over)
		return
	}
	for i := 0; i < own; i++ {
		if got[cfg.keyOf(i)] != int64(i+1) {
			c.Violate(nil, "default limit %d: {%s} reports %d, recorded %d", limit, cfg.keyOf(i), got[cfg.keyOf(i)], i+1)
			return
		}
	}
	c.Distinct(n, limit, cfg.shape, cfg.tempo)
}

// limitAsync: same for asynchronous instruments, whose budget is per collection.
func limitAsync(c *hz.Case) {
	r := c.R
	cfg := limitCfg{kind: asyncKinds[r.IntN(3)], nk: []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)],
		tempo: aggregation.CumulativeTemporality, how: r.IntN(3)}
	cfg.aggLimit = uint32(1 + r.IntN(12))
	cfg.shape = r.IntN(4)
	if r.IntN(3) == 0 {
		cfg.tempo = aggregation.DeltaTemporality
	}
	limit := int(cfg.aggLimit)
	overflowed := false
	prior := map[string]num{} // what a delta reader saw in its previous collection
	w := newLimitWorld(c, cfg)
	nsets := 1 + r.IntN(2*limit+2)
	type ob struct {
		i int
		v num
	}
	var plan []ob
	if _, err := w.p.Meter(concScope).RegisterCallback(func(_ context.Context, o metric.Observer) error {
		for _, x := range plan {
			w.in.observe(o, x.v, []attribute.KeyValue{cfg.attr(x.i)})
		}
		return nil
	}, w.in.observable()); err != nil {
		c.Violate(nil, "%v", err)
	}
	for round := 0; round < 5 && !c.Failed(); round++ {
		plan = nil
		for n := 1 + r.IntN(2*limit+4); n > 0; n-- {
			plan = append(plan, ob{r.IntN(nsets), genNum(r, cfg.kind, cfg.nk, false)})
		}
		s := produce(w.rd, nil)
		pts, _ := s.find(concScope, "inst0")
		c.Eval(1 + len(pts))
		if len(pts) > limit {
			c.Violate(nil, "%d points, cardinality limit %d (%v %v)", len(pts), limit, cfg.kind, cfg.tempo)
		}
		c.Distinct(limit, len(pts), cfg.kind, cfg.tempo, len(plan))
		isGauge := cfg.kind == sdkinstrument.AsyncGauge
		isDelta := cfg.tempo == aggregation.DeltaTemporality && !isGauge
		tempo := aggregation.CumulativeTemporality
		last := map[int]num{}
		var order []int
		for _, x := range plan {
			if _, ok := last[x.i]; !ok {
				order = append(order, x.i)
			}
			last[x.i] = x.v
		}
		want := map[string][]num{}
		for n, i := range order {
			if n < limit-1 {
				want[cfg.keyOf(i)] = []num{last[i]}
				continue
			}
			if isGauge {
				want[overflowKey] = append(want[overflowKey], last[i])
			} else if len(want[overflowKey]) == 0 {
				want[overflowKey] = []num{last[i]}
			} else {
				want[overflowKey] = []num{want[overflowKey][0].add(last[i])}
			}
		}
		if isDelta {
			tempo = aggregation.DeltaTemporality
			next := map[string]num{}
			for k, v := range want {
				next[k] = v[0]
				if k == overflowKey {
					// The sets beyond the limit are taken for new ones
					// in every collection: see overflowRepeat.
					if overflowed && v[0].isZero() {
						delete(want, k)
					}
					overflowed = true
				} else if p, has := prior[k]; has {
					if want[k] = []num{v[0].sub(p)}; want[k][0].isZero() {
						delete(want, k) // unchanged
					}
				}
			}
			prior = next
		}
		for j := range pts {
			vs, ok := want[pts[j].attrs]
			if !ok {
				c.Violate(nil, "limit %d: unexpected point {%s} value %v", limit, pts[j].attrs, pts[j].val)
				continue
			}
			delete(want, pts[j].attrs)
			for _, m := range checkPoint(&pts[j], xpoint{agg: stdAgg(cfg.kind), tempo: tempo, cands: vs}) {
				c.Violate(nil, "limit %d: {%s}: %s", limit, pts[j].attrs, m.msg)
			}
		}
		for k := range want {
			c.Violate(nil, "limit %d: no point for {%s}", limit, k)
		}
	}
}

// limitConc: many goroutines create distinct attribute sets at once.
func limitConc(c *hz.Case) {
	r := c.R
	cfg := limitCfg{kind: syncKinds[r.IntN(2)], nk: number.Int64Kind,
		tempo: []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}[r.IntN(2)], idle: 1 << 30} // a run can make more than a thousand collections
	cfg.shape = r.IntN(4)
	limit := uint32(2 + r.IntN(12))
	switch r.IntN(3) {
	case 0:
		cfg.instLimit = limit
	case 1:
		cfg.aggLimit = limit
		cfg.how = r.IntN(3)
	default:
		cfg.instLimit = limit + uint32(r.IntN(6))
		cfg.aggLimit = limit
		limit = min(cfg.instLimit, cfg.aggLimit)
	}
	w := newLimitWorld(c, cfg)
	nw := 3 + r.IntN(4)
	per := 1 + r.IntN(3*int(limit)/nw+3)
	overlap := r.IntN(2) == 0
	var wg sync.WaitGroup
	start := make(chan struct{})
	totals := make([]map[int]int64, nw)
	for i := 0; i < nw; i++ {
		rnd := rand.New(rand.NewPCG(c.Seed, uint64(i)+3))
		totals[i] = map[int]int64{}
		c.Go(&wg, func() {
			<-start
			for j := 0; j < per*3; j++ {
				id := i*per + j%per
				if overlap {
					id = rnd.IntN(nw * per)
				}
				v := int64(1 + rnd.IntN(100))
				w.in.record(context.Background(), inum(v), path(rnd.IntN(int(numPaths))), []attribute.KeyValue{cfg.attr(id)})
				totals[i][id] += v
				c.Tick()
			}
		})
	}
	var acc = map[string]int64{}
	var own = map[string]bool{}
	collect := func() {
		s := produce(w.rd, nil)
		pts, _ := s.find(concScope, "inst0")
		c.Eval(1)
		if len(pts) > int(limit) {
			c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg)}, "%d points, cardinality limit %d (concurrent recording of new attribute sets)", len(pts), limit)
		}
		for j := range pts {
			if cfg.tempo == aggregation.DeltaTemporality {
				acc[pts[j].attrs] += pts[j].val.i
			} else {
				acc[pts[j].attrs] = pts[j].val.i
			}
			own[pts[j].attrs] = true
		}
	}
	var cg sync.WaitGroup
	done := make(chan struct{})
	c.Go(&cg, func() {
		<-start
		for {
			select {
			case <-done:
				return
			default:
				collect()
			}
		}
	})
	close(start)
	wg.Wait()
	close(done)
	cg.Wait()
	collect()
	want, got := int64(0), int64(0)
	perSet := map[string]int64{}
	for _, t := range totals {
		for id, v := range t {
			want += v
			perSet[cfg.keyOf(id)] += v
		}
	}
	for k, v := range acc {
		got += v
		if k != overflowKey && v > perSet[k] {
			c.Violate(nil, "{%s} reports %d, only %d was recorded there", k, v, perSet[k])
		}
	}
	c.Eval(1)
	if got != want {
		c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg)}, "limit %d: all points together report %d, recorded %d", limit, got, want)
	}
	if len(own) > int(limit) {
		c.Violate(nil, "%d series over all collections with nothing idle, cardinality limit %d", len(own), limit)
	}
	if len(perSet) < int(limit) && own[overflowKey] {
		c.Violate(nil, "overflow reported although only %d attribute sets were used with limit %d", len(perSet), limit)
	}
	c.Distinct(limit, len(own), len(perSet), got)
}

// ---- memory reclamation

// reclaimSlots: attribute sets that stay idle for the configured number of
// collections give their slots back: the budget is available to new sets.
func reclaimSlots(c *hz.Case) {
	r := c.R
	idle := uint32(r.IntN(5))
	cfg := limitCfg{kind: syncKinds[r.IntN(4)], nk: []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)], tempo: aggregation.DeltaTemporality, idle: idle, how: r.IntN(3)}
	if idle == 0 {
		idle = sdkinstrument.DefaultInactiveCollectionPeriods
	}
	cfg.shape = r.IntN(4)
	limit := uint32(2 + r.IntN(8))
	switch r.IntN(3) {
	case 0:
		cfg.instLimit = limit
	case 1:
		cfg.aggLimit = limit
		cfg.keys = r.IntN(2) == 0
	default:
		cfg.instLimit, cfg.aggLimit = limit, limit
	}
	if r.IntN(2) == 0 {
		cfg.views, cfg.readers = r.IntN(3), r.IntN(3)
	}
	w := newLimitWorld(c, cfg)
	ctx := context.Background()
	next := 0
	for gen := 0; gen < 6 && !c.Failed(); gen++ {
		n := int(limit) - 1
		over := gen > 0 && r.IntN(3) == 0
		want := map[string][]num{}
		for i := 0; i < n; i++ {
			for rep := 0; rep < 1+r.IntN(2); rep++ {
				v := inum(int64(1 + r.IntN(50)))
				if cfg.nk == number.Float64Kind {
					v = fnum(float64(v.i))
				}
				w.in.record(ctx, v, path(r.IntN(int(numPaths))), limitAttrs(r, cfg, next+i))
				want[cfg.keyOf(next+i)] = append(want[cfg.keyOf(next+i)], v)
			}
		}
		if over {
			v := num{k: cfg.nk, i: 7}
			if cfg.nk == number.Float64Kind {
				v = fnum(7)
			}
			w.in.record(ctx, v, viaOptions, limitAttrs(r, cfg, next+n))
			want[overflowKey] = []num{v}
			n++
		}
		for ri, rd := range w.rds {
			s := produce(rd, nil)
			for vi := 0; vi <= cfg.views; vi++ {
				checkSlots(c, cfg, limit, idle, gen, fmt.Sprintf("reader %d view %d", ri, vi), s.pointsOf(fmt.Sprint("inst", vi)), want)
			}
		}
		next += n
		// idle collections: nothing is reported, and memory is released
		for k := uint32(0); k < idle+1+uint32(min(cfg.readers, 1)); k++ {
			for _, rd := range w.rds {
				s := produce(rd, nil)
				for vi := 0; vi <= cfg.views; vi++ {
					pts := s.pointsOf(fmt.Sprint("inst", vi))
					c.Eval(1)
					if len(pts) != 0 {
						c.Violate(nil, "idle delta collection reports %d points", len(pts))
					}
				}
			}
		}
		c.Distinct(limit, idle, gen, cfg.kind, cfg.how, over)
	}
}

// checkSlots: the collected points are exactly the attribute sets of this
// generation.
func checkSlots(c *hz.Case, cfg limitCfg, limit, idle uint32, gen int, where string, pts []spoint, all map[string][]num) {
	want := maps.Clone(all)
	c.Eval(1 + len(pts))
	for j := range pts {
		vals, ok := want[pts[j].attrs]
		if !ok {
			c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg), "generation": gen}, "%s generation %d: unexpected point {%s}: slots of attribute sets idle for %d collections were not reclaimed (limit %d)", where, gen, pts[j].attrs, idle, limit)
			continue
		}
		delete(want, pts[j].attrs)
		for _, m := range checkPoint(&pts[j], xpoint{agg: stdAgg(cfg.kind), tempo: cfg.tempo, vals: vals, size: defMaxSize}) {
			c.Violate(nil, "%s generation %d: {%s}: %s", where, gen, pts[j].attrs, m.msg)
		}
	}
	for k := range want {
		c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg)}, "%s generation %d: attribute set {%s} lost its identity although earlier sets were idle for %d collections (limit %d)", where, gen, k, idle, limit)
	}
}

func heapNow() uint64 {
	var ms runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

// reclaimHeap: sustained churn through ever new attribute sets runs in
// bounded memory.
func reclaimHeap(c *hz.Case) {
	r := c.R
	idle := uint32(1 + r.IntN(2))
	mode := r.IntN(3)
	kind := syncKinds[r.IntN(4)]
	tempo := aggregation.DeltaTemporality
	if mode == 1 {
		kind = asyncKinds[r.IntN(3)]
		tempo = []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}[r.IntN(2)]
	}
	nk := []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
	cfg := limitCfg{kind: kind, nk: nk, tempo: tempo, idle: idle, instLimit: 1 << 20, aggLimit: 1 << 20, views: r.IntN(2), readers: r.IntN(2)}
	w := newLimitWorld(c, cfg)
	next := 0
	const per = 150
	if !kind.Synchronous() {
		_, _ = w.p.Meter(concScope).RegisterCallback(func(_ context.Context, o metric.Observer) error {
			for i := 0; i < per; i++ {
				w.in.observe(o, toNum(nk, 4), []attribute.KeyValue{attribute.Int("k", next+i)})
			}
			return nil
		}, w.in.observable())
	}
	reuse := &data.Metrics{}
	cycle := func() {
		if kind.Synchronous() {
			for i := 0; i < per; i++ {
				w.in.record(context.Background(), toNum(nk, 4), path(i%int(numPaths)), []attribute.KeyValue{attribute.Int("k", next+i)})
			}
		}
		s := produce(w.rd, reuse)
		pts, _ := s.find(concScope, "inst0")
		c.Eval(1)
		if len(pts) > per+1 {
			c.Violate(nil, "%d points after recording %d attribute sets: forgotten sets are still reported", len(pts), per)
		}
		for _, rd := range w.rds[1:] {
			produce(rd, nil)
		}
		next += per
	}
	for i := 0; i < 20; i++ {
		cycle()
	}
	h0 := heapNow()
	const cycles = 120
	for i := 0; i < cycles && !c.Failed(); i++ {
		cycle()
	}
	h1 := heapNow()
	c.Eval(1)
	// A retained attribute set costs several hundred bytes; everything
	// legitimately live is a few generations.  150*120 sets retained
	// would cost more than 5 MB.
	grow := int64(h1) - int64(h0)
	c.Count("churned_attribute_sets", per*cycles)
	if grow > 2<<20 {
		c.Violate(map[string]any{"cfg": fmt.Sprintf("%+v", cfg)}, "live heap grew by %d bytes over %d collections of %d attribute sets each that were then never used again (%v %v, inactive periods %d)", grow, cycles, per, kind, tempo, idle)
	}
	c.Distinct(kind, tempo, nk, idle)
	c.Sample(map[string]any{"case": c.Name, "kind": kind.String(), "heap_before": h0, "heap_after": h1, "sets": per * cycles})
	runtime.KeepAlive(w)
}

// overflowRepeat: the same attribute sets, more than the limit, are observed
// with the same values by every collection of a delta reader. Only the first
// collection has anything to report.
func overflowRepeat(c *hz.Case) {
	r := c.R
	cfg := limitCfg{kind: asyncKinds[r.IntN(2)], nk: []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)],
		tempo: aggregation.DeltaTemporality, how: r.IntN(3)}
	cfg.aggLimit = uint32(2 + r.IntN(8))
	w := newLimitWorld(c, cfg)
	nsets := int(cfg.aggLimit) + r.IntN(5)
	_, _ = w.p.Meter(concScope).RegisterCallback(func(_ context.Context, o metric.Observer) error {
		for i := 0; i < nsets; i++ {
			w.in.observe(o, toNum(cfg.nk, 10), []attribute.KeyValue{cfg.attr(i)})
		}
		return nil
	}, w.in.observable())
	beyond := int64(nsets-int(cfg.aggLimit)+1) * 10
	for round := 0; round < 3; round++ {
		pts, _ := produce(w.rd, nil).find(concScope, "inst0")
		total, over := int64(0), int64(0)
		for _, p := range pts {
			n, _ := fromNum(p.val)
			total += n
			if p.attrs == overflowKey {
				over = n
			}
		}
		c.Eval(1)
		switch {
		case round == 0 && (total != int64(nsets)*10 || over != beyond):
			c.Violate(nil, "%d sets of 10 are reported as %d, %d of it as overflow (limit %d)", nsets, total, over, cfg.aggLimit)
		case round == 0 || total == 0:
		case total == over && over == beyond:
			c.Violate(nil, "delta overflow counts again what was reported before: %d sets (limit %d) observed at 10 by every collection, collection %d reports %d more", nsets, cfg.aggLimit, round, total)
		default:
			c.Violate(nil, "%d sets (limit %d) observed at 10 by every collection: collection %d reports %d, %d of it as overflow", nsets, cfg.aggLimit, round, total, over)
		}
	}
}
