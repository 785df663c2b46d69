package main

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"math/rand/v2"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel/attribute"
)

// Concurrent conservation monitors.
//
// Every series keeps two counters per sign: what recorders have begun to
// record and what they have finished recording.  A collection reads "done"
// before it starts and "begun" after it ends; what has been reported so far
// must lie between the two.  After the workload everything must have been
// reported exactly once.

const unit = 4 // float measurements are multiples of 1/unit: exact arithmetic

type cser struct {
	inst int
	kvs  []attribute.KeyValue
	key  string
	bp   atomic.Int64
	dp   atomic.Int64
	bn   atomic.Int64
	dn   atomic.Int64
	bc   atomic.Int64 // begun count
	dc   atomic.Int64 // done count
}

func rigid(k sdkinstrument.Kind) bool {
	return k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram
}

func toNum(nk number.Kind, v int64) num {
	if nk == number.Int64Kind {
		return inum(v)
	}
	return fnum(float64(v) / unit)
}

func fromNum(n num) (int64, bool) {
	if n.k == number.Int64Kind {
		return n.i, true
	}
	x := n.f * unit
	i := int64(x)
	return i, float64(i) == x
}

// cattrs makes distinct attribute sets including ones whose fingerprints
// collide (permuted slice elements).
func cattrs(r *rand.Rand, n int) [][]attribute.KeyValue {
	pool := [][]attribute.KeyValue{
		{},
		{attribute.String("a", "x")},
		{attribute.Int("a", 1), attribute.String("b", "y")},
		{attribute.StringSlice("p", []string{"x", "y", "z"})},
		{attribute.StringSlice("p", []string{"z", "y", "x"})},
		{attribute.StringSlice("p", []string{"y", "x", "z"})},
		{attribute.Int64Slice("q", []int64{1, 2})},
		{attribute.Int64Slice("q", []int64{2, 1})},
		{attribute.Bool("c", true), attribute.Float64("d", 1.5)},
		{attribute.String("b", "y"), attribute.String("a", "1")},
	}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	if n > len(pool) {
		n = len(pool)
	}
	return pool[:n]
}

type concCfg struct {
	kinds     []sdkinstrument.Kind
	agg       aggregation.Kind // 0: default
	workers   int
	ops       int
	maxReader int
	sharedRd  bool // several goroutines may collect one reader
	keys      bool // views with key filters
	merge     bool // one instrument, every attribute set merged into one series
	idle      bool // attribute sets idle for one collection are reclaimed
	rename    bool // views give several instruments one name: they share streams
}

type concWorld struct {
	c       *hz.Case
	p       *lmetric.MeterProvider
	readers []*lmetric.ManualReader
	tempo   []aggregation.Temporality
	keys    [][]string // per reader, nil: no filter
	renamed []bool     // per reader: every instrument is called inst0
	insts   []*inst
	ser     []*cser
	vals    [][]num // per series: filled by workers (per worker slices merged)
	cfg     concCfg
	perf    sdkinstrument.Performance
}

const concScope = "conc"

func newConc(c *hz.Case, cfg concCfg) *concWorld {
	r := c.R
	w := &concWorld{c: c, cfg: cfg}
	w.perf = sdkinstrument.Performance{InactiveCollectionPeriods: uint32(1 + r.IntN(3))}
	if r.IntN(8) == 0 {
		w.perf.InactiveCollectionPeriods = 0
	}
	if cfg.idle {
		w.perf.InactiveCollectionPeriods = 1
	}
	opts := []lmetric.Option{lmetric.WithPerformance(w.perf)}
	nr := 1 + r.IntN(cfg.maxReader)
	for i := 0; i < nr; i++ {
		t := []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}[r.IntN(2)]
		w.tempo = append(w.tempo, t)
		rd := lmetric.NewManualReader(readerName(c, i))
		w.readers = append(w.readers, rd)
		vo := []view.Option{view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return t })}
		if cfg.agg != 0 {
			vo = append(vo, view.WithDefaultAggregationKindSelector(func(sdkinstrument.Kind) aggregation.Kind { return cfg.agg }))
		}
		var ks []string
		var ak []attribute.Key
		if cfg.keys && (cfg.merge || r.IntN(2) == 0) {
			ks = []string{}
			for _, k := range []string{"a", "b"} {
				if r.IntN(2) == 0 {
					ks = append(ks, k)
					ak = append(ak, attribute.Key(k))
				}
			}
			if ak == nil || cfg.merge {
				ks, ak = []string{}, []attribute.Key{}
			}
		}
		ren := cfg.rename && r.IntN(4) > 0
		var co []view.ClauseOption
		if ks != nil {
			co = append(co, view.WithKeys(ak))
		}
		if ren {
			co = append(co, view.WithName("inst0"))
		}
		if co != nil {
			vo = append(vo, view.WithClause(co...))
		}
		w.keys = append(w.keys, ks)
		w.renamed = append(w.renamed, ren)
		opts = append(opts, lmetric.WithReader(rd, vo...))
	}
	w.p = lmetric.NewMeterProvider(opts...)
	ni := 1 + r.IntN(3)
	if cfg.rename {
		ni = 2 + r.IntN(2)
	} else if cfg.merge {
		ni = 1
	}
	var k sdkinstrument.Kind
	var nk number.Kind
	for i := 0; i < ni; i++ {
		if i == 0 || !cfg.rename {
			k = cfg.kinds[r.IntN(len(cfg.kinds))]
			nk = []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
		}
		in, err := create(w.p.Meter(concScope), k, nk, fmt.Sprint("inst", i), "", "")
		if err != nil {
			c.Violate(nil, "instrument creation failed: %v", err)
		}
		w.insts = append(w.insts, in)
		ns := 1 + r.IntN(5)
		if cfg.merge {
			ns = 2 + r.IntN(2)
		}
		for _, kvs := range cattrs(r, ns) {
			w.ser = append(w.ser, &cser{inst: i, kvs: kvs, key: canonList(kvs)})
		}
	}
	return w
}

// out gives the output identity of a series for a reader.
func (w *concWorld) out(ri int, s *cser) string {
	inst := s.inst
	if w.renamed[ri] {
		inst = 0
	}
	if w.keys[ri] == nil {
		return fmt.Sprintf("%d|%s", inst, s.key)
	}
	l := mleaf{keys: w.keys[ri]}
	return fmt.Sprintf("%d|%s", inst, l.project(s.kvs))
}

type bounds struct{ dp, dn, bp, bn, dc, bc int64 }

func (w *concWorld) before(ri int) map[string]bounds {
	m := map[string]bounds{}
	for _, s := range w.ser {
		b := m[w.out(ri, s)]
		b.dp += s.dp.Load()
		b.dn += s.dn.Load()
		b.dc += s.dc.Load()
		m[w.out(ri, s)] = b
	}
	return m
}

func (w *concWorld) after(ri int, m map[string]bounds) {
	for _, s := range w.ser {
		b := m[w.out(ri, s)]
		b.bp += s.bp.Load()
		b.bn += s.bn.Load()
		b.bc += s.bc.Load()
		m[w.out(ri, s)] = b
	}
}

// collector accumulates what one reader reported.
type collector struct {
	w     *concWorld
	ri    int
	mem   *data.Metrics
	acc   map[string]int64
	cnt   map[string]int64
	hist  map[string]*spoint // accumulated histogram
	n     int
	last  time.Time
	start time.Time
	mu    sync.Mutex
}

func (w *concWorld) collector(ri int) *collector {
	k := &collector{w: w, ri: ri, acc: map[string]int64{}, cnt: map[string]int64{}, hist: map[string]*spoint{}}
	if w.c.R.IntN(2) == 0 {
		k.mem = &data.Metrics{}
	}
	return k
}

func isHist(k aggregation.Kind) bool {
	return k == aggregation.HistogramKind || k == aggregation.MinMaxSumCountKind
}

// points flattens a snapshot of the workload's scope.
func (w *concWorld) points(s *snap) (map[string]*spoint, []string) {
	pts := map[string]*spoint{}
	var dups []string
	for i := range s.scopes {
		for j := range s.scopes[i].insts {
			in := &s.scopes[i].insts[j]
			var idx int
			if _, err := fmt.Sscanf(in.desc.Name, "inst%d", &idx); err != nil {
				continue
			}
			for k := range in.points {
				key := fmt.Sprintf("%d|%s", idx, in.points[k].attrs)
				if pts[key] != nil {
					dups = append(dups, key)
				}
				pts[key] = &in.points[k]
			}
		}
	}
	return pts, dups
}

func (k *collector) collect() {
	w := k.w
	k.mu.Lock()
	defer k.mu.Unlock()
	bnd := w.before(k.ri)
	s := produce(w.readers[k.ri], k.mem)
	w.after(k.ri, bnd)
	pts, dups := w.points(s)
	k.check(pts, dups, bnd)
}

func (k *collector) check(pts map[string]*spoint, dups []string, bnd map[string]bounds) {
	w := k.w
	k.n++
	w.c.Eval(len(bnd))
	w.c.Count("collections", 1)
	delta := w.tempo[k.ri] == aggregation.DeltaTemporality
	for _, d := range dups {
		w.c.Violate(nil, "reader %d: two points for series %s in one collection", k.ri, d)
	}
	for key, p := range pts {
		if _, ok := bnd[key]; !ok {
			w.c.Violate(nil, "reader %d: point for series %s that nobody recorded (value %v)", k.ri, key, p.val)
			continue
		}
		if (p.tempo == aggregation.DeltaTemporality) != delta {
			w.c.Violate(nil, "reader %d: series %s has temporality %v", k.ri, key, p.tempo)
		}
		v, exact := fromNum(p.val)
		if !exact {
			w.c.Violate(nil, "reader %d: series %s has a value %v that no combination of measurements gives", k.ri, key, p.val)
		}
		if isHist(p.kind) {
			k.histPoint(key, p)
			if delta {
				k.cnt[key] += int64(p.count)
			} else {
				k.cnt[key] = int64(p.count)
			}
		}
		if delta {
			k.acc[key] += v
		} else {
			k.acc[key] = v
		}
	}
	for key, b := range bnd {
		lo, hi := b.dp-b.bn, b.bp-b.dn
		v := k.acc[key]
		if v < lo || v > hi {
			w.c.Violate(map[string]any{"reader": k.ri, "collection": k.n, "tempo": w.tempo[k.ri].String()},
				"reader %d (%v) collection %d: series %s reported %d in total, but between %d (finished before) and %d (begun) was recorded", k.ri, w.tempo[k.ri], k.n, key, v, lo, hi)
		}
		if k.hist[key] != nil || isHist(w.cfg.agg) || w.histKind() {
			if n := k.cnt[key]; n < b.dc || n > b.bc {
				w.c.Violate(nil, "reader %d (%v) collection %d: series %s counted %d, between %d and %d were recorded", k.ri, w.tempo[k.ri], k.n, key, n, b.dc, b.bc)
			}
		}
		if p := pts[key]; p == nil && !delta && b.dc > 0 {
			w.c.Violate(nil, "reader %d: cumulative series %s missing from collection %d", k.ri, key, k.n)
		}
		if p := pts[key]; p == nil || delta {
			continue
		}
	}
	if w.c.Failed() {
		return
	}
	sig := ""
	for key, p := range pts {
		sig += key + p.val.String()
	}
	w.c.Distinct(k.ri, len(pts), sig)
}

func (w *concWorld) histKind() bool {
	for _, k := range w.cfg.kinds {
		if k != sdkinstrument.SyncHistogram {
			return false
		}
	}
	return w.cfg.agg == 0
}

// histPoint checks that a distribution is consistent with itself and
// accumulates it.
func (k *collector) histPoint(key string, p *spoint) {
	w := k.w
	if p.kind == aggregation.HistogramKind {
		n := p.zero
		for _, c := range p.pos {
			n += c
		}
		for _, c := range p.neg {
			n += c
		}
		if n != p.count {
			w.c.Violate(nil, "reader %d: series %s: buckets hold %d, count is %d", k.ri, key, n, p.count)
		}
	}
	if p.count == 0 {
		// A cumulative series whose first measurement is in flight.
		if w.tempo[k.ri] == aggregation.DeltaTemporality || !p.val.isZero() {
			w.c.Violate(nil, "reader %d: series %s: empty distribution reported with sum %v", k.ri, key, p.val)
		}
		return
	}
	if p.max.less(p.min) || p.val.float() < p.min.float()*float64(p.count) || p.val.float() > p.max.float()*float64(p.count) {
		w.c.Violate(nil, "reader %d: series %s: min %v max %v sum %v count %d inconsistent", k.ri, key, p.min, p.max, p.val, p.count)
	}
	old := k.hist[key]
	if old == nil || w.tempo[k.ri] != aggregation.DeltaTemporality {
		cp := *p
		k.hist[key] = &cp
		return
	}
	m := *p
	sc := min(old.scale, p.scale)
	if p.count == p.zero {
		sc = old.scale
	} else if old.count == old.zero {
		sc = p.scale
	}
	down := func(b map[int32]uint64, by int32, into map[int32]uint64) {
		for i, c := range b {
			into[i>>max(by, 0)] += c
		}
	}
	m.pos, m.neg = map[int32]uint64{}, map[int32]uint64{}
	down(old.pos, old.scale-sc, m.pos)
	down(p.pos, p.scale-sc, m.pos)
	down(old.neg, old.scale-sc, m.neg)
	down(p.neg, p.scale-sc, m.neg)
	m.scale = sc
	m.count += old.count
	m.zero += old.zero
	m.val = m.val.add(old.val)
	if old.min.less(m.min) {
		m.min = old.min
	}
	if m.max.less(old.max) {
		m.max = old.max
	}
	k.hist[key] = &m
}

type worklog struct{ vals map[*cser][]num }

// worker records ops measurements.
func (w *concWorld) worker(r *rand.Rand, ops int) *worklog {
	lg := &worklog{vals: map[*cser][]num{}}
	ctx := context.Background()
	// A worker concentrates on a few series, in bursts.
	for i := 0; i < ops && !w.c.Failed(); i++ {
		s := w.ser[r.IntN(len(w.ser))]
		in := w.insts[s.inst]
		v := int64(r.IntN(1000))
		if r.IntN(10) == 0 {
			v = 0
		}
		if in.kind == sdkinstrument.SyncHistogram && r.IntN(3) == 0 {
			v <<= uint(r.IntN(20))
		}
		if !rigid(in.kind) && r.IntN(2) == 0 {
			v = -v
		}
		n := toNum(in.nk, v)
		p := path(r.IntN(int(numPaths)))
		kvs := s.kvs
		if p == viaFast {
			kvs = shuffled(r, kvs)
		}
		s.bc.Add(1)
		if v >= 0 {
			s.bp.Add(v)
		} else {
			s.bn.Add(-v)
		}
		in.record(ctx, n, p, kvs)
		s.dc.Add(1)
		if v >= 0 {
			s.dp.Add(v)
		} else {
			s.dn.Add(-v)
		}
		lg.vals[s] = append(lg.vals[s], n)
		if p == viaFast {
			for j := range kvs {
				kvs[j] = attribute.String("reused", "by caller")
			}
		}
		if r.IntN(16) == 0 {
			runtime.Gosched()
		}
		w.c.Tick()
	}
	return lg
}

// run executes the workload and the final check.
func (w *concWorld) run() []*collector {
	c := w.c
	var colls []*collector
	for ri := range w.readers {
		colls = append(colls, w.collector(ri))
	}
	var wg, cg sync.WaitGroup
	var stop atomic.Bool
	nw := 2 + c.R.IntN(w.cfg.workers)
	logs := make([]*worklog, nw)
	for i := 0; i < nw; i++ {
		r := rand.New(rand.NewPCG(c.Seed, uint64(i)+77))
		c.Go(&wg, func() { logs[i] = w.worker(r, w.cfg.ops/2+r.IntN(w.cfg.ops)) })
	}
	for _, k := range colls {
		pause := c.R.IntN(4)
		c.Go(&cg, func() {
			for !stop.Load() && !c.Failed() {
				k.collect()
				for j := 0; j < pause*20; j++ {
					runtime.Gosched()
				}
			}
		})
	}
	wg.Wait()
	stop.Store(true)
	cg.Wait()
	for _, k := range colls {
		k.collect()
	}
	if c.Failed() {
		return colls
	}
	for _, k := range colls {
		w.final(k, logs)
		k.collect()
	}
	c.Count("readers", int64(len(colls)))
	return colls
}

func (w *concWorld) final(k *collector, logs []*worklog) {
	totals := map[string][]num{}
	for _, s := range w.ser {
		key := w.out(k.ri, s)
		for _, l := range logs {
			if l != nil {
				totals[key] = append(totals[key], l.vals[s]...)
			}
		}
	}
	for key, vals := range totals {
		if len(vals) == 0 {
			continue
		}
		w.c.Eval(1)
		want, _ := fromNum(sumOf(vals[0].k, vals))
		if got := k.acc[key]; got != want {
			w.c.Violate(map[string]any{"reader": k.ri}, "reader %d (%v): series %s: all collections together report %d, recorded %d", k.ri, w.tempo[k.ri], key, got, want)
		}
		if h := k.hist[key]; h != nil {
			if h.kind == aggregation.HistogramKind {
				for _, m := range checkHist(h, vals, 0) {
					w.c.Violate(map[string]any{"reader": k.ri}, "reader %d (%v): series %s: %s", k.ri, w.tempo[k.ri], key, m.msg)
				}
			} else {
				x := xpoint{agg: h.kind, tempo: h.tempo, vals: vals}
				for _, m := range checkPoint(h, x) {
					w.c.Violate(map[string]any{"reader": k.ri}, "reader %d (%v): series %s: %s", k.ri, w.tempo[k.ri], key, m.msg)
				}
			}
		}
	}
	w.c.Count("measurements_accounted", int64(func() (n int) {
		for _, v := range totals {
			n += len(v)
		}
		return
	}()))
}

// idleReturn: attribute sets come back exactly while a collection reclaims
// them for being idle.
func idleReturn(c *hz.Case) {
	r := c.R
	w := newConc(c, concCfg{kinds: [][]sdkinstrument.Kind{counters, histograms}[r.IntN(2)], workers: 3, maxReader: 2, keys: true, idle: true})
	ctx := context.Background()
	var ks []*collector
	for ri := range w.readers {
		ks = append(ks, w.collector(ri))
	}
	record := func(rr *rand.Rand, s *cser) {
		v := int64(1 + rr.IntN(9))
		s.bp.Add(v)
		s.bc.Add(1)
		in := w.insts[s.inst]
		in.record(ctx, toNum(in.nk, v), path(rr.IntN(int(numPaths))), s.kvs)
		s.dp.Add(v)
		s.dc.Add(1)
	}
	nw := 2 + r.IntN(3)
	rounds := 10 + r.IntN(40)
	rnds := make([]*rand.Rand, nw)
	for i := range rnds {
		rnds[i] = rand.New(rand.NewPCG(c.Seed, uint64(i)+77))
	}
	maxPause := 1 + r.IntN(3000)
	hot := w.ser[r.IntN(len(w.ser))]
	for round := 0; round < rounds && !c.Failed(); round++ {
		for _, s := range w.ser {
			if s == hot || r.IntN(3) == 0 {
				record(rnds[0], s)
			}
		}
		for range 1 + r.IntN(2) {
			ks[r.IntN(len(ks))].collect()
		}
		// The next collection finds the sets idle while workers come back to them.
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < nw; i++ {
			rr := rnds[i]
			c.Go(&wg, func() {
				<-start
				for n := 1 + rr.IntN(3); n > 0; n-- {
					spin(rr.IntN(maxPause))
					s := hot
					if rr.IntN(4) == 0 {
						s = w.ser[rr.IntN(len(w.ser))]
					}
					record(rr, s)
				}
			})
		}
		nc := 1 + r.IntN(3)
		k := ks[r.IntN(len(ks))]
		c.Go(&wg, func() {
			<-start
			for range nc {
				k.collect()
			}
		})
		close(start)
		wg.Wait()
		c.Tick()
	}
	for range 2 {
		for _, k := range ks {
			k.collect()
		}
	}
	c.Count("idle_returns", int64(rounds))
}

var spinSink atomic.Uint64

func spin(n int) {
	x := uint64(n)
	for i := 0; i < n; i++ {
		x = x*6364136223846793005 + 1
	}
	spinSink.Store(x)
}

// pointsOf returns the points of a metric of the scope most tests use.
func (s *snap) pointsOf(name string) []spoint {
	pts, _ := s.find(concScope, name)
	return pts
}
