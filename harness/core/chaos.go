package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

// canonSnap renders a snapshot without its timestamps and with points in a
// canonical order.
func canonSnap(s *snap, times bool) string {
	var b strings.Builder
	for i := range s.scopes {
		fmt.Fprintf(&b, "scope %v\n", s.scopes[i].lib)
		for j := range s.scopes[i].insts {
			in := &s.scopes[i].insts[j]
			fmt.Fprintf(&b, " inst %+v\n", in.desc)
			var lines []string
			for _, p := range in.points {
				l := fmt.Sprintf("  {%s} %v %v mono=%v val=%v count=%d min=%v max=%v zero=%d scale=%d pos=%v neg=%v",
					p.attrs, p.tempo, p.kind, p.mono, p.val, p.count, p.min, p.max, p.zero, p.scale, p.pos, p.neg)
				if times {
					l += fmt.Sprint(p.start.UnixNano(), p.end.UnixNano())
				}
				lines = append(lines, l)
			}
			sort.Strings(lines)
			b.WriteString(strings.Join(lines, "\n"))
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// reuseTwins drives two providers through one history; one reader of each
// pair re-uses its output memory, the other never does.
func reuseTwins(c *hz.Case) {
	r := c.R
	type twin struct {
		p   *lmetric.MeterProvider
		rd  []*lmetric.ManualReader
		mem []*data.Metrics
		in  []*inst
	}
	// A previous result may be another reader's, and the caller may have
	// rearranged it.
	shared, rearranged := r.IntN(3) == 0, r.IntN(3) == 0
	foreign := r.IntN(3) == 0 // or another provider's
	histograms := (shared || rearranged) && r.IntN(3) == 0
	nr := 1 + r.IntN(2)
	var specs []readerSpec
	pr := profile{kinds: allKinds, maxClauses: 2, simple: true}
	if histograms {
		pr.kinds = []sdkinstrument.Kind{sdkinstrument.SyncHistogram}
	}
	for i := 0; i < nr; i++ {
		rs := readerSpec{tempo: genTempo(r)}
		for j, n := 0, r.IntN(3); j < n; j++ {
			// No key filters: which of several merged sets is merged last
			// is not determined, so twins may differ.
			cl := genClause(r, j, &pr)
			cl.keys = nil
			rs.clauses = append(rs.clauses, cl)
		}
		if histograms {
			for _, re := range []string{"^a", "^[^a]"} {
				rs.clauses = append(rs.clauses, clauseSpec{kind: -1, nk: -1, re: re, maxSize: int32(r.IntN(2) * (2 + r.IntN(20)))})
			}
		}
		specs = append(specs, rs)
	}
	perf := sdkinstrument.Performance{InactiveCollectionPeriods: uint32(1 + r.IntN(3))}
	var kinds []sdkinstrument.Kind
	var nks []number.Kind
	for i, n := 0, 1+r.IntN(5); i < n; i++ {
		kinds = append(kinds, pr.kinds[r.IntN(len(pr.kinds))])
		nks = append(nks, []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)])
	}
	type ob struct {
		inst int
		v    num
		kvs  []attribute.KeyValue
	}
	var plan []ob
	build := func() *twin {
		t := &twin{}
		opts := []lmetric.Option{lmetric.WithPerformance(perf)}
		for i := range specs {
			rd := lmetric.NewManualReader(readerName(c, i))
			t.rd = append(t.rd, rd)
			mem := &data.Metrics{}
			if foreign {
				mem.Resource = resource.NewSchemaless(attribute.String("of", "another"))
			}
			t.mem = append(t.mem, mem)
			opts = append(opts, lmetric.WithReader(rd, specs[i].options()...))
		}
		t.p = lmetric.NewMeterProvider(opts...)
		for i, k := range kinds {
			in, _ := create(t.p.Meter(fmt.Sprint("m", i%2)), k, nks[i], instNames[i%len(instNames)]+fmt.Sprint(i), "", "")
			t.in = append(t.in, in)
			if !k.Synchronous() {
				_, _ = t.p.Meter(fmt.Sprint("m", i%2)).RegisterCallback(func(_ context.Context, o metric.Observer) error {
					for _, x := range plan {
						if x.inst == i {
							in.observe(o, x.v, x.kvs)
						}
					}
					return nil
				}, in.observable())
			}
		}
		return t
	}
	fresh, reuse := build(), build()
	ctx := context.Background()
	if shared {
		for i := range reuse.mem {
			reuse.mem[i] = reuse.mem[0]
		}
	}
	type kept struct {
		out  data.Metrics
		snap string
		at   int
	}
	var old []kept
	attrs := func() []attribute.KeyValue {
		return []attribute.KeyValue{attribute.Int("a", r.IntN(2+r.IntN(8))), attribute.String("b", fmt.Sprintf("v%d", r.IntN(2)))}[:r.IntN(3)]
	}
	var hist []string
	for op, n := 0, 20+r.IntN(80); op < n && !c.Failed(); op++ {
		if r.IntN(4) != 0 {
			// burst of one instrument so that point counts vary between collections
			i := r.IntN(len(kinds))
			if !kinds[i].Synchronous() {
				continue
			}
			for j, m := 0, 1+r.IntN(6); j < m; j++ {
				v, kvs := genNum(r, kinds[i], nks[i], false), attrs()
				fresh.in[i].record(ctx, v, viaOptions, kvs)
				reuse.in[i].record(ctx, v, viaOptions, kvs)
				if len(hist) < 300 {
					hist = append(hist, fmt.Sprintf("rec %d %v {%s}", i, v, canonListRaw(kvs)))
				}
			}
			continue
		}
		plan = nil
		for i, k := range kinds {
			if !k.Synchronous() {
				for j, m := 0, r.IntN(5); j < m; j++ {
					plan = append(plan, ob{i, genNum(r, k, nks[i], false), attrs()})
				}
			}
		}
		ri := r.IntN(nr)
		hist = append(hist, fmt.Sprintf("collect %d", ri))
		out := fresh.rd[ri].Produce(nil)
		a := takeSnap(&out)
		if rearranged {
			rearrange(r, reuse.mem[ri])
		}
		b := produce(reuse.rd[ri], reuse.mem[ri])
		ca, cb := canonSnap(a, false), canonSnap(b, false)
		c.Eval(2)
		if a.res != b.res {
			c.Violate(map[string]any{"history": hist}, "with re-used memory reader %d reports the resource %q instead of %q", ri, b.res, a.res)
			return
		}
		if ca != cb {
			c.Violate(map[string]any{"fresh": ca, "reused": cb, "history": hist}, "re-using output memory changed what reader %d reports", ri)
			return
		}
		c.Distinct(ca)
		// Every point of one collection has consistent, current timestamps.
		for i := range b.scopes {
			for j := range b.scopes[i].insts {
				for _, p := range b.scopes[i].insts[j].points {
					if p.end.Before(b.before) || p.end.After(b.after) {
						c.Violate(map[string]any{"history": hist}, "re-used output has a point ending outside the collection")
					}
				}
			}
		}
		if len(old) < 12 {
			old = append(old, kept{out, canonSnap(a, true), op})
		}
		for _, k := range old {
			c.Eval(1)
			if now := canonSnap(takeSnap(&k.out), true); now != k.snap {
				c.Violate(map[string]any{"then": k.snap, "now": now, "history": hist}, "output of the collection at step %d changed after it was returned (now step %d)", k.at, op)
				return
			}
		}
	}
}

// rearrange reorders what a collection returned.
func rearrange(r *rand.Rand, m *data.Metrics) {
	r.Shuffle(len(m.Scopes), func(i, j int) { m.Scopes[i], m.Scopes[j] = m.Scopes[j], m.Scopes[i] })
	for i := range m.Scopes {
		ins := m.Scopes[i].Instruments
		r.Shuffle(len(ins), func(i, j int) { ins[i], ins[j] = ins[j], ins[i] })
		for j := range ins {
			pts := ins[j].Points
			r.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
		}
	}
}

// reuseConc keeps outputs obtained without re-use while recorders and other
// collections run; the outputs must stay as they were.
func reuseConc(c *hz.Case) {
	r := c.R
	tempo := []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}
	var rds []*lmetric.ManualReader
	var opts []lmetric.Option
	for i := 0; i < 2; i++ {
		rd := lmetric.NewManualReader(readerName(c, i))
		rds = append(rds, rd)
		t := tempo[r.IntN(2)]
		opts = append(opts, lmetric.WithReader(rd, view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return t })))
	}
	p := lmetric.NewMeterProvider(opts...)
	var ins []*inst
	for i, k := range syncKinds {
		in, _ := create(p.Meter("m"), k, []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)], fmt.Sprint("i", i), "", "")
		ins = append(ins, in)
	}
	var wg sync.WaitGroup
	var stop atomic.Bool
	for i := 0; i < 3; i++ {
		c.Go(&wg, func() {
			rr := rand.New(rand.NewPCG(c.Seed, uint64(i)))
			for !stop.Load() {
				in := ins[rr.IntN(len(ins))]
				in.record(context.Background(), toNum(in.nk, int64(rr.IntN(100000))), path(rr.IntN(3)), []attribute.KeyValue{attribute.Int("a", rr.IntN(3))})
				c.Tick()
			}
		})
	}
	type kept struct {
		out  data.Metrics
		snap string
	}
	var cg sync.WaitGroup
	for ri, rd := range rds {
		c.Go(&cg, func() {
			var old []kept
			for n := 0; n < 25 && !c.Failed(); n++ {
				out := rd.Produce(nil)
				old = append(old, kept{out, canonSnap(takeSnap(&out), true)})
				runtime.Gosched()
				for _, k := range old {
					c.Eval(1)
					if now := canonSnap(takeSnap(&k.out), true); now != k.snap {
						c.Violate(map[string]any{"then": k.snap, "now": now}, "reader %d: an output changed after it was returned, while recording went on", ri)
						return
					}
				}
				c.Distinct(old[n].snap)
			}
		})
	}
	cg.Wait()
	stop.Store(true)
	wg.Wait()
}

// createConc has several goroutines create the same instruments at once, and
// record through every handle.
func createConc(c *hz.Case) {
	r := c.R
	var rds []*lmetric.ManualReader
	var opts []lmetric.Option
	for i, n := 0, 1+r.IntN(2); i < n; i++ {
		rd := lmetric.NewManualReader(readerName(c, i))
		rds = append(rds, rd)
		opts = append(opts, lmetric.WithReader(rd, view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality })))
	}
	p := lmetric.NewMeterProvider(opts...)
	// variants: a name with several kinds, units, descriptions
	type variant struct {
		name, desc, unit string
		kind             sdkinstrument.Kind
		nk               number.Kind
	}
	var vs []variant
	for i, n := 0, 1+r.IntN(4); i < n; i++ {
		vs = append(vs, variant{
			name: fmt.Sprintf("n%d", r.IntN(2)), desc: []string{"", "d", "a longer d"}[r.IntN(3)], unit: []string{"", "ms"}[r.IntN(2)],
			kind: syncKinds[r.IntN(2)], nk: []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)],
		})
	}
	same := func(a, b variant) bool { // semantically identical: description may differ
		return a.name == b.name && a.unit == b.unit && a.kind == b.kind && a.nk == b.nk
	}
	nw := 2 + r.IntN(4)
	total := make([]atomic.Int64, len(vs))
	errs := make([]atomic.Int64, len(vs))
	var start sync.WaitGroup
	start.Add(1)
	var wg, cg sync.WaitGroup
	var stop atomic.Bool
	acc := make([]map[string]int64, len(rds))
	lens := make([]map[string]string, len(rds))
	collect := func(ri int) {
		s := produce(rds[ri], nil)
		if len(s.scopes) > 1 {
			c.Violate(nil, "%d scopes reported for one meter identity", len(s.scopes))
		}
		for i := range s.scopes {
			seen := map[string]bool{}
			for j := range s.scopes[i].insts {
				in := &s.scopes[i].insts[j]
				key := fmt.Sprintf("%s|%s|%v|%v", in.desc.Name, in.desc.Unit, in.desc.Kind, in.desc.NumberKind)
				if seen[key] {
					c.Violate(nil, "reader %d: metric %s reported twice in one collection", ri, key)
				}
				seen[key] = true
				for _, pt := range in.points {
					v, _ := fromNum(pt.val)
					if len(in.points) != 1 {
						c.Violate(nil, "reader %d: metric %s has %d points, want 1", ri, key, len(in.points))
					}
					acc[ri][key] += v
				}
				lens[ri][key] = in.desc.Description
			}
		}
		c.Eval(1)
	}
	for i := 0; i < nw; i++ {
		seed := r.Uint64()
		c.Go(&wg, func() {
			rr := rand.New(rand.NewPCG(seed, 1))
			order := rr.Perm(len(vs))
			start.Wait()
			for _, vi := range order {
				v := vs[vi]
				in, err := create(p.Meter("scope"), v.kind, v.nk, v.name, v.desc, v.unit)
				if err != nil {
					errs[vi].Add(1)
					if !isConflict(err) {
						c.Violate(nil, "creating an instrument failed with %v (%T)", err, err)
					}
					_ = err.Error()
				}
				for k, n := 0, 1+rr.IntN(3); k < n; k++ {
					x := int64(1 + rr.IntN(5))
					in.record(context.Background(), toNum(v.nk, x), viaOptions, nil)
					total[vi].Add(x)
				}
				c.Tick()
			}
		})
	}
	for ri := range rds {
		acc[ri] = map[string]int64{}
		lens[ri] = map[string]string{}
		c.Go(&cg, func() {
			start.Wait()
			for !stop.Load() {
				collect(ri)
				runtime.Gosched()
			}
		})
	}
	start.Done()
	wg.Wait()
	stop.Store(true)
	cg.Wait()
	for ri := range rds {
		collect(ri)
		want := map[string]int64{}
		desc := map[string]string{}
		for vi, v := range vs {
			k := fmt.Sprintf("%s|%s|%v|%v", v.name, v.unit, v.kind, v.nk)
			want[k] += total[vi].Load()
			if len(v.desc) >= len(desc[k]) {
				desc[k] = v.desc
			}
		}
		c.Eval(len(want))
		if !reflect.DeepEqual(want, acc[ri]) {
			c.Violate(map[string]any{"variants": fmt.Sprint(vs)}, "reader %d: totals %v, recorded %v", ri, acc[ri], want)
		}
		if !reflect.DeepEqual(desc, lens[ri]) {
			c.Violate(map[string]any{"variants": fmt.Sprint(vs)}, "reader %d: descriptions %v, want the longest of the registered ones %v", ri, lens[ri], desc)
		}
	}
	// Conflicts: a creation that conflicts with nothing gives no error; once all
	// variants are registered, re-creating any conflicting one reports it.
	for vi, v := range vs {
		conf := false
		for _, o := range vs {
			if o.name == v.name && !same(o, v) {
				conf = true
			}
		}
		c.Eval(1)
		if !conf && errs[vi].Load() != 0 {
			c.Violate(map[string]any{"variants": fmt.Sprint(vs)}, "variant %v conflicts with no other but creating it failed", v)
		}
		_, err := create(p.Meter("scope"), v.kind, v.nk, v.name, v.desc, v.unit)
		if conf != (err != nil) {
			c.Violate(map[string]any{"variants": fmt.Sprint(vs)}, "re-creating %v: conflict expected %v, got %v", v, conf, err)
		}
	}
	c.Distinct(fmt.Sprint(vs), nw)
}

func isConflict(err error) bool {
	var x interface{ Is(error) bool }
	_ = errors.As(err, &x)
	t := fmt.Sprintf("%T", err)
	return strings.Contains(t, "ViewConflict") || strings.Contains(t, "viewstate")
}

// chaos mixes every public operation; the verdicts are the race detector, the
// absence of panics and hangs, and conservation of one counter.
func chaos(c *hz.Case) {
	r := c.R
	var rds []*lmetric.ManualReader
	var opts []lmetric.Option
	tempo := []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}
	var tempos []aggregation.Temporality
	for i, n := 0, 1+r.IntN(3); i < n; i++ {
		rd := lmetric.NewManualReader(readerName(c, i))
		rds = append(rds, rd)
		t := tempo[r.IntN(2)]
		tempos = append(tempos, t)
		vo := []view.Option{view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return t })}
		if r.IntN(2) == 0 {
			vo = append(vo, view.WithClause(view.MatchInstrumentName("x1"), view.WithKeys([]attribute.Key{"a"}), view.WithName("renamed")))
			vo = append(vo, view.WithClause(view.MatchInstrumentKind(sdkinstrument.SyncHistogram), view.WithAggregation(aggregation.MinMaxSumCountKind)))
		}
		opts = append(opts, lmetric.WithReader(rd, vo...))
	}
	var clock atomic.Int64
	exp := &recExporter{name: "chaos", clock: &clock, seed: c.Seed, metric: "x0", failPct: 20}
	opts = append(opts, lmetric.WithReader(lmetric.NewPeriodicReader(exp, time.Duration(100+r.IntN(900))*time.Microsecond),
		view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality })))
	perf := sdkinstrument.Performance{InactiveCollectionPeriods: uint32(1 + r.IntN(2))}
	if r.IntN(2) == 0 {
		perf.InstrumentCardinalityLimit = 6
		perf.AggregatorCardinalityLimit = 5
	}
	if r.IntN(2) == 0 {
		perf.MeasurementProcessor = tagProcessor{}
	}
	opts = append(opts, lmetric.WithPerformance(perf))
	p := lmetric.NewMeterProvider(opts...)
	base, _ := create(p.Meter("m0"), sdkinstrument.SyncCounter, number.Int64Kind, "x0", "", "")
	var begun, done atomic.Int64
	var wg, cg sync.WaitGroup
	var stop atomic.Bool
	nw := 3 + r.IntN(3)
	for i := 0; i < nw; i++ {
		seed := r.Uint64()
		c.Go(&wg, func() {
			rr := rand.New(rand.NewPCG(seed, 2))
			var regs []metric.Registration
			for k := 0; k < 150 && !c.Failed(); k++ {
				switch rr.IntN(12) {
				case 0:
					m := p.Meter(fmt.Sprintf("m%d", rr.IntN(2)), metric.WithInstrumentationVersion([]string{"", "1"}[rr.IntN(2)]))
					in, err := create(m, allKinds[rr.IntN(len(allKinds))], []number.Kind{number.Int64Kind, number.Float64Kind}[rr.IntN(2)],
						fmt.Sprintf("x%d", 1+rr.IntN(4)), []string{"", "d", `{"aggregation":"minmaxsumcount"}`, "longer description"}[rr.IntN(4)], "")
					if err != nil {
						_ = err.Error()
					}
					if in.kind.Synchronous() {
						for j := 0; j < 5; j++ {
							in.record(context.Background(), toNum(in.nk, int64(rr.IntN(50))), path(rr.IntN(3)),
								[]attribute.KeyValue{attribute.Int("a", rr.IntN(4)), attribute.String("b", "y")})
						}
					} else if ob := in.observable(); ob != nil && !reflect.ValueOf(ob).IsZero() {
						var n atomic.Int64
						reg, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
							in.observe(o, toNum(in.nk, n.Add(1)), []attribute.KeyValue{attribute.Int("a", int(n.Load()%3))})
							return nil
						}, ob)
						if err == nil {
							regs = append(regs, reg)
						}
					}
				case 1:
					if len(regs) > 0 {
						reg := regs[len(regs)-1]
						regs = regs[:len(regs)-1]
						var g sync.WaitGroup
						var oks atomic.Int32
						for j := 0; j < 2; j++ {
							c.Go(&g, func() {
								if reg.Unregister() == nil {
									oks.Add(1)
								}
							})
						}
						g.Wait()
						if oks.Load() != 1 {
							c.Violate(nil, "two concurrent Unregister calls: %d succeeded, want 1", oks.Load())
						}
					}
				case 2:
					_ = p.ForceFlush(context.Background())
				default:
					begun.Add(1)
					base.record(context.Background(), inum(1), path(rr.IntN(3)), []attribute.KeyValue{attribute.Int("a", rr.IntN(5)), attribute.Int("z", rr.IntN(2))}[:rr.IntN(3)])
					done.Add(1)
				}
				c.Tick()
			}
		})
	}
	acc := make([]int64, len(rds))
	collect := func(ri int, mem *data.Metrics) {
		lo := done.Load()
		s := produce(rds[ri], mem)
		hi := begun.Load()
		pts, _ := s.find("m0", "x0")
		var sum int64
		for _, pt := range pts {
			sum += pt.val.i
		}
		if tempos[ri] == aggregation.DeltaTemporality {
			acc[ri] += sum
		} else {
			acc[ri] = sum
		}
		c.Eval(1)
		c.Distinct(ri, sum, len(pts))
		if acc[ri] < lo || acc[ri] > hi {
			c.Violate(nil, "reader %d (%v): %d measurements reported, %d completed before and %d begun", ri, tempos[ri], acc[ri], lo, hi)
		}
	}
	for ri := range rds {
		var mem *data.Metrics
		if r.IntN(2) == 0 {
			mem = &data.Metrics{}
		}
		c.Go(&cg, func() {
			for !stop.Load() {
				collect(ri, mem)
				runtime.Gosched()
			}
		})
	}
	wg.Wait()
	stop.Store(true)
	cg.Wait()
	for ri := range rds {
		collect(ri, nil)
		if acc[ri] != done.Load() {
			c.Violate(nil, "reader %d: %d measurements reported in the end, %d made", ri, acc[ri], done.Load())
		}
	}
	if err := p.Shutdown(context.Background()); errors.Is(err, lmetric.ErrAlreadyShutdown) {
		c.Violate(nil, "first Shutdown: %v", err)
	}
	var total int64
	for _, ev := range exp.log() {
		total += ev.sum
	}
	if total != done.Load() {
		c.Violate(nil, "push exporter got %d measurements in total, %d made", total, done.Load())
	}
}
