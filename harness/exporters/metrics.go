package main

import (
	"context"
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"time"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	motelcol "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

var allKinds = []sdkinstrument.Kind{
	sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncGauge, sdkinstrument.SyncHistogram,
	sdkinstrument.AsyncCounter, sdkinstrument.AsyncUpDownCounter, sdkinstrument.AsyncGauge,
}

// tee records what the reader hands to the exporter under test.
type tee struct {
	inner lmetric.PushExporter
	mu    sync.Mutex
	sent  mset
	n     int
	calls []string
	errs  []error
}

func (t *tee) String() string { return t.inner.String() }
func (t *tee) pre(what string, d *data.Metrics) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.sent == nil {
		t.sent = mset{}
	}
	t.calls = append(t.calls, what)
	t.n += expectedPoints(d, t.sent)
}
func (t *tee) post(err error) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.errs = append(t.errs, err)
	return err
}
func (t *tee) ExportMetrics(ctx context.Context, d data.Metrics) error {
	t.pre("export", &d)
	return t.post(t.inner.ExportMetrics(ctx, d))
}
func (t *tee) ForceFlushMetrics(ctx context.Context, d data.Metrics) error {
	t.pre("flush", &d)
	return t.post(t.inner.ForceFlushMetrics(ctx, d))
}
func (t *tee) ShutdownMetrics(ctx context.Context, d data.Metrics) error {
	t.pre("shutdown", &d)
	return t.post(t.inner.ShutdownMetrics(ctx, d))
}
func (t *tee) take() (mset, int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	s, n := t.sent, t.n
	t.sent, t.n = nil, 0
	return s, n
}

// canonAttr is how an attribute must appear in OTLP.
func canonAttr(kv attribute.KeyValue) string {
	var v string
	switch kv.Value.Type() {
	case attribute.BOOL:
		v = fmt.Sprintf("b:%v", kv.Value.AsBool())
	case attribute.INT64:
		v = fmt.Sprintf("i:%d", kv.Value.AsInt64())
	case attribute.FLOAT64:
		v = fmt.Sprintf("d:%x", math.Float64bits(kv.Value.AsFloat64()))
	case attribute.STRING:
		v = fmt.Sprintf("s:%q", kv.Value.AsString())
	case attribute.BOOLSLICE:
		var p []string
		for _, x := range kv.Value.AsBoolSlice() {
			p = append(p, fmt.Sprintf("b:%v", x))
		}
		v = "[" + strings.Join(p, " ") + "]"
	case attribute.INT64SLICE:
		var p []string
		for _, x := range kv.Value.AsInt64Slice() {
			p = append(p, fmt.Sprintf("i:%d", x))
		}
		v = "[" + strings.Join(p, " ") + "]"
	case attribute.FLOAT64SLICE:
		var p []string
		for _, x := range kv.Value.AsFloat64Slice() {
			p = append(p, fmt.Sprintf("d:%x", math.Float64bits(x)))
		}
		v = "[" + strings.Join(p, " ") + "]"
	case attribute.STRINGSLICE:
		var p []string
		for _, x := range kv.Value.AsStringSlice() {
			p = append(p, fmt.Sprintf("s:%q", x))
		}
		v = "[" + strings.Join(p, " ") + "]"
	}
	if kv.Value.Type() == attribute.INVALID {
		v = "empty"
	}
	return fmt.Sprintf("%q=%s", string(kv.Key), v)
}

func canonAttrs(kvs []attribute.KeyValue) string {
	m := map[attribute.Key]attribute.KeyValue{}
	for _, kv := range kvs {
		m[kv.Key] = kv
	}
	var p []string
	for _, kv := range m {
		p = append(p, canonAttr(kv))
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

func setAttrs(s *attribute.Set) string {
	var p []string
	for it := s.Iter(); it.Next(); {
		p = append(p, canonAttr(it.Attribute()))
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

func tempoName(t aggregation.Temporality) string {
	if t == aggregation.DeltaTemporality {
		return "Delta"
	}
	return "Cumulative"
}

// expectedPoints renders collected data the way it must arrive.
func expectedPoints(d *data.Metrics, out mset) int {
	n := 0
	res := ""
	if d.Resource != nil {
		res = canonAttrs(d.Resource.Attributes())
	}
	s := takeSnap(d)
	for i := range s.scopes {
		sc := &s.scopes[i]
		scope := fmt.Sprintf("%q %q %q", sc.lib.Name, sc.lib.Version, sc.lib.SchemaURL)
		for j := range sc.insts {
			in := &sc.insts[j]
			hd := fmt.Sprintf("res{%s} scope{%s} metric{%q %q %q} ", res, scope, in.desc.Name, in.desc.Unit, in.desc.Description)
			for k := range in.points {
				p := &in.points[k]
				n++
				num := func() string {
					if in.desc.NumberKind == number.Int64Kind {
						return fmt.Sprintf("int %d", p.val.i)
					}
					return "double " + fl(p.val.f)
				}
				at := setAttrs(&p.set)
				st, en := p.start.UnixNano(), p.end.UnixNano()
				mm := ""
				if p.count != 0 {
					mm = "min " + fl(p.min.float()) + " max " + fl(p.max.float())
				}
				switch p.kind {
				case aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind:
					out.add(hd + fmt.Sprintf("sum mono=%v %v [%d,%d] {%s} %s", p.kind == aggregation.MonotonicSumKind, tempoName(p.tempo), st, en, at, num()))
				case aggregation.GaugeKind:
					out.add(hd + fmt.Sprintf("gauge [%d] {%s} %s", en, at, num()))
				case aggregation.HistogramKind:
					out.add(hd + fmt.Sprintf("exphist %v [%d,%d] {%s} count=%d sum=%s zero=%d scale=%d pos=%v neg=%v %s", tempoName(p.tempo), st, en, at,
						p.count, fl(p.val.float()), p.zero, p.scale, p.pos, p.neg, mm))
				case aggregation.MinMaxSumCountKind:
					out.add(hd + fmt.Sprintf("hist %v [%d,%d] {%s} count=%d sum=%s buckets=0 %s", tempoName(p.tempo), st, en, at, p.count, fl(p.val.float()), mm))
				default:
					out.add(hd + "unknown aggregation")
				}
			}
		}
	}
	return n
}

// ---- generation

func word(r *rand.Rand) string {
	return []string{"", "x", "some value", "ünïcödé ☃", "a\"b\\c\n", strings.Repeat("long", 40), "true", "1"}[r.IntN(8)]
}

func genVal(r *rand.Rand, invalid bool) attribute.Value {
	fs := []float64{0, 1.5, -2.25, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1)}
	is := []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 42}
	n := 8
	if invalid {
		n = 9
	}
	switch r.IntN(n) {
	case 0:
		return attribute.BoolValue(r.IntN(2) == 0)
	case 1:
		return attribute.Int64Value(is[r.IntN(len(is))])
	case 2:
		return attribute.Float64Value(fs[r.IntN(len(fs))])
	case 3:
		return attribute.StringValue(word(r))
	case 4:
		return attribute.BoolSliceValue([]bool{true, false, true}[:r.IntN(4)])
	case 5:
		k := r.IntN(len(is))
		return attribute.Int64SliceValue(is[:k])
	case 6:
		k := r.IntN(len(fs))
		return attribute.Float64SliceValue(fs[:k])
	case 7:
		var ss []string
		for i, k := 0, r.IntN(4); i < k; i++ {
			ss = append(ss, word(r))
		}
		return attribute.StringSliceValue(ss)
	}
	return attribute.Value{}
}

func genKVs(r *rand.Rand, mx int, invalid bool) []attribute.KeyValue {
	var kvs []attribute.KeyValue
	for i, n := 0, r.IntN(mx+1); i < n; i++ {
		kvs = append(kvs, attribute.KeyValue{Key: attribute.Key(fmt.Sprintf("k%d", r.IntN(6))), Value: genVal(r, invalid && r.IntN(8) == 0)})
	}
	return kvs
}

func genValue(r *rand.Rand, k sdkinstrument.Kind, nk number.Kind) num {
	neg := k == sdkinstrument.SyncUpDownCounter || k == sdkinstrument.AsyncUpDownCounter || k == sdkinstrument.SyncGauge || k == sdkinstrument.AsyncGauge || k == sdkinstrument.AsyncCounter
	if nk == number.Int64Kind {
		// None of the largest is next to a power of two, where the
		// histogram library is known to fail (see known findings).
		v := []int64{0, 1, 7, int64(r.IntN(1000)), r.Int64N(1 << 40), 1 << 53, (math.MaxInt64 >> uint(3+r.IntN(20))) &^ (1<<30 - 1)}[r.IntN(7)]
		if neg && r.IntN(2) == 0 {
			v = -v
		}
		return inum(v)
	}
	v := []float64{0, 1, 0.1, r.Float64() * 1000, math.Ldexp(r.Float64(), r.IntN(200)-100), 1e300, 1e-300, math.SmallestNonzeroFloat64}[r.IntN(8)]
	if neg && r.IntN(2) == 0 {
		v = -v
	}
	return fnum(v)
}

// env is the endpoint and the exporter shared by the cases of a process.
type env struct {
	col *collector
	exp lmetric.PushExporter
	use int
}

func newMetricExporter(col *collector, self bool, opts ...motelcol.Option) lmetric.PushExporter {
	o := append([]motelcol.Option{motelcol.WithEndpoint(col.addr), motelcol.WithInsecure(), func(c *motelcol.Config) {
		c.SelfMetrics, c.SelfSpans = self, self
	}}, opts...)
	e, err := motelcol.NewExporter(context.Background(), motelcol.NewConfig(o...))
	if err != nil {
		panic(err)
	}
	return e
}

// metricWorld is a provider exporting through a tee.
type metricWorld struct {
	c   *hz.Case
	p   *lmetric.MeterProvider
	t   *tee
	ins []*inst
	r   *rand.Rand
	obs map[int][]obsv
	omu sync.Mutex
}

type obsv struct {
	v   num
	kvs []attribute.KeyValue
}

func newMetricWorld(c *hz.Case, r *rand.Rand, exp lmetric.PushExporter, res *resource.Resource, interval time.Duration, wild bool) *metricWorld {
	w := &metricWorld{c: c, r: r, t: &tee{inner: exp}, obs: map[int][]obsv{}}
	var tempo [16]aggregation.Temporality
	for i := range tempo {
		tempo[i] = []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}[r.IntN(2)]
	}
	vo := []view.Option{view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality { return tempo[k] })}
	if wild && r.IntN(2) == 0 {
		var agg [16]aggregation.Kind
		for i := range agg {
			agg[i] = []aggregation.Kind{aggregation.AnySumKind, aggregation.HistogramKind, aggregation.MinMaxSumCountKind}[r.IntN(3)]
		}
		vo = append(vo, view.WithDefaultAggregationKindSelector(func(k sdkinstrument.Kind) aggregation.Kind {
			if k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram {
				return agg[k]
			}
			return view.StandardAggregationKind(k)
		}))
	}
	w.p = lmetric.NewMeterProvider(lmetric.WithResource(res), lmetric.WithReader(lmetric.NewPeriodicReader(w.t, interval), vo...))
	for i, n := 0, 1+r.IntN(8); i < n; i++ {
		m := w.p.Meter(fmt.Sprintf("scope%d", r.IntN(3)), metric.WithInstrumentationVersion([]string{"", "v1"}[r.IntN(2)]), metric.WithSchemaURL([]string{"", "http://schema"}[r.IntN(2)]))
		in, err := create(m, allKinds[r.IntN(len(allKinds))], []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)],
			fmt.Sprintf("metric.%d", i), []string{"", "what it is", "ünï"}[r.IntN(3)], []string{"", "By", "{x}/s"}[r.IntN(3)])
		if err != nil {
			c.Violate(nil, "create: %v", err)
		}
		w.ins = append(w.ins, in)
		if !in.kind.Synchronous() {
			_, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
				w.omu.Lock()
				defer w.omu.Unlock()
				for _, x := range w.obs[i] {
					in.observe(o, x.v, x.kvs)
				}
				return nil
			}, in.observable())
			if err != nil {
				c.Violate(nil, "RegisterCallback: %v", err)
			}
		}
	}
	return w
}

// step makes some measurements.
func (w *metricWorld) step(n int, invalid bool) {
	r := w.r
	for i, in := range w.ins {
		if !in.kind.Synchronous() {
			var os []obsv
			for j, k := 0, r.IntN(4); j < k; j++ {
				os = append(os, obsv{genValue(r, in.kind, in.nk), genKVs(r, 3, invalid)})
			}
			w.omu.Lock()
			w.obs[i] = os
			w.omu.Unlock()
		}
	}
	for k := 0; k < n; k++ {
		in := w.ins[r.IntN(len(w.ins))]
		if in.kind.Synchronous() {
			in.record(context.Background(), genValue(r, in.kind, in.nk), path(r.IntN(3)), genKVs(r, 4, invalid))
		}
	}
}

// wide records more distinct sets than fit in one request.
func (w *metricWorld) wide(n int) {
	for _, in := range w.ins {
		if in.kind.Synchronous() {
			for k := 0; k < n; k++ {
				in.record(context.Background(), genValue(w.r, in.kind, in.nk), viaFast, []attribute.KeyValue{attribute.Int("i", k)})
			}
		}
	}
}

func genResource(r *rand.Rand) *resource.Resource {
	switch r.IntN(4) {
	case 0:
		return resource.Empty()
	}
	return resource.NewSchemaless(append(genKVs(r, 5, false), attribute.String("service.name", fmt.Sprintf("svc%d", r.IntN(3))))...)
}

// metricFidelity: what arrives at the endpoint is what was collected.
func metricFidelity() func(c *hz.Case) {
	var e *env
	return func(c *hz.Case) {
		r := c.R
		if e == nil {
			e = &env{col: newCollector("")}
		}
		if e.exp == nil || e.use > 20 {
			if e.exp != nil {
				_ = e.exp.ShutdownMetrics(context.Background(), data.Metrics{Resource: resource.Empty()})
				e.col.takeMetrics()
			}
			comp := []string{"zstd", "gzip", "none", "snappy"}[r.IntN(4)]
			e.exp, e.use = newMetricExporter(e.col, false, motelcol.WithCompressor(comp)), 0
		}
		e.use++
		var ws []*metricWorld
		for i, n := 0, 1+r.IntN(2); i < n; i++ {
			ws = append(ws, newMetricWorld(c, r, noShutdown{e.exp}, genResource(r), time.Hour, true))
		}
		for k, n := 0, 1+r.IntN(4); k < n && !c.Failed(); k++ {
			want := mset{}
			npts := 0
			for _, w := range ws {
				w.step(r.IntN(30), true)
				if r.IntN(25) == 0 {
					w.wide(800 + r.IntN(1500))
				}
			}
			// exports of the providers sharing the exporter may overlap
			var wg sync.WaitGroup
			for _, w := range ws {
				c.Go(&wg, func() {
					var err error
					if k == n-1 {
						err = w.p.Shutdown(context.Background())
					} else {
						err = w.p.ForceFlush(context.Background())
					}
					if err != nil {
						c.Violate(nil, "export to a healthy endpoint failed: %v", err)
					}
				})
			}
			wg.Wait()
			for _, w := range ws {
				s, m := w.t.take()
				for x, y := range s {
					want[x] += y
				}
				npts += m
			}
			got, bad := receivedPoints(e.col.takeMetrics())
			c.Eval(npts + 1)
			c.Count("points compared", int64(npts))
			for x := range want {
				c.Distinct(x[strings.LastIndex(x, "} ")+2:])
			}
			for _, b := range bad {
				c.Violate(nil, "%s", b)
			}
			if npts > 1000 {
				// the batch processor of the collector framework does not
				// keep the schema URL of a scope when it splits a request
				want, got = want.withoutSchema(), got.withoutSchema()
				c.Count("rounds split over several requests", 1)
			}
			missing, extra := want.diff(got)
			if len(missing)+len(extra) > 0 {
				c.Violate(map[string]any{"missing": head(missing, 5), "unexpected": head(extra, 5)}, "%d of %d points did not arrive as collected, %d unexpected points arrived; first missing: %s", len(missing), npts, len(extra), strings.Join(head(missing, 1), ""))
			}
		}
		if strings.HasSuffix(c.Name, "/0") {
			c.Sample(map[string]any{"providers": len(ws), "instruments": len(ws[0].ins)})
		}
	}
}

// noShutdown keeps a shared exporter alive.
type noShutdown struct{ lmetric.PushExporter }

func (n noShutdown) ShutdownMetrics(ctx context.Context, d data.Metrics) error {
	return n.PushExporter.ForceFlushMetrics(ctx, d)
}

var _ = pcommon.NewTimestampFromTime
