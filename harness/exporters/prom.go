package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lightstep/go-expohisto/structure"
	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/prom"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"github.com/prometheus/common/expfmt"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"

	dto "github.com/prometheus/client_model/go"
)

// promServer is a Prometheus exporter on a free port.
type promServer struct {
	exp  lmetric.PushExporter
	port int
}

func newProm() *promServer { return newPromSelf(false) }

func newPromSelf(self bool) *promServer {
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "0.0.0.0:0")
		if err != nil {
			panic(err)
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		exp, err := prom.NewExporter(context.Background(), prom.NewConfig(prom.WithPort(port), func(c *prom.Config) { c.SelfMetrics, c.SelfSpans = self, self }))
		if err == nil {
			return &promServer{exp: exp, port: port}
		}
		if try > 20 {
			panic(err)
		}
	}
}

var promClient = &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 8}}

func (p *promServer) scrape() (map[string]*dto.MetricFamily, error) {
	resp, err := promClient.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", p.port))
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
	if resp.StatusCode != 200 {
		return nil, fmt.Errorf("status %d: %s", resp.StatusCode, b[:min(len(b), 300)])
	}
	var tp expfmt.TextParser
	return tp.TextToMetricFamilies(bytes.NewReader(b))
}

func promLabels(res *resource.Resource, kvs []attribute.KeyValue) string {
	m := map[string]string{}
	put := func(k, v string) { m[strings.ReplaceAll(k, ".", "_")] = v }
	for _, kv := range res.Attributes() {
		put(string(kv.Key), kv.Value.Emit())
		if kv.Key == "service.name" {
			put("job", kv.Value.Emit())
		}
	}
	for _, kv := range kvs {
		put(string(kv.Key), kv.Value.Emit())
	}
	var ks []string
	for k, v := range m {
		if v != "" { // an empty label is an absent label
			ks = append(ks, fmt.Sprintf("%s=%q", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func dtoLabels(m *dto.Metric) string {
	var ks []string
	for _, l := range m.GetLabel() {
		if l.GetValue() != "" {
			ks = append(ks, fmt.Sprintf("%s=%q", l.GetName(), l.GetValue()))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// promSeries is what was measured for one attribute set.
type promSeries struct {
	vals []float64
	isum int64
	last float64
}

type promInst struct {
	in   *inst
	name string
	agg  aggregation.Kind
	set  map[string]*promSeries
	obs  []obsv
	size int32 // maximum number of buckets
	// values are spread over center..center*(1+spread)
	center, spread float64
}

func simpleKVs(r *rand.Rand) []attribute.KeyValue {
	var kvs []attribute.KeyValue
	for i, n := 0, r.IntN(3); i < n; i++ {
		k := fmt.Sprintf("k%d", i)
		switch r.IntN(3) {
		case 0:
			kvs = append(kvs, attribute.String(k, []string{"a", "b c", "q\"uo\\te\n", "ünï"}[r.IntN(4)]))
		case 1:
			kvs = append(kvs, attribute.Int(k, r.IntN(3)-1))
		case 2:
			kvs = append(kvs, attribute.Bool(k, r.IntN(2) == 0))
		}
	}
	return kvs
}

// histValue draws a value, in a range of its own about center unless that is 0.
func histValue(r *rand.Rand, nk number.Kind, neg bool, center, spread float64) num {
	if center != 0 && r.IntN(12) != 0 {
		v := center * (1 + r.Float64()*spread)
		if neg && r.IntN(8) == 0 {
			v = -v
		}
		if nk == number.Int64Kind {
			return inum(int64(v))
		}
		return fnum(v)
	}
	if nk == number.Int64Kind {
		v := []int64{0, 1, int64(r.IntN(100)), 1 << uint(r.IntN(40)), r.Int64N(1 << 50)}[r.IntN(5)]
		if neg && r.IntN(3) == 0 {
			v = -v
		}
		return inum(v)
	}
	v := []float64{0, 1, r.Float64(), math.Ldexp(1+r.Float64(), r.IntN(20)-10), math.Ldexp(1, r.IntN(30)-15), math.Ldexp(1+r.Float64(), r.IntN(2040)-1020), math.MaxFloat64 / 1024, math.SmallestNonzeroFloat64, 0x1p-1022, 0x1.8p-1023}[r.IntN(10)]
	if r.IntN(4) == 0 {
		v = []float64{1.5, 3, 1000}[r.IntN(3)]
	}
	if neg && r.IntN(3) == 0 {
		v = -v
	}
	return fnum(v)
}

func closeTo(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b)) || (math.IsInf(a, 0) && math.IsInf(b, 0))
}

// promFidelity: a scrape shows exactly what was measured.
func promFidelity() func(c *hz.Case) {
	var srv *promServer
	used := 0
	caseNo := 0
	return func(c *hz.Case) {
		r := c.R
		if srv == nil || used > 60 {
			if srv != nil {
				_ = srv.exp.ShutdownMetrics(context.Background(), data.Metrics{Resource: resource.Empty()})
			}
			srv, used = newProm(), 0
		}
		used++
		caseNo++
		prefix := "m" + strconv.Itoa(caseNo)
		kvs := []attribute.KeyValue{attribute.String("host.id", []string{"h", "x y"}[r.IntN(2)])}
		if r.IntN(4) > 0 {
			kvs = append(kvs, attribute.String("service.name", "svc"), attribute.Int("n", r.IntN(3)))
		}
		res := resource.NewSchemaless(kvs...)
		t := &tee{inner: noShutdown{srv.exp}}
		histAgg := []aggregation.Kind{aggregation.HistogramKind, aggregation.HistogramKind, aggregation.MinMaxSumCountKind}[r.IntN(3)]
		ms := []int{0, 2, 4, 20, 320}[r.IntN(5)]
		p := lmetric.NewMeterProvider(lmetric.WithResource(res), lmetric.WithReader(lmetric.NewPeriodicReader(t, time.Hour),
			view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality { return aggregation.CumulativeTemporality }),
			view.WithDefaultAggregationKindSelector(func(k sdkinstrument.Kind) aggregation.Kind {
				if k == sdkinstrument.SyncHistogram {
					return histAgg
				}
				return view.StandardAggregationKind(k)
			}),
		))
		m := p.Meter("scope")
		var ins []*promInst
		for i, n := 0, 1+r.IntN(6); i < n; i++ {
			k := allKinds[r.IntN(len(allKinds))]
			if r.IntN(2) == 0 {
				k = sdkinstrument.SyncHistogram
			}
			pi := &promInst{name: fmt.Sprintf("%s_%d", prefix, i), agg: view.StandardAggregationKind(k), set: map[string]*promSeries{}, size: structure.DefaultMaxSize}
			if r.IntN(3) == 0 {
				pi.center, pi.spread = math.Ldexp(1+r.Float64(), r.IntN(48)-16), math.Ldexp(1, -r.IntN(24))
			}
			desc := ""
			if k == sdkinstrument.SyncHistogram {
				pi.agg = histAgg
				if ms != 0 {
					pi.size = int32(ms)
					desc = fmt.Sprintf(`{"description":"d","config":{"histogram":{"max_size":%d}}}`, ms)
				}
			}
			if k == sdkinstrument.SyncUpDownCounter && r.IntN(2) == 0 {
				pi.agg = aggregation.HistogramKind // negative values
				if ms != 0 {
					pi.size = int32(ms)
				}
				desc = fmt.Sprintf(`{"description":"d","aggregation":"histogram","config":{"histogram":{"max_size":%d}}}`, ms)
			}
			in, err := create(m, k, []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)], pi.name, desc, "")
			if err != nil {
				c.Violate(nil, "create: %v", err)
				return
			}
			pi.in = in
			ins = append(ins, pi)
			if !k.Synchronous() {
				if _, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
					for _, x := range pi.obs {
						in.observe(o, x.v, x.kvs)
					}
					return nil
				}, in.observable()); err != nil {
					c.Violate(nil, "RegisterCallback: %v", err)
				}
			}
		}
		// scrapes racing with exports must be well-formed
		stop := make(chan struct{})
		var wg sync.WaitGroup
		if r.IntN(3) == 0 {
			c.Go(&wg, func() {
				last := map[string]float64{}
				for {
					select {
					case <-stop:
						return
					default:
					}
					fams, err := srv.scrape()
					if err != nil {
						c.Violate(nil, "scrape: %v", err)
						return
					}
					c.Count("concurrent scrapes", 1)
					for name, f := range fams {
						if !strings.HasPrefix(name, prefix+"_") {
							continue
						}
						for _, x := range f.GetMetric() {
							key := name + "{" + dtoLabels(x) + "}"
							if h := x.GetHistogram(); h != nil {
								wellFormed(c, key, h)
								if float64(h.GetSampleCount()) < last[key] {
									c.Violate(nil, "%s: count went from %v to %d", key, last[key], h.GetSampleCount())
								}
								last[key] = float64(h.GetSampleCount())
							}
							if x.Counter != nil {
								if x.Counter.GetValue() < last[key] && !asyncName(ins, name) {
									c.Violate(nil, "%s: counter went from %v to %v", key, last[key], x.Counter.GetValue())
								}
								last[key] = x.Counter.GetValue()
							}
						}
					}
				}
			})
		}
		for round, n := 0, 1+r.IntN(3); round < n && !c.Failed(); round++ {
			for k, n := 0, r.IntN(40); k < n; k++ {
				pi := ins[r.IntN(len(ins))]
				if !pi.in.kind.Synchronous() {
					continue
				}
				kvs := simpleKVs(r)
				v := histValue(r, pi.in.nk, pi.in.kind != sdkinstrument.SyncCounter && pi.in.kind != sdkinstrument.SyncHistogram, pi.center, pi.spread)
				pi.in.record(context.Background(), v, path(r.IntN(3)), kvs)
				key := promLabels(res, kvs)
				s := pi.set[key]
				if s == nil {
					s = &promSeries{}
					pi.set[key] = s
				}
				s.vals = append(s.vals, v.float())
				s.isum += v.i
				s.last = v.float()
			}
			for _, pi := range ins {
				if pi.in.kind.Synchronous() {
					continue
				}
				pi.obs = nil
				for k, n := 0, r.IntN(4); k < n; k++ {
					o := obsv{histValue(r, pi.in.nk, pi.in.kind != sdkinstrument.AsyncCounter, 0, 0), simpleKVs(r)}
					pi.obs = append(pi.obs, o)
					pi.set[promLabels(res, o.kvs)] = &promSeries{last: o.v.float()}
				}
			}
			var err error
			if round == n-1 {
				err = p.Shutdown(context.Background())
			} else {
				err = p.ForceFlush(context.Background())
			}
			if err != nil {
				c.Violate(nil, "export: %v", err)
			}
			fams, err := srv.scrape()
			if err != nil {
				c.Violate(nil, "scrape: %v", err)
				break
			}
			for _, pi := range ins {
				checkFamily(c, pi, fams[pi.name])
			}
		}
		close(stop)
		wg.Wait()
	}
}

func asyncName(ins []*promInst, name string) bool {
	for _, pi := range ins {
		if pi.name == name {
			return !pi.in.kind.Synchronous()
		}
	}
	return false
}

func wellFormed(c *hz.Case, key string, h *dto.Histogram) {
	var prev uint64
	pb := math.Inf(-1)
	for _, b := range h.GetBucket() {
		if b.GetCumulativeCount() < prev || b.GetUpperBound() <= pb {
			c.Violate(map[string]any{"histogram": h.String()}, "%s: bucket counts or bounds are not increasing", key)
			return
		}
		prev, pb = b.GetCumulativeCount(), b.GetUpperBound()
	}
	if prev != h.GetSampleCount() && len(h.GetBucket()) > 0 {
		c.Violate(map[string]any{"histogram": h.String()}, "%s: last bucket %d is not the count %d", key, prev, h.GetSampleCount())
	}
}

func checkFamily(c *hz.Case, pi *promInst, f *dto.MetricFamily) {
	got := map[string]*dto.Metric{}
	for _, x := range f.GetMetric() {
		got[dtoLabels(x)] = x
	}
	if len(got) != len(pi.set) || len(f.GetMetric()) != len(pi.set) {
		c.Violate(nil, "%s (%v): %d series scraped, want %d", pi.name, pi.in.kind, len(f.GetMetric()), len(pi.set))
		return
	}
	for key, s := range pi.set {
		x := got[key]
		c.Eval(1)
		if x == nil {
			c.Violate(nil, "%s (%v): no series {%s}", pi.name, pi.in.kind, key)
			continue
		}
		switch pi.agg {
		case aggregation.HistogramKind, aggregation.MinMaxSumCountKind:
			h := x.GetHistogram()
			if h == nil {
				c.Violate(nil, "%s: not a histogram: %v", pi.name, x)
				continue
			}
			c.Distinct(fmt.Sprint(len(h.GetBucket()), h.GetSampleCount(), h.GetSampleSum()))
			det := map[string]any{"values": s.vals, "histogram": h.String()}
			if h.GetSampleCount() != uint64(len(s.vals)) {
				c.Violate(det, "%s: count %d, want %d", pi.name, h.GetSampleCount(), len(s.vals))
			}
			sum, abs := 0.0, 0.0
			for _, v := range s.vals {
				sum += v
				abs += math.Abs(v)
			}
			if pi.in.nk == number.Int64Kind {
				sum = float64(s.isum)
			}
			if math.Abs(h.GetSampleSum()-sum) > 1e-9*abs && !math.IsInf(abs, 0) {
				c.Violate(det, "%s: sum %v, want %v", pi.name, h.GetSampleSum(), sum)
			}
			wellFormed(c, pi.name, h)
			c.Count("histograms compared", 1)
			if pi.agg == aggregation.HistogramKind && len(h.GetBucket()) < 2 {
				c.Violate(det, "%s: a histogram with %d values has %d buckets", pi.name, len(s.vals), len(h.GetBucket()))
			}
			if pi.agg == aggregation.HistogramKind {
				resolution(c, pi, s.vals, h, det)
			}
			for _, b := range h.GetBucket() {
				le := b.GetUpperBound()
				lo, hi := 0, 0
				tol := math.Abs(le) * 1e-9
				for _, v := range s.vals {
					if math.IsInf(le, 1) || v < le-tol {
						lo++
					}
					if math.IsInf(le, 1) || v <= le+tol {
						hi++
					}
				}
				if le == 0 {
					lo = hi
				}
				if n := int(b.GetCumulativeCount()); n < lo || n > hi {
					c.Violate(det, "%s: %d values counted as <= %v, want %d to %d", pi.name, n, le, lo, hi)
				}
			}
		case aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind, aggregation.AnySumKind:
			var v float64
			mono := pi.in.kind == sdkinstrument.SyncCounter || pi.in.kind == sdkinstrument.AsyncCounter
			if mono {
				if x.Counter == nil {
					c.Violate(nil, "%s: not a counter: %v", pi.name, x)
					continue
				}
				v = x.Counter.GetValue()
			} else {
				if x.Gauge == nil {
					c.Violate(nil, "%s: an up-down counter is not a gauge: %v", pi.name, x)
					continue
				}
				v = x.Gauge.GetValue()
			}
			want, abs := 0.0, 0.0
			for _, y := range s.vals {
				want += y
				abs += math.Abs(y)
			}
			if pi.in.nk == number.Int64Kind {
				want = float64(s.isum)
			}
			if !pi.in.kind.Synchronous() {
				want = s.last
			}
			c.Distinct(fmt.Sprint(pi.in.kind, v))
			if math.Abs(v-want) > 1e-9*abs && !closeTo(v, want) {
				c.Violate(nil, "%s{%s} (%v): %v, want %v", pi.name, key, pi.in.kind, v, want)
			}
		default:
			if x.Gauge == nil || x.Gauge.GetValue() != s.last {
				c.Violate(nil, "%s{%s}: %v, want gauge %v", pi.name, key, x, s.last)
			}
			c.Distinct(fmt.Sprint("gauge", s.last))
		}
	}
}

// resolution checks that the bounds are as close as the histogram's are.
func resolution(c *hz.Case, pi *promInst, vals []float64, h *dto.Histogram, det map[string]any) {
	ref := structure.NewFloat64(structure.NewConfig(structure.WithMaxSize(pi.size)), vals...)
	// One step coarser is what merging may cost.
	base := math.Exp2(math.Exp2(-float64(ref.Scale() - 1)))
	if math.IsInf(base, 0) {
		return
	}
	for _, v := range vals {
		if v < 0x1p-1000 || math.IsInf(v*base, 0) {
			continue
		}
		i := sort.Search(len(h.GetBucket()), func(i int) bool { return h.GetBucket()[i].GetUpperBound() >= v*(1-1e-9) })
		c.Eval(1)
		if i == len(h.GetBucket()) || h.GetBucket()[i].GetUpperBound() > v*base*(1+1e-9) {
			c.Violate(det, "%s: no bound between %v and %v, though the histogram has scale %d", pi.name, v, v*base, ref.Scale())
			return
		}
	}
}

// promShutdown: shutting down makes a last export and frees the port.
func promShutdown(c *hz.Case) {
	srv := newProm()
	p := lmetric.NewMeterProvider(lmetric.WithReader(lmetric.NewPeriodicReader(srv.exp, time.Hour)), lmetric.WithResource(resource.Empty()))
	ctr, _ := p.Meter("s").Int64Counter("c")
	ctr.Add(context.Background(), 3)
	if err := p.ForceFlush(context.Background()); err != nil {
		c.Violate(nil, "flush: %v", err)
	}
	fams, err := srv.scrape()
	if err != nil || len(fams["c"].GetMetric()) != 1 || fams["c"].GetMetric()[0].GetCounter().GetValue() != 3 {
		c.Violate(nil, "scrape before shutdown: %v %v", fams, err)
	}
	if err := p.Shutdown(context.Background()); err != nil {
		c.Violate(nil, "shutdown: %v", err)
	}
	promClient.CloseIdleConnections()
	if l, err := net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", srv.port)); err != nil {
		c.Violate(nil, "after shutdown the port is still taken: %v", err)
	} else {
		l.Close()
	}
	c.Eval(3)
	c.Distinct(c.Name)
}
