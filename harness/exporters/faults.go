package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	motelcol "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	totelcol "github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	otelcodes "go.opentelemetry.io/otel/codes"
	metricnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	tracenoop "go.opentelemetry.io/otel/trace/noop"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

var globalsMu sync.Mutex

// selfWatch holds the providers an exporter reports about itself to.
type selfWatch struct {
	spans *tracetest.InMemoryExporter
	rd    *lmetric.ManualReader
	mp    *lmetric.MeterProvider
	tp    *sdktrace.TracerProvider
}

func newSelfWatch() *selfWatch {
	w := &selfWatch{spans: tracetest.NewInMemoryExporter(), rd: lmetric.NewManualReader("self")}
	w.mp = lmetric.NewMeterProvider(lmetric.WithReader(w.rd), lmetric.WithResource(resource.Empty()))
	w.tp = sdktrace.NewTracerProvider(sdktrace.WithSyncer(w.spans))
	return w
}

// with runs f while the providers are the global ones.
func (w *selfWatch) with(f func()) {
	globalsMu.Lock()
	defer globalsMu.Unlock()
	otel.SetMeterProvider(w.mp)
	otel.SetTracerProvider(w.tp)
	defer func() {
		otel.SetMeterProvider(metricnoop.NewMeterProvider())
		otel.SetTracerProvider(tracenoop.NewTracerProvider())
	}()
	f()
}

// items reads the item counter by attributes, and names seen.
func (w *selfWatch) items() (map[string]int64, []string) {
	d := w.rd.Produce(nil)
	out := map[string]int64{}
	var names []string
	s := takeSnap(&d)
	for i := range s.scopes {
		for j := range s.scopes[i].insts {
			in := &s.scopes[i].insts[j]
			names = append(names, in.desc.Name)
			if in.desc.Name != "otelsdk.telemetry.items" {
				continue
			}
			for k := range in.points {
				out[setAttrs(&in.points[k].set)] += in.points[k].val.i
			}
		}
	}
	return out, names
}

func stateOf(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, context.DeadlineExceeded):
		return "timeout"
	}
	return "error"
}

// answers says how the endpoint treats requests during one export.
type answer struct {
	name string
	f    func(ctx context.Context, n int) error
	fail bool // the export cannot succeed
}

func genAnswer(r *rand.Rand, unblock chan struct{}) answer {
	code := []codes.Code{codes.Unavailable, codes.InvalidArgument, codes.PermissionDenied, codes.ResourceExhausted, codes.Internal, codes.Unimplemented, codes.Unauthenticated, codes.DeadlineExceeded, codes.Canceled, codes.DataLoss, codes.NotFound, codes.Aborted}[r.IntN(12)]
	switch r.IntN(5) {
	case 0, 1:
		return answer{"ok", nil, false}
	case 2:
		return answer{"code " + code.String(), func(context.Context, int) error { return status.Error(code, "injected") }, true}
	case 3:
		d := time.Duration(r.IntN(3000)) * time.Microsecond
		return answer{"slow ok", func(context.Context, int) error {
			time.Sleep(d)
			return nil
		}, false}
	}
	return answer{"block", func(ctx context.Context, _ int) error {
		select {
		case <-ctx.Done():
		case <-unblock:
		}
		return status.Error(codes.Unavailable, "was blocked")
	}, true}
}

// signal is an exporter of either kind seen the same way.
type signal struct {
	name     string // of the self span
	count    string // its item count attribute
	export   func(ctx context.Context, n int) (error, mset)
	last     func(ctx context.Context, n int) (error, mset) // a shutdown with data
	shutdown func(ctx context.Context) error
	got      func() mset
	local    bool // there is no endpoint to fail
}

// promSignal exports to a Prometheus endpoint, which takes everything.
func promSignal(r *rand.Rand, self bool) *signal {
	srv := newPromSelf(self)
	var mu sync.Mutex
	taken := mset{}
	export := func(f func(context.Context, data.Metrics) error, ctx context.Context, n int) (error, mset) {
		mu.Lock()
		d := counterData(r, n)
		mu.Unlock()
		want := mset{}
		expectedPoints(&d, want)
		err := f(ctx, d)
		mu.Lock()
		defer mu.Unlock()
		for k, v := range want {
			taken[k] += v
		}
		return err, want
	}
	return &signal{
		name: "otelsdk_export_metrics", count: "num_points", local: true,
		export: func(ctx context.Context, n int) (error, mset) {
			mu.Lock()
			flush := r.IntN(3) == 0
			mu.Unlock()
			if flush {
				return export(srv.exp.ForceFlushMetrics, ctx, n)
			}
			return export(srv.exp.ExportMetrics, ctx, n)
		},
		last: func(ctx context.Context, n int) (error, mset) { return export(srv.exp.ShutdownMetrics, ctx, n) },
		shutdown: func(ctx context.Context) error {
			return srv.exp.ShutdownMetrics(ctx, data.Metrics{Resource: resource.Empty()})
		},
		got: func() mset {
			mu.Lock()
			defer mu.Unlock()
			m := taken
			taken = mset{}
			return m
		},
	}
}

// counterData makes n points.
func counterData(r *rand.Rand, n int) data.Metrics {
	t0 := time.Unix(1700000000, int64(r.IntN(1e9)))
	in := data.Instrument{Descriptor: sdkinstrument.NewDescriptor("m", sdkinstrument.SyncCounter, number.Int64Kind, "", "")}
	for i := 0; i < n; i++ {
		in.Points = append(in.Points, data.Point{Attributes: attribute.NewSet(attribute.Int("i", i), attribute.Int64("u", r.Int64())), Aggregation: sum.NewMonotonicInt64(int64(i)), Temporality: aggregation.DeltaTemporality, Start: t0, End: t0.Add(time.Second)})
	}
	return data.Metrics{Resource: resource.Empty(), Scopes: []data.Scope{{Library: instrumentation.Scope{Name: "s"}, Instruments: []data.Instrument{in}}}}
}

func metricSignal(r *rand.Rand, col *collector, self bool, timeout time.Duration) *signal {
	exp := newMetricExporter(col, self, func(c *motelcol.Config) { c.Exporter.TimeoutSettings.Timeout = timeout })
	var mu sync.Mutex
	return &signal{
		name: "otelsdk_export_metrics", count: "num_points",
		export: func(ctx context.Context, n int) (error, mset) {
			mu.Lock()
			d := counterData(r, n)
			flush := r.IntN(3) == 0
			mu.Unlock()
			want := mset{}
			expectedPoints(&d, want)
			if flush {
				return exp.ForceFlushMetrics(ctx, d), want
			}
			return exp.ExportMetrics(ctx, d), want
		},
		last: func(ctx context.Context, n int) (error, mset) {
			d := counterData(r, n)
			want := mset{}
			expectedPoints(&d, want)
			return exp.ShutdownMetrics(ctx, d), want
		},
		shutdown: func(ctx context.Context) error {
			return exp.ShutdownMetrics(ctx, data.Metrics{Resource: resource.Empty()})
		},
		got: func() mset { m, _ := receivedPoints(col.takeMetrics()); return m },
	}
}

func traceSignal(r *rand.Rand, col *collector, self bool, timeout time.Duration) *signal {
	exp := newTraceExporter(col, self, func(c *totelcol.Config) { c.Exporter.TimeoutSettings.Timeout = timeout })
	var mu sync.Mutex
	return &signal{
		name: "otelsdk_export_traces", count: "num_spans",
		export: func(ctx context.Context, n int) (error, mset) {
			mu.Lock()
			p := &pool{res: []*resource.Resource{resource.Empty()}, scopes: []instrumentation.Scope{{Name: "a"}, {Name: "b"}}}
			var st tracetest.SpanStubs
			for i := 0; i < n; i++ {
				st = append(st, genStub(r, p, nil))
			}
			mu.Unlock()
			want := mset{}
			ro := st.Snapshots()
			for _, s := range ro {
				want.add(wantSpan(s))
			}
			return exp.ExportSpans(ctx, ro), want
		},
		shutdown: exp.Shutdown,
		got:      func() mset { return receivedSpans(col.takeTraces()) },
	}
}

// selfTelemetry: an exporter's own counters and spans say what happened to
// every batch, and its result says whether the data arrived.
func selfTelemetry() func(c *hz.Case) {
	return func(c *hz.Case) {
		r := c.R
		col := newCollector("")
		defer col.stop()
		w := newSelfWatch()
		self := r.IntN(5) > 0
		timeout := []time.Duration{15 * time.Second, 40 * time.Millisecond}[r.IntN(2)]
		var s *signal
		w.with(func() {
			switch r.IntN(9) {
			case 0:
				s = promSignal(r, self)
			case 1, 2, 3, 4:
				s = metricSignal(r, col, self, timeout)
			default:
				s = traceSignal(r, col, self, timeout)
			}
		})
		wantItems := map[string]int64{}
		unblock := make(chan struct{})
		if s.export == nil {
			return
		}
		// what an abandoned export carried may still arrive later
		all, sofar := mset{}, mset{}
		for round := 0; round < 6 && !c.Failed(); round++ {
			an := genAnswer(r, unblock)
			if s.local {
				an = answer{name: "prometheus"}
			}
			col.set(an.f)
			ctx, cancel := context.Background(), context.CancelFunc(func() {})
			how := "background"
			switch {
			case an.name == "block" && timeout > time.Second || r.IntN(5) == 0:
				if r.IntN(2) == 0 {
					how = "deadline"
					ctx, cancel = context.WithTimeout(ctx, time.Duration(1+r.IntN(20))*time.Millisecond)
				} else {
					how = "cancel"
					ctx, cancel = context.WithCancel(ctx)
					d := time.Duration(r.IntN(20)) * time.Millisecond
					cc := cancel
					time.AfterFunc(d, func() { cc() })
				}
			}
			n := r.IntN(20)
			if r.IntN(10) == 0 {
				n = 1000 + r.IntN(2500)
			}
			workers := 1
			if r.IntN(3) == 0 {
				workers = 2 + r.IntN(3)
			}
			w.spans.Reset()
			type res struct {
				err  error
				want mset
				n    int
			}
			out := make([]res, workers)
			var wg sync.WaitGroup
			began := time.Now()
			for k := 0; k < workers; k++ {
				nk := n
				if k > 0 {
					nk = n/2 + k
				}
				c.Go(&wg, func() {
					err, want := s.export(ctx, nk)
					out[k] = res{err, want, nk}
				})
			}
			wg.Wait()
			cancel()
			took := time.Since(began)
			got := s.got()
			sure := mset{}
			wantSpans := map[string]int{}
			for _, o := range out {
				c.Eval(1)
				c.Distinct(fmt.Sprint(s.name, an.name, how, o.n > 1000, stateOf(o.err)))
				c.Count("exports: "+stateOf(o.err), 1)
				for k, v := range o.want {
					all[k] += v
					if o.err == nil {
						sure[k] += v
					}
				}
				if an.fail && o.n > 0 && o.err == nil {
					c.Violate(nil, "%s: the endpoint answered %q but the export of %d items returned nil", s.name, an.name, o.n)
				}
				if !an.fail && how == "background" && o.err != nil && timeout > time.Second {
					c.Violate(nil, "%s: the endpoint accepted everything but the export returned %v", s.name, o.err)
				}
				if self {
					st := stateOf(o.err)
					if o.n > 0 {
						wantItems[fmt.Sprintf("%q=s:%q,%q=b:%v", "state", st, "success", o.err == nil)] += int64(o.n)
					}
					stat := "Ok"
					if o.err != nil {
						stat = "Error"
					}
					wantSpans[fmt.Sprintf("%s success=%v state=%s %s=%d %s", s.name, o.err == nil, st, s.count, o.n, stat)]++
				}
			}
			if how != "background" && took > 10*time.Second {
				c.Violate(nil, "%s: an export whose context ended (%s) took %v", s.name, how, took)
			}
			if an.name == "block" && took > timeout+10*time.Second {
				c.Violate(nil, "%s: an export with a timeout of %v took %v", s.name, timeout, took)
			}
			if missing, _ := sure.diff(got); len(missing) > 0 {
				c.Violate(map[string]any{"missing": head(missing, 3)}, "%s: the export returned nil but %d items did not arrive", s.name, len(missing))
			}
			for k, v := range got {
				sofar[k] += v
			}
			if _, extra := all.diff(sofar); len(extra) > 0 {
				c.Violate(map[string]any{"unexpected": head(extra, 3)}, "%s: %d items arrived that were not exported, or twice", s.name, len(extra))
			}
			// the exporter's own spans
			gotSpans := map[string]int{}
			for _, sp := range w.spans.GetSpans() {
				if !strings.HasPrefix(sp.Name, "otelsdk_export_") {
					continue
				}
				a := map[string]string{}
				for _, kv := range sp.Attributes {
					a[string(kv.Key)] = kv.Value.Emit()
				}
				stat := sp.Status.Code.String()
				if sp.Status.Code == otelcodes.Unset {
					stat = "Unset"
				}
				gotSpans[fmt.Sprintf("%s success=%s state=%s %s=%s %s", sp.Name, a["success"], a["state"], s.count, a[s.count], stat)]++
			}
			if fmt.Sprint(gotSpans) != fmt.Sprint(wantSpans) {
				c.Violate(nil, "%s: answer %q: own spans %v, want %v", s.name, an.name, gotSpans, wantSpans)
			}
			items, names := w.items()
			for k, v := range items {
				if v == 0 {
					delete(items, k)
				}
			}
			if fmt.Sprint(items) != fmt.Sprint(wantItems) {
				c.Violate(nil, "%s: own item counts %v, want %v", s.name, items, wantItems)
			}
			for _, n := range names {
				if strings.HasPrefix(n, "otelcol_") || !self && strings.HasPrefix(n, "otelsdk") {
					c.Violate(nil, "%s: unexpected own metric %q", s.name, n)
				}
			}
			// anything blocked is let go, and what it carried is not accepted
			if an.name == "block" {
				close(unblock)
				unblock = make(chan struct{})
			}
		}
		col.set(nil)
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		if s.last != nil && r.IntN(2) == 0 {
			an := genAnswer(r, unblock)
			if s.local {
				an = answer{name: "prometheus"}
			}
			col.set(an.f)
			if an.name == "block" {
				var stop context.CancelFunc
				ctx, stop = context.WithTimeout(ctx, 20*time.Millisecond)
				defer stop()
				defer close(unblock)
			}
			n := 1 + r.IntN(20)
			err, want := s.last(ctx, n)
			missing, _ := want.diff(s.got())
			c.Eval(1)
			c.Count("shutdowns with data: "+stateOf(err), 1)
			switch {
			case an.fail && err == nil:
				c.Violate(nil, "%s: the endpoint answered %q but the shutdown with %d items returned nil", s.name, an.name, n)
			case !an.fail && err != nil && timeout > time.Second:
				c.Violate(nil, "%s: the endpoint accepted everything but the shutdown returned %v", s.name, err)
			case err == nil && len(missing) > 0:
				c.Violate(map[string]any{"missing": head(missing, 3)}, "%s: the shutdown returned nil but %d items did not arrive", s.name, len(missing))
			}
		} else if err := s.shutdown(ctx); err != nil {
			c.Violate(nil, "%s: shutdown: %v", s.name, err)
		}
	}
}

// outage: the endpoint goes away and comes back.
func outage() func(c *hz.Case) {
	return func(c *hz.Case) {
		r := c.R
		col := newCollector("")
		defer func() { col.stop() }()
		var s *signal
		if r.IntN(2) == 0 {
			s = metricSignal(r, col, false, 15*time.Second)
		} else {
			s = traceSignal(r, col, false, 15*time.Second)
		}
		sure, all := mset{}, mset{}
		var mu sync.Mutex
		got := mset{}
		export := func(limit time.Duration) error {
			ctx, cancel := context.WithTimeout(context.Background(), limit)
			defer cancel()
			t0 := time.Now()
			n := 1 + r.IntN(10)
			err, want := s.export(ctx, n)
			if d := time.Since(t0); d > limit+8*time.Second {
				c.Violate(nil, "%s: an export with a deadline of %v took %v", s.name, limit, d)
			}
			mu.Lock()
			defer mu.Unlock()
			c.Eval(1)
			c.Count("exports: "+stateOf(err), 1)
			for k, v := range want {
				all[k] += v
				if err == nil {
					sure[k] += v
				}
			}
			return err
		}
		merge := func() {
			for k, v := range s.got() {
				got[k] += v
			}
		}
		pattern := ""
		for round, n := 0, 1+r.IntN(2); round < n && !c.Failed(); round++ {
			if r.IntN(4) > 0 { // a working phase
				if err := export(14 * time.Second); err != nil {
					c.Violate(nil, "%s: with a working endpoint: %v", s.name, err)
				}
				pattern += "w"
			}
			var inflight atomic.Bool
			if r.IntN(2) == 0 { // an export caught by the outage
				block := make(chan struct{})
				col.set(func(ctx context.Context, _ int) error {
					inflight.Store(true)
					select {
					case <-ctx.Done():
					case <-block:
					}
					return status.Error(codes.Unavailable, "going away")
				})
				var wg sync.WaitGroup
				c.Go(&wg, func() {
					if err := export(500 * time.Millisecond); err == nil {
						c.Violate(nil, "%s: an export caught by an outage returned nil", s.name)
					}
				})
				for i := 0; i < 400 && !inflight.Load(); i++ {
					time.Sleep(time.Millisecond)
				}
				col.stop()
				wg.Wait()
				close(block)
				col.set(nil)
				pattern += "i"
			} else {
				col.stop()
			}
			for i, k := 0, r.IntN(3); i < k; i++ { // exports in the dark
				if err := export(time.Duration(5+r.IntN(40)) * time.Millisecond); err == nil {
					c.Violate(nil, "%s: an export without an endpoint returned nil", s.name)
				}
				pattern += "d"
			}
			merge()
			col.start(col.addr)
			pattern += "b"
			// a request may still meet the dead connection
			var err error
			for i := 0; i < 3; i++ {
				if err = export(14 * time.Second); err == nil {
					break
				}
				time.Sleep(50 * time.Millisecond)
			}
			if err != nil {
				c.Violate(nil, "%s: after the endpoint came back: %v", s.name, err)
			}
			merge()
		}
		// now and then the last exports and the shutdown happen in the dark
		dark := r.IntN(3) == 0
		if dark {
			col.stop()
			pattern += "D"
		}
		ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		t0 := time.Now()
		err := s.shutdown(ctx)
		cancel()
		if d := time.Since(t0); d > 12*time.Second {
			c.Violate(nil, "%s: shutdown with a deadline of 2s took %v (%v)", s.name, d, err)
		}
		if !dark && err != nil {
			c.Violate(nil, "%s: shutdown: %v", s.name, err)
		}
		merge()
		c.Distinct(s.name + pattern)
		if missing, _ := sure.diff(got); len(missing) > 0 {
			c.Violate(map[string]any{"missing": head(missing, 3)}, "%s: %d items of exports that returned nil did not arrive", s.name, len(missing))
		}
		if _, extra := all.diff(got); len(extra) > 0 {
			c.Violate(map[string]any{"unexpected": head(extra, 3)}, "%s: %d items arrived twice or were never exported", s.name, len(extra))
		}
	}
}

// pipelineFaults: a provider with a periodic reader over a faulty endpoint
// loses only what failed exports carried, and cumulative totals survive.
func pipelineFaults() func(c *hz.Case) {
	return func(c *hz.Case) {
		r := c.R
		col := newCollector("")
		defer col.stop()
		exp := newMetricExporter(col, false, func(cf *motelcol.Config) { cf.Exporter.TimeoutSettings.Timeout = 5 * time.Second })
		t := &errTee{PushExporter: exp}
		delta := r.IntN(2) == 0
		interval := []time.Duration{time.Hour, 2 * time.Millisecond}[r.IntN(2)]
		p := lmetric.NewMeterProvider(lmetric.WithResource(resource.Empty()), lmetric.WithReader(lmetric.NewPeriodicReader(t, interval), tempoOpt(delta)))
		m := p.Meter("s")
		ctr, err := m.Int64Counter("c")
		if err != nil {
			c.Violate(nil, "create: %v", err)
			return
		}
		var total int64
		for round, n := 0, 2+r.IntN(5); round < n; round++ {
			fail := r.IntN(2) == 0
			code := []codes.Code{codes.Unavailable, codes.InvalidArgument, codes.Internal}[r.IntN(3)]
			if fail {
				col.set(func(context.Context, int) error { return status.Error(code, "injected") })
			} else {
				col.set(nil)
			}
			for k, n := 0, r.IntN(30); k < n; k++ {
				v := int64(1 + r.IntN(100))
				ctr.Add(context.Background(), v)
				total += v
			}
			err := p.ForceFlush(context.Background())
			if fail && err == nil && interval == time.Hour && (total > 0) && !delta {
				c.Violate(nil, "ForceFlush returned nil though the endpoint answered %v", code)
			}
			if !fail && err != nil {
				c.Violate(nil, "ForceFlush with a working endpoint: %v", err)
			}
		}
		col.set(nil)
		ctr.Add(context.Background(), 1)
		total++
		if err := p.Shutdown(context.Background()); err != nil {
			c.Violate(nil, "Shutdown with a working endpoint: %v", err)
		}
		// An export given up after its timeout can arrive late, so cumulative
		// totals are put in the order of their timestamps.
		type arrival struct {
			at uint64
			v  int64
		}
		var points []arrival
		for _, ms := range col.takeMetrics() {
			for i := 0; i < ms.ResourceMetrics().Len(); i++ {
				for j := 0; j < ms.ResourceMetrics().At(i).ScopeMetrics().Len(); j++ {
					sm := ms.ResourceMetrics().At(i).ScopeMetrics().At(j)
					for k := 0; k < sm.Metrics().Len(); k++ {
						for l := 0; l < sm.Metrics().At(k).Sum().DataPoints().Len(); l++ {
							pt := sm.Metrics().At(k).Sum().DataPoints().At(l)
							points = append(points, arrival{uint64(pt.Timestamp()), pt.IntValue()})
						}
					}
				}
			}
		}
		sort.SliceStable(points, func(i, j int) bool { return points[i].at < points[j].at })
		var sum, last int64
		for _, pt := range points {
			sum += pt.v
			if !delta && pt.v < last {
				c.Violate(nil, "a cumulative total went from %d to %d", last, pt.v)
			}
			last = pt.v
		}
		t.mu.Lock()
		defer t.mu.Unlock()
		c.Eval(t.calls)
		c.Count("failed exports", int64(t.failed))
		c.Distinct(fmt.Sprint(delta, t.failed, t.calls, total))
		if delta && (sum+t.lost < total || sum > total) {
			c.Violate(nil, "delta: %d arrived and %d was in failed exports, but %d was measured", sum, t.lost, total)
		}
		if !delta && last != total {
			c.Violate(nil, "cumulative: the last total received is %d, want %d", last, total)
		}
	}
}

// errTee counts what failed exports carried.
type errTee struct {
	lmetric.PushExporter
	mu            sync.Mutex
	lost          int64
	failed, calls int
}

func (t *errTee) note(d *data.Metrics, err error) error {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.calls++
	if err != nil {
		t.failed++
		s := takeSnap(d)
		for i := range s.scopes {
			for j := range s.scopes[i].insts {
				for k := range s.scopes[i].insts[j].points {
					t.lost += s.scopes[i].insts[j].points[k].val.i
				}
			}
		}
	}
	return err
}
func (t *errTee) ExportMetrics(ctx context.Context, d data.Metrics) error {
	return t.note(&d, t.PushExporter.ExportMetrics(ctx, d))
}
func (t *errTee) ForceFlushMetrics(ctx context.Context, d data.Metrics) error {
	return t.note(&d, t.PushExporter.ForceFlushMetrics(ctx, d))
}
func (t *errTee) ShutdownMetrics(ctx context.Context, d data.Metrics) error {
	return t.note(&d, t.PushExporter.ShutdownMetrics(ctx, d))
}

func tempoOpt(delta bool) view.Option {
	return view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality {
		if delta {
			return aggregation.DeltaTemporality
		}
		return aggregation.CumulativeTemporality
	})
}

// lostReplies: the endpoint processes requests and then answers with an error,
// retryable or not.  Nothing may arrive twice.
func lostReplies() func(c *hz.Case) {
	retryable := []codes.Code{codes.Unavailable, codes.Unavailable, codes.Aborted, codes.DeadlineExceeded, codes.Canceled, codes.OutOfRange, codes.DataLoss, codes.ResourceExhausted}
	return func(c *hz.Case) {
		r := c.R
		col := newCollector("")
		defer col.stop()
		var s *signal
		if r.IntN(2) == 0 {
			s = metricSignal(r, col, false, 15*time.Second)
		} else {
			s = traceSignal(r, col, false, 15*time.Second)
		}
		code := retryable[r.IntN(len(retryable))]
		if r.IntN(4) == 0 {
			code = codes.Code(1 + r.IntN(16))
		}
		every := 1 + r.IntN(3)
		var lost atomic.Int64
		col.set(func(_ context.Context, n int) error {
			if n%every == 0 {
				lost.Add(1)
				return lostReply{status.Error(code, "the answer was lost")}
			}
			return nil
		})
		all, got := mset{}, mset{}
		var failed int64
		pattern := ""
		for i, n := 0, 1+r.IntN(3); i < n; i++ {
			ctx, cancel := context.WithTimeout(context.Background(), 14*time.Second)
			err, want := s.export(ctx, 1+r.IntN(10))
			cancel()
			if err != nil {
				failed++
			}
			pattern += fmt.Sprint(err != nil)
			for k, v := range want {
				all[k] += v
			}
			for k, v := range s.got() {
				got[k] += v
			}
			c.Eval(len(want))
			c.Tick()
		}
		col.set(nil)
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		if err := s.shutdown(ctx); err != nil {
			c.Violate(nil, "%s: shutdown: %v", s.name, err)
		}
		cancel()
		for k, v := range s.got() {
			got[k] += v
		}
		for k, v := range got {
			if v > all[k] {
				c.Violate(nil, "%s: answered with %v, an item arrived %d times and was exported %d times: %s", s.name, code, v, all[k], k)
				break
			}
		}
		for k, v := range all {
			if got[k] < v {
				c.Violate(nil, "%s: an item the endpoint processed did not arrive", s.name)
				break
			}
		}
		if failed != lost.Load() {
			c.Violate(nil, "%s: %d exports were answered with %v, %d returned an error", s.name, lost.Load(), code, failed)
		}
		c.Count("lost replies", lost.Load())
		c.Distinct(s.name, code, every, pattern)
	}
}
