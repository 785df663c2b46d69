package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/contrib/propagators/b3"
	"go.opentelemetry.io/contrib/propagators/ot"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/baggage"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// validation: configurations with at most one mistake; a mistake is reported
// through Fatalf with its own message, a valid configuration never.
func validation() func(c *hz.Case) {
	eps := newEndpoints(1)
	return func(c *hz.Case) {
		k := newConf(c)
		r := k.r
		eps.clear()
		addr := eps[0].addr
		mistake := r.IntN(11)
		env := func(name, val string) { k.setEnv(name, val) }
		env("OTEL_EXPORTER_OTLP_SPAN_INSECURE", "true")
		env("OTEL_EXPORTER_OTLP_METRIC_INSECURE", "true")
		env("LS_METRICS_BUILTINS_ENABLED", "false")
		var want string
		spanEP, metEP := addr, addr
		token := r.IntN(2) == 0
		service := true
		period, pref := []string{"", "30s", "1h", "5ms"}[r.IntN(4)], []string{"", "cumulative", "delta", "STATELESS", "lowMemory"}[r.IntN(5)]
		props := []string{"", "b3", "b3,tracecontext", "bogus,baggage", "ottrace"}[r.IntN(5)]
		spanOK, metOK := true, true
		switch mistake {
		case 0:
			service = false
			want = "service name missing"
		case 1: // the default endpoint needs a token
			token = false
			spanEP = launcher.DefaultSpanExporterEndpoint
			metEP = ""
			want, spanOK, metOK = "access token missing", false, false
		case 2:
			token = false
			metEP = launcher.DefaultMetricExporterEndpoint
			spanEP = ""
			want, spanOK, metOK = "access token missing", false, false
		case 3:
			period = pickStr(r, "fast", "10", "-1s", "0s", "0", "1 minute")
			want, metOK = "invalid metric reporting period", false
		case 4:
			pref = pickStr(r, "deltas", "unspecified", "low memory", "cumul")
			want, metOK = "invalid temporality preference", false
		case 5:
			props = pickStr(r, "bogus", "B3", "xray,jaeger", "b3multi")
			want, spanOK = "unsupported propagators", false
		case 6:
			env(pickStr(r, "LS_METRICS_ENABLED", "OTEL_EXPORTER_OTLP_METRIC_INSECURE"), pickStr(r, "maybe", "2", "yes!"))
			want = "environment error"
		}
		// Sometimes a bad value in the environment is replaced by an option.
		fixed := false
		if mistake >= 3 && mistake <= 5 && r.IntN(4) == 0 {
			fixed = true
		}
		if service {
			switch r.IntN(4) {
			case 0:
				env("LS_SERVICE_NAME", "svc")
			case 1:
				k.opt("WithServiceName", "svc", launcher.WithServiceName("svc"))
			case 2:
				env("OTEL_SERVICE_NAME", "svc")
			case 3:
				env("OTEL_RESOURCE_ATTRIBUTES", "a=b,service.name=svc")
			}
		} else {
			switch r.IntN(4) {
			case 0:
				env("OTEL_RESOURCE_ATTRIBUTES", "service.name=,a=b")
			case 1:
				k.opt("WithServiceName", "", launcher.WithServiceName(""))
				env("LS_SERVICE_NAME", "svc")
			case 2:
				env("OTEL_RESOURCE_ATTRIBUTES", "service.namespace=x")
			}
		}
		if token {
			switch r.IntN(3) {
			case 0:
				env("LS_ACCESS_TOKEN", "tok")
			case 1:
				k.opt("WithAccessToken", "tok", launcher.WithAccessToken("tok"))
			case 2:
				env("OTEL_EXPORTER_OTLP_HEADERS", tokenKey+":tok")
			}
		} else if mistake == 1 || mistake == 2 {
			switch r.IntN(3) {
			case 0:
				k.opt("WithAccessToken", "", launcher.WithAccessToken(""))
			case 1:
				k.opt("WithHeaders", "x", launcher.WithHeaders(map[string]string{"x-other": "1"}))
			}
		}
		k.opt("endpoints", spanEP+" "+metEP, launcher.WithSpanExporterEndpoint(spanEP), launcher.WithMetricExporterEndpoint(metEP))
		bothWays := func(name, val string, opt func(string) launcher.Option) {
			if val == "" {
				return
			}
			if fixed || r.IntN(2) == 0 {
				env(name, val)
			} else {
				k.opt(name, val, opt(val))
			}
		}
		bothWays("OTEL_EXPORTER_OTLP_METRIC_PERIOD", period, func(s string) launcher.Option { return func(c *launcher.Config) { c.MetricReportingPeriod = s } })
		bothWays("OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", pref, launcher.WithMetricExporterTemporalityPreference)
		bothWays("OTEL_PROPAGATORS", props, func(s string) launcher.Option { return launcher.WithPropagators(strings.Split(s, ",")) })
		if fixed {
			switch mistake {
			case 3:
				k.opt("WithMetricReportingPeriod", "1h", launcher.WithMetricReportingPeriod(time.Hour))
			case 4:
				k.opt("WithMetricExporterTemporalityPreference", "delta", launcher.WithMetricExporterTemporalityPreference("delta"))
			case 5:
				k.opt("WithPropagators", "b3", launcher.WithPropagators([]string{"b3"}))
			}
			want, spanOK, metOK = "", true, true
		}
		if mistake == 1 || mistake == 2 {
			// Nothing must be sent: stop right away.
			l := k.launch()
			k.expectFatal(want)
			_ = l
			go l.Shutdown()
			c.Distinct(mistake, k.desc)
			return
		}
		l := k.launch()
		k.expectFatal(want)
		_, span := otel.Tracer("t").Start(context.Background(), "s")
		span.End()
		ctr, _ := otel.Meter("t").Int64Counter("c")
		ctr.Add(context.Background(), 1)
		if !k.shutdown(l) {
			return
		}
		// A signal whose own configuration is right still works.
		a := eps[0].take()
		c.Eval(2)
		if spanOK && mistake != 6 && len(a.traces) == 0 {
			k.bad("no spans arrive; mistake: %q", want)
		}
		// With a short period an export can be abandoned, and deltas with it.
		if metOK && mistake != 6 && len(a.metrics) == 0 && !k.lossy() {
			k.bad("no metrics arrive; mistake: %q", want)
		}
		if !metOK && len(a.metrics) > 0 {
			k.bad("metrics arrive in spite of %q", want)
		}
		c.Distinct(mistake, k.desc)
	}
}

func (k *conf) expectFatal(want string) {
	k.c.Eval(1)
	f := k.log.fatal()
	if want == "" {
		if len(f) > 0 {
			k.bad("a valid configuration is refused: %v", f)
		}
		return
	}
	n := 0
	for _, x := range f {
		if strings.Contains(x, want) {
			n++
		}
	}
	// An environment error leaves later settings without their defaults.
	if n != 1 || len(f) != 1 && want != "environment error" {
		k.bad("want one fatal message with %q, got %q", want, f)
	}
}

// temporality: every instrument kind under every preference, over several
// collections.
func temporality() func(c *hz.Case) {
	eps := newEndpoints(1)
	return func(c *hz.Case) {
		k := newConf(c)
		r := k.r
		eps.clear()
		k.opt("endpoints", "", launcher.WithSpanExporterEndpoint(""), launcher.WithMetricExporterEndpoint(eps[0].addr), launcher.WithMetricExporterInsecure(true),
			launcher.WithMetricsBuiltinsEnabled(false), launcher.WithServiceName("svc"), launcher.WithMetricReportingPeriod(time.Hour))
		pref := setting(k, "TemporalityPreference", "OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", ident, launcher.WithMetricExporterTemporalityPreference,
			[]string{"cumulative", "delta", "lowmemory", "stateless", "Cumulative", "DELTA", "LowMemory", "Stateless"}, "cumulative", false)
		l := k.launch()
		if !k.noFatal("configuration") {
			return
		}
		low := strings.ToLower(pref)
		syncDelta := low == "delta" || low == "lowmemory" || low == "stateless"
		asyncDelta := low == "delta"
		type ins struct {
			in    *inst
			total float64
			count uint64
			obs   int64
			name  string
		}
		var all []*ins
		var mu sync.Mutex
		meter := otel.Meter("tempo")
		for _, kind := range allKinds {
			for _, nk := range []number.Kind{number.Int64Kind, number.Float64Kind} {
				if r.IntN(3) == 0 {
					continue
				}
				x := &ins{name: fmt.Sprintf("i.%v.%v", kind, nk)}
				in, err := create(meter, kind, nk, x.name, "", "")
				if err != nil {
					k.bad("create: %v", err)
					return
				}
				x.in = in
				all = append(all, x)
				if !kind.Synchronous() {
					_, err = meter.RegisterCallback(func(_ context.Context, o metric.Observer) error {
						mu.Lock()
						defer mu.Unlock()
						in.observe(o, toNum(nk, x.obs), nil)
						return nil
					}, in.observable())
					if err != nil {
						k.bad("RegisterCallback: %v", err)
						return
					}
				}
			}
		}
		rounds := 2 + r.IntN(3)
		for round := 0; round < rounds; round++ {
			type expect struct {
				kind  string
				mono  bool
				delta bool
				val   float64
				count uint64
			}
			want := map[string]expect{}
			for _, x := range all {
				in := x.in
				e := expect{kind: "sum"}
				v := int64(1 + r.IntN(1000))
				gauge := in.kind == sdkinstrument.SyncGauge || in.kind == sdkinstrument.AsyncGauge
				idle := round > 0 && !gauge && r.IntN(3) == 0
				if idle {
					// What has not changed is repeated in running
					// totals and not mentioned in differences.
					v = 0
				}
				switch in.kind {
				case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter, sdkinstrument.SyncGauge, sdkinstrument.AsyncGauge:
					if r.IntN(2) == 0 {
						v = -v
					}
				}
				switch in.kind {
				case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
					e.delta = syncDelta
				case sdkinstrument.AsyncCounter:
					e.delta = asyncDelta
				}
				e.mono = in.kind == sdkinstrument.SyncCounter || in.kind == sdkinstrument.AsyncCounter
				if in.kind.Synchronous() && !idle {
					in.record(context.Background(), toNum(in.nk, v), path(r.IntN(2)), nil)
				}
				switch in.kind {
				case sdkinstrument.SyncGauge, sdkinstrument.AsyncGauge:
					e.kind, e.val = "gauge", float64(v)
					mu.Lock()
					x.obs = v
					mu.Unlock()
				case sdkinstrument.SyncHistogram:
					e.kind = "exphist"
					x.total += float64(v)
					if !idle {
						x.count++
					}
					e.val, e.count = x.total, x.count
					if e.delta {
						e.val, e.count = float64(v), 1
					}
				default:
					x.total += float64(v)
					mu.Lock()
					x.obs += v
					mu.Unlock()
					e.val = x.total
					if e.delta {
						e.val = float64(v)
					}
				}
				if idle && e.delta {
					continue
				}
				want[x.name] = e
			}
			if round == rounds-1 {
				if !k.shutdown(l) {
					return
				}
				k.noFatal("shutdown")
			} else if f, ok := otel.GetMeterProvider().(flusher); !ok {
				k.bad("the global meter provider has no ForceFlush")
				return
			} else if err := f.ForceFlush(context.Background()); err != nil {
				k.bad("ForceFlush: %v", err)
				return
			}
			pts := pointsOf(eps[0].takeMetrics())
			got := map[string]bool{}
			for _, p := range pts {
				e, ok := want[p.name]
				c.Eval(1)
				g := expect{p.kind, p.mono, p.delta, p.value(), p.count}
				if !ok || got[p.name] || g != e {
					k.bad("preference %q round %d: %s arrives as %+v, want %+v (twice: %v)", pref, round, p.name, g, e, got[p.name])
					return
				}
				got[p.name] = true
			}
			if len(got) != len(want) {
				k.bad("preference %q round %d: %d of %d instruments arrived", pref, round, len(got), len(want))
				return
			}
		}
		c.Distinct(pref, len(all), rounds)
	}
}

func toNum(nk number.Kind, v int64) num {
	if nk == number.Int64Kind {
		return inum(v)
	}
	return fnum(float64(v))
}

func refPropagator(names []string) propagation.TextMapPropagator {
	var ps []propagation.TextMapPropagator
	for _, n := range names {
		switch n {
		case "b3":
			ps = append(ps, b3.New(b3.WithInjectEncoding(b3.B3MultipleHeader)))
		case "baggage":
			ps = append(ps, propagation.Baggage{})
		case "tracecontext":
			ps = append(ps, propagation.TraceContext{})
		case "ottrace":
			ps = append(ps, ot.OT{})
		}
	}
	return propagation.NewCompositeTextMapPropagator(ps...)
}

func genContext(r *rand.Rand) context.Context {
	var t trace.TraceID
	var s trace.SpanID
	for i := range t {
		t[i] = byte(r.Uint32())
	}
	if r.IntN(3) == 0 {
		for i := 0; i < 8; i++ {
			t[i] = 0
		}
	}
	for i := range s {
		s[i] = byte(r.Uint32())
	}
	cfg := trace.SpanContextConfig{TraceID: t, SpanID: s, TraceFlags: trace.TraceFlags(r.IntN(2))}
	if r.IntN(3) == 0 {
		cfg.TraceState, _ = trace.ParseTraceState("a=b,vendor=x:y")
	}
	ctx := context.Background()
	if r.IntN(8) != 0 {
		ctx = trace.ContextWithSpanContext(ctx, trace.NewSpanContext(cfg))
	}
	if r.IntN(2) == 0 {
		m1, _ := baggage.NewMember("user", fmt.Sprint("u", r.IntN(100)))
		m2, _ := baggage.NewMember("k", "v")
		bag, _ := baggage.New(m1, m2)
		ctx = baggage.ContextWithBaggage(ctx, bag)
	}
	return ctx
}

// checkPropagators compares the global propagator with a reference made of
// the configured formats.
func (k *conf) checkPropagators(names []string) {
	g, ref := otel.GetTextMapPropagator(), refPropagator(names)
	k.c.Eval(1)
	set := func(s []string) map[string]bool {
		m := map[string]bool{}
		for _, x := range s {
			m[strings.ToLower(x)] = true
		}
		return m
	}
	if !reflect.DeepEqual(set(g.Fields()), set(ref.Fields())) {
		k.bad("propagators %v: fields %v, want %v", names, g.Fields(), ref.Fields())
	}
	for i := 0; i < 6; i++ {
		ctx := genContext(k.r)
		a, b := propagation.MapCarrier{}, propagation.MapCarrier{}
		g.Inject(ctx, a)
		ref.Inject(ctx, b)
		for _, x := range []propagation.MapCarrier{a, b} {
			if v := strings.Split(x["baggage"], ","); len(v) > 1 {
				sort.Strings(v)
				x["baggage"] = strings.Join(v, ",")
			}
		}
		k.c.Eval(2)
		if !reflect.DeepEqual(a, b) {
			k.bad("propagators %v inject %v, want %v", names, a, b)
			return
		}
		// Extract from what any of the formats writes, in any mixture.
		car := propagation.MapCarrier{}
		for _, n := range []string{"b3", "tracecontext", "ottrace", "baggage"} {
			if k.r.IntN(2) == 0 {
				refPropagator([]string{n}).Inject(genContext(k.r), car)
			}
		}
		if k.r.IntN(3) == 0 {
			b3.New(b3.WithInjectEncoding(b3.B3SingleHeader)).Inject(genContext(k.r), car)
		}
		ca, cb := g.Extract(context.Background(), car), ref.Extract(context.Background(), car)
		sa, sb := trace.SpanContextFromContext(ca), trace.SpanContextFromContext(cb)
		ba, bb := baggage.FromContext(ca).String(), baggage.FromContext(cb).String()
		if !sa.Equal(sb) || len(ba) != len(bb) || !sameBaggage(ca, cb) {
			k.bad("propagators %v extract %v %q from %v, want %v %q", names, sa, ba, car, sb, bb)
			return
		}
		k.c.Distinct("prop", names, len(a), sa.IsValid(), ba)
	}
}

func sameBaggage(a, b context.Context) bool {
	m := map[string]string{}
	for _, x := range baggage.FromContext(a).Members() {
		m[x.Key()] = x.Value()
	}
	n := 0
	for _, x := range baggage.FromContext(b).Members() {
		if m[x.Key()] != x.Value() {
			return false
		}
		n++
	}
	return n == len(m)
}

// propagators: lists of formats in every order, with unsupported names mixed in.
func propagators() func(c *hz.Case) {
	eps := newEndpoints(1)
	return func(c *hz.Case) {
		k := newConf(c)
		r := k.r
		eps.clear()
		metrics := r.IntN(2) == 0
		k.opt("endpoints", eps[0].addr, launcher.WithSpanExporterEndpoint(eps[0].addr), launcher.WithSpanExporterInsecure(true), launcher.WithMetricExporterEndpoint(eps[0].addr), launcher.WithMetricExporterInsecure(true),
			launcher.WithMetricsBuiltinsEnabled(false), launcher.WithServiceName("svc"), launcher.WithMetricsEnabled(metrics))
		list := func() []string {
			var l []string
			all := []string{"b3", "baggage", "tracecontext", "ottrace"}
			r.Shuffle(4, func(i, j int) { all[i], all[j] = all[j], all[i] })
			for _, n := range all[:1+r.IntN(4)] {
				if r.IntN(4) == 0 {
					l = append(l, pickStr(r, "xray", "jaeger", "none", "B3"))
				}
				l = append(l, n)
			}
			return l
		}
		eff := setting(k, "Propagators", "OTEL_PROPAGATORS", func(s []string) string { return strings.Join(s, ",") }, launcher.WithPropagators, [][]string{list(), list(), list()}, []string{"b3"}, false)
		l := k.launch()
		if k.noFatal("configuration") {
			k.checkPropagators(eff)
		}
		// A remote parent is honoured and spans are always sampled.
		car := propagation.MapCarrier{}
		otel.GetTextMapPropagator().Inject(genContext(r), car)
		parent := otel.GetTextMapPropagator().Extract(context.Background(), car)
		_, span := otel.Tracer("t").Start(parent, "child")
		psc, csc := trace.SpanContextFromContext(parent), span.SpanContext()
		span.End()
		c.Eval(2)
		if psc.IsValid() && psc.TraceID() != csc.TraceID() {
			k.bad("child of %v is in trace %v", psc, csc.TraceID())
		}
		if !k.shutdown(l) {
			return
		}
		a := eps[0].take()
		n := 0
		for _, t := range a.traces {
			sp := t.ResourceSpans().At(0).ScopeSpans().At(0).Spans().At(0)
			n += t.SpanCount()
			if pid := sp.ParentSpanID(); psc.IsValid() && trace.SpanID(pid) != psc.SpanID() {
				k.bad("exported parent %v, want %v", pid, psc.SpanID())
			}
		}
		if n != 1 {
			k.bad("%d spans arrive of one ended (parent sampled: %v)", n, psc.IsSampled())
		}
	}
}

// signals: disabled signals stay silent, enabled ones are flushed completely
// by Shutdown and stay silent afterwards.
func signals() func(c *hz.Case) {
	eps := newEndpoints(2)
	return func(c *hz.Case) {
		k := newConf(c)
		r := k.r
		eps.clear()
		for _, e := range eps {
			e.set(nil)
		}
		spans, mets := r.IntN(4) != 0, r.IntN(4) != 0
		how := r.IntN(3)
		spanEP, metEP := eps[0].addr, eps[1].addr
		if !spans {
			spanEP = ""
		}
		if !mets && how != 0 {
			metEP = ""
		}
		k.opt("endpoints", spanEP+" "+metEP, launcher.WithSpanExporterEndpoint(spanEP), launcher.WithMetricExporterEndpoint(metEP))
		k.opt("insecure", true, launcher.WithSpanExporterInsecure(true), launcher.WithMetricExporterInsecure(true), launcher.WithServiceName("svc"))
		if !mets && how != 1 {
			if r.IntN(2) == 0 {
				k.setEnv("LS_METRICS_ENABLED", "false")
			} else {
				k.opt("WithMetricsEnabled", false, launcher.WithMetricsEnabled(false))
			}
		}
		k.opt("builtins", "", launcher.WithMetricsBuiltinsEnabled(r.IntN(8) == 0))
		pref := pickStr(r, "delta", "cumulative", "lowmemory")
		k.opt("pref", pref, launcher.WithMetricExporterTemporalityPreference(pref))
		period := []time.Duration{time.Hour, time.Hour, 100 * time.Millisecond, 10 * time.Millisecond}[r.IntN(4)]
		k.opt("period", period, launcher.WithMetricReportingPeriod(period))
		// A failing signal must not stop the other.
		failing := -1
		if r.IntN(5) == 0 {
			failing = r.IntN(2)
			k.desc = append(k.desc, fmt.Sprint("failing endpoint ", failing))
			eps[failing].set(func(context.Context, int) error { return status.Error(codes.InvalidArgument, "injected") })
		}
		l := k.launch()
		if !k.noFatal("configuration") {
			k.shutdown(l)
			return
		}
		nw, per := 1+r.IntN(4), 1+r.IntN(300)
		var wg sync.WaitGroup
		want := mset{}
		total := map[int]int64{}
		var mu sync.Mutex
		for w := 0; w < nw; w++ {
			rnd := rand.New(rand.NewPCG(c.Seed, uint64(w)))
			c.Go(&wg, func() {
				tr := otel.Tracer(fmt.Sprint("scope", w%2))
				m := otel.Meter(fmt.Sprint("scope", w%2))
				ctr, _ := m.Int64Counter("ctr")
				h, _ := m.Float64Histogram("hist")
				for i := 0; i < per; i++ {
					name := fmt.Sprintf("w%d.%d", w, i)
					ctx, s := tr.Start(context.Background(), name)
					id := rnd.IntN(3)
					ctr.Add(ctx, int64(i+1), metric.WithAttributes(attribute.Int("k", id)))
					h.Record(ctx, float64(i+1), metric.WithAttributes(attribute.Int("k", id)))
					mu.Lock()
					want.add(fmt.Sprintf("scope%d/%s", w%2, name))
					total[id] += int64(i + 1)
					mu.Unlock()
					s.End()
				}
				c.Tick()
			})
		}
		wg.Wait()
		if !k.shutdown(l) {
			return
		}
		if failing < 0 {
			k.noFatal("shutdown")
		}
		sa, ma := eps[0].take(), eps[1].take()
		c.Eval(4)
		if len(sa.metrics) > 0 || len(ma.traces) > 0 {
			k.bad("a signal arrived at the other's endpoint")
		}
		names, _ := spansOf(sa.traces)
		if !spans {
			want = mset{}
		}
		if failing != 0 {
			if miss, extra := want.diff(names); len(miss)+len(extra) > 0 {
				k.bad("after Shutdown: %d of %d spans ended before are missing (%v), %d extra (%v)", len(miss), len(want), head(miss, 3), len(extra), head(extra, 3))
			}
		}
		if !mets {
			if len(ma.metrics) > 0 || len(ma.mds) > 0 {
				k.bad("metrics are disabled but arrive")
			}
		} else if failing != 1 {
			k.sumUp(ma, total, pref != "cumulative")
		}
		// After Shutdown.
		if k.lossy() {
			eps.clear()
		}
		_, s := otel.Tracer("late").Start(context.Background(), "late")
		s.End()
		ctr, _ := otel.Meter("scope0").Int64Counter("ctr")
		ctr.Add(context.Background(), 1000)
		if f, ok := otel.GetMeterProvider().(flusher); ok {
			f.ForceFlush(context.Background())
		}
		if f, ok := otel.GetTracerProvider().(flusher); ok {
			f.ForceFlush(context.Background())
		}
		if r.IntN(4) == 0 {
			time.Sleep(60 * time.Millisecond)
		}
		c.Eval(1)
		for i, e := range eps {
			if a := e.take(); len(a.traces)+len(a.metrics)+len(a.mds) > 0 {
				k.bad("endpoint %d received %d trace and %d metric requests after Shutdown", i, len(a.traces), len(a.metrics))
			}
		}
		c.Distinct(spans, mets, how, pref, period, failing, nw, per, len(ma.metrics), len(sa.traces))
	}
}

// sumUp checks that the counter and the histogram account for everything.
func (k *conf) sumUp(a arrival, total map[int]int64, delta bool) {
	type key struct{ scope, name, attrs string }
	got := map[key]mpoint{}
	points := pointsOf(a.metrics)
	sort.SliceStable(points, func(i, j int) bool { return points[i].end.Before(points[j].end) })
	for _, p := range points {
		if p.name != "ctr" && p.name != "hist" {
			continue
		}
		q := key{p.scope, p.name, p.attrs}
		if o, ok := got[q]; ok && p.delta {
			p.i += o.i
			p.f += o.f
			p.count += o.count
		} else if ok && (p.i < o.i || p.f < o.f || p.count < o.count) {
			k.bad("%v decreases from %v to %v", q, o, p)
		}
		got[q] = p
	}
	sum := map[string]map[string]float64{"ctr": {}, "hist": {}}
	for q, p := range got {
		sum[q.name][q.attrs] += p.value()
	}
	for id, w := range total {
		at := fmt.Sprintf("%q=i:%d", "k", id)
		for n := range sum {
			k.c.Eval(1)
			if k.lossy() && sum[n][at] < float64(w) && delta {
				continue // an export did not end within its period
			}
			if sum[n][at] != float64(w) {
				k.bad("%s{%s}: %v arrived until Shutdown returned, %d recorded before", n, at, sum[n][at], w)
			}
		}
	}
}

// transport: what the first bytes on the wire are under each insecure setting.
func transport(c *hz.Case) {
	k := newConf(c)

	first := make(chan [2]string, 64)
	lst := make([]net.Listener, 2)
	for i := range lst {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		lst[i] = l
		go func() {
			for {
				conn, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					buf := make([]byte, 3)
					conn.SetReadDeadline(time.Now().Add(10 * time.Second))
					n, _ := conn.Read(buf)
					select {
					case first <- [2]string{[]string{"span", "metric"}[i], string(buf[:n])}:
					default:
					}
					conn.Close()
				}()
			}
		}()
	}
	defer lst[0].Close()
	defer lst[1].Close()
	k.opt("endpoints", "", launcher.WithSpanExporterEndpoint(lst[0].Addr().String()), launcher.WithMetricExporterEndpoint(lst[1].Addr().String()),
		launcher.WithServiceName("svc"), launcher.WithMetricsBuiltinsEnabled(false))
	b := func(x bool) string { return fmt.Sprint(x) }
	insecure := map[string]bool{
		"span":   setting(k, "SpanExporterInsecure", "OTEL_EXPORTER_OTLP_SPAN_INSECURE", b, launcher.WithSpanExporterInsecure, []bool{true, false}, false, false),
		"metric": setting(k, "MetricExporterInsecure", "OTEL_EXPORTER_OTLP_METRIC_INSECURE", b, launcher.WithMetricExporterInsecure, []bool{true, false}, false, false),
	}
	l := k.launch()
	if !k.noFatal("configuration") {
		return
	}
	_, s := otel.Tracer("t").Start(context.Background(), "s")
	s.End()
	ctr, _ := otel.Meter("t").Int64Counter("c")
	ctr.Add(context.Background(), 1)
	go l.Shutdown() // the endpoints never answer: not waited for
	seen := map[string]bool{}
	deadline := time.After(30 * time.Second)
	for len(seen) < 2 {
		select {
		case f := <-first:
			if f[1] == "" {
				continue
			}
			seen[f[0]] = true
			c.Eval(1)
			tls := f[1][0] == 0x16
			if tls == insecure[f[0]] {
				k.bad("%s exporter with insecure=%v starts with bytes %q", f[0], insecure[f[0]], f[1])
			}
			if !tls && f[1] != "PRI" {
				k.bad("%s exporter speaks neither TLS nor HTTP/2: %q", f[0], f[1])
			}
		case <-deadline:
			k.c.Count("no connection", 1)
			return
		}
		c.Tick()
	}
	c.Distinct(insecure)
}
