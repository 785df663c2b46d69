package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"
	"time"

	totelcol "github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"
)

func newTraceExporter(col *collector, self bool, opts ...totelcol.Option) sdktrace.SpanExporter {
	o := append([]totelcol.Option{totelcol.WithEndpoint(col.addr), totelcol.WithInsecure(), func(c *totelcol.Config) {
		c.SelfMetrics, c.SelfSpans = self, self
		c.Batcher.Timeout = 0
	}}, opts...)
	e, err := totelcol.NewExporter(context.Background(), totelcol.NewConfig(o...))
	if err != nil {
		panic(err)
	}
	return e
}

// ---- what must arrive

func wantKind(k trace.SpanKind) string {
	switch k {
	case trace.SpanKindInternal:
		return "Internal"
	case trace.SpanKindServer:
		return "Server"
	case trace.SpanKindClient:
		return "Client"
	case trace.SpanKindProducer:
		return "Producer"
	case trace.SpanKindConsumer:
		return "Consumer"
	}
	return "Unspecified"
}

func wantStatus(c codes.Code) string {
	switch c {
	case codes.Error:
		return "Error"
	case codes.Ok:
		return "Ok"
	}
	return "Unset"
}

func idHex(b []byte) string { return hex.EncodeToString(b) }

func scID(sc trace.SpanContext) string {
	t, s := sc.TraceID(), sc.SpanID()
	return idHex(t[:]) + "/" + idHex(s[:])
}

func wantSpan(s sdktrace.ReadOnlySpan) string {
	var b strings.Builder
	res := ""
	if s.Resource() != nil {
		res = canonAttrs(s.Resource().Attributes())
	}
	sc := s.InstrumentationScope()
	ps := s.Parent().SpanID()
	fmt.Fprintf(&b, "res{%s} scope{%q %q %q} %s parent=%s ts=%q %q kind=%s [%d,%d] status=%s %q attrs{%s}", res, sc.Name, sc.Version, sc.SchemaURL,
		scID(s.SpanContext()), idHex(ps[:]), s.SpanContext().TraceState().String(), s.Name(), wantKind(s.SpanKind()), s.StartTime().UnixNano(), s.EndTime().UnixNano(),
		wantStatus(s.Status().Code), s.Status().Description, canonAttrs(s.Attributes()))
	for _, e := range s.Events() {
		fmt.Fprintf(&b, " event{%q %d {%s} dropped=%d}", e.Name, e.Time.UnixNano(), canonAttrs(e.Attributes), e.DroppedAttributeCount)
	}
	for _, l := range s.Links() {
		fmt.Fprintf(&b, " link{%s %q {%s} dropped=%d}", scID(l.SpanContext), l.SpanContext.TraceState().String(), canonAttrs(l.Attributes), l.DroppedAttributeCount)
	}
	fmt.Fprintf(&b, " dropped=%d,%d,%d", s.DroppedAttributes(), s.DroppedEvents(), s.DroppedLinks())
	return b.String()
}

// ---- what arrived

func receivedSpans(ts []ptrace.Traces) mset {
	out := mset{}
	id := func(t pcommon.TraceID, s pcommon.SpanID) string { return idHex(t[:]) + "/" + idHex(s[:]) }
	for _, t := range ts {
		for i := 0; i < t.ResourceSpans().Len(); i++ {
			rs := t.ResourceSpans().At(i)
			res := canonMap(rs.Resource().Attributes())
			for j := 0; j < rs.ScopeSpans().Len(); j++ {
				ss := rs.ScopeSpans().At(j)
				for k := 0; k < ss.Spans().Len(); k++ {
					s := ss.Spans().At(k)
					var b strings.Builder
					ps := s.ParentSpanID()
					fmt.Fprintf(&b, "res{%s} scope{%q %q %q} %s parent=%s ts=%q %q kind=%s [%d,%d] status=%s %q attrs{%s}", res, ss.Scope().Name(), ss.Scope().Version(), ss.SchemaUrl(),
						id(s.TraceID(), s.SpanID()), idHex(ps[:]), s.TraceState().AsRaw(), s.Name(), s.Kind().String(), int64(s.StartTimestamp()), int64(s.EndTimestamp()),
						s.Status().Code().String(), s.Status().Message(), canonMap(s.Attributes()))
					for x := 0; x < s.Events().Len(); x++ {
						e := s.Events().At(x)
						fmt.Fprintf(&b, " event{%q %d {%s} dropped=%d}", e.Name(), int64(e.Timestamp()), canonMap(e.Attributes()), e.DroppedAttributesCount())
					}
					for x := 0; x < s.Links().Len(); x++ {
						l := s.Links().At(x)
						fmt.Fprintf(&b, " link{%s %q {%s} dropped=%d}", id(l.TraceID(), l.SpanID()), l.TraceState().AsRaw(), canonMap(l.Attributes()), l.DroppedAttributesCount())
					}
					fmt.Fprintf(&b, " dropped=%d,%d,%d", s.DroppedAttributesCount(), s.DroppedEventsCount(), s.DroppedLinksCount())
					out.add(b.String())
				}
			}
		}
	}
	return out
}

// ---- generation

func genSC(r *rand.Rand) trace.SpanContext {
	var t trace.TraceID
	var s trace.SpanID
	for i := range t {
		t[i] = byte(r.IntN(256))
	}
	for i := range s {
		s[i] = byte(r.IntN(256))
	}
	var ts trace.TraceState
	if r.IntN(3) == 0 {
		ts, _ = trace.ParseTraceState([]string{"a=1", "vendor=x,b=2", "k1=v1,k2=v2,k3=v3"}[r.IntN(3)])
	}
	return trace.NewSpanContext(trace.SpanContextConfig{TraceID: t, SpanID: s, TraceFlags: trace.TraceFlags(r.IntN(2)), TraceState: ts, Remote: r.IntN(2) == 0})
}

// keys in an order a sort would change, and repeated
func genLooseKVs(r *rand.Rand, invalid bool) []attribute.KeyValue {
	kvs := genKVs(r, 5, invalid)
	if len(kvs) == 0 && r.IntN(2) == 0 {
		return nil
	}
	return kvs
}

type pool struct {
	res    []*resource.Resource
	scopes []instrumentation.Scope
}

func genPool(r *rand.Rand) *pool {
	p := &pool{}
	for i, n := 0, 1+r.IntN(3); i < n; i++ {
		p.res = append(p.res, genResource(r))
	}
	if r.IntN(3) == 0 { // resources that print alike
		p.res = append(p.res, resource.NewSchemaless(attribute.Int("n", 1)), resource.NewSchemaless(attribute.String("n", "1")))
	}
	for i, n := 0, 1+r.IntN(5); i < n; i++ {
		p.scopes = append(p.scopes, instrumentation.Scope{Name: []string{"", "lib/a", "lib/b"}[r.IntN(3)], Version: []string{"", "v1", "v2"}[r.IntN(3)], SchemaURL: []string{"", "http://s/1", "http://s/2"}[r.IntN(3)]})
	}
	return p
}

func genStub(r *rand.Rand, p *pool, prev *tracetest.SpanStub) tracetest.SpanStub {
	t0 := time.Unix(1700000000, int64(r.IntN(1e9)))
	s := tracetest.SpanStub{
		Name: word(r), SpanContext: genSC(r), SpanKind: trace.SpanKind(r.IntN(6)),
		StartTime: t0, EndTime: t0.Add(time.Duration(r.IntN(1e9))),
		Attributes: genLooseKVs(r, r.IntN(3) == 0),
		Status:     sdktrace.Status{Code: codes.Code(r.IntN(3)), Description: word(r)},
		Resource:   p.res[r.IntN(len(p.res))], InstrumentationScope: p.scopes[r.IntN(len(p.scopes))],
	}
	if prev != nil && r.IntN(2) == 0 { // runs of spans of one origin
		s.Resource, s.InstrumentationScope = prev.Resource, prev.InstrumentationScope
	}
	switch r.IntN(5) {
	case 0:
		s.Parent = genSC(r)
	case 1: // the usual case: a parent in the same trace
		s.Parent = genSC(r).WithTraceID(s.SpanContext.TraceID())
	case 2: // a parent without trace id
		s.Parent = genSC(r).WithTraceID(trace.TraceID{})
	}
	if r.IntN(4) == 0 {
		s.DroppedAttributes, s.DroppedEvents, s.DroppedLinks = r.IntN(5), r.IntN(5), r.IntN(5)
	}
	if r.IntN(2) == 0 {
		for i, n := 0, r.IntN(4); i < n; i++ {
			s.Events = append(s.Events, sdktrace.Event{Name: word(r), Time: t0.Add(time.Duration(r.IntN(1e6))), Attributes: genLooseKVs(r, false), DroppedAttributeCount: r.IntN(3)})
		}
		for i, n := 0, r.IntN(4); i < n; i++ {
			s.Links = append(s.Links, sdktrace.Link{SpanContext: genSC(r), Attributes: genLooseKVs(r, false), DroppedAttributeCount: r.IntN(3)})
		}
	}
	return s
}

func genStubs(r *rand.Rand, n int) tracetest.SpanStubs {
	p := genPool(r)
	var out tracetest.SpanStubs
	for i := 0; i < n; i++ {
		var prev *tracetest.SpanStub
		if i > 0 {
			prev = &out[i-1]
		}
		out = append(out, genStub(r, p, prev))
	}
	return out
}

// copyStubs makes a deep copy of the slices an exporter could write to.
func copyStubs(in tracetest.SpanStubs) tracetest.SpanStubs {
	out := append(tracetest.SpanStubs(nil), in...)
	cp := func(a []attribute.KeyValue) []attribute.KeyValue {
		if a == nil {
			return nil
		}
		return append([]attribute.KeyValue{}, a...)
	}
	for i := range out {
		s := &out[i]
		s.Attributes = cp(s.Attributes)
		s.Events = append([]sdktrace.Event(nil), s.Events...)
		for j := range s.Events {
			s.Events[j].Attributes = cp(s.Events[j].Attributes)
		}
		s.Links = append([]sdktrace.Link(nil), s.Links...)
		for j := range s.Links {
			s.Links[j].Attributes = cp(s.Links[j].Attributes)
		}
	}
	return out
}

func stubText(s tracetest.SpanStubs) []string {
	var out []string
	loose := func(a []attribute.KeyValue) string {
		var p []string
		for _, kv := range a {
			p = append(p, canonAttr(kv))
		}
		return strings.Join(p, ",")
	}
	for i := range s {
		var b strings.Builder
		fmt.Fprintf(&b, "%s{%s}", s[i].Name, loose(s[i].Attributes))
		for _, e := range s[i].Events {
			fmt.Fprintf(&b, " e{%s}", loose(e.Attributes))
		}
		for _, e := range s[i].Links {
			fmt.Fprintf(&b, " l{%s}", loose(e.Attributes))
		}
		out = append(out, b.String())
	}
	return out
}

func compareSpans(c *hz.Case, want, got mset, n int) {
	c.Eval(n + 1)
	c.Count("spans compared", int64(n))
	for x := range want {
		c.Distinct(x)
	}
	missing, extra := want.diff(got)
	if len(missing)+len(extra) > 0 {
		c.Violate(map[string]any{"missing": head(missing, 3), "unexpected": head(extra, 3)}, "%d of %d spans did not arrive as ended, %d unexpected spans arrived; first missing: %s; first unexpected: %s",
			len(missing), n, len(extra), strings.Join(head(missing, 1), ""), strings.Join(head(extra, 1), ""))
	}
}

// spanFidelity: what arrives is what was handed over, whatever the mix of
// resources and scopes, and the spans are left alone.
func spanFidelity() func(c *hz.Case) {
	var col *collector
	var exps []sdktrace.SpanExporter
	return func(c *hz.Case) {
		r := c.R
		if col == nil {
			col = newCollector("")
		}
		if len(exps) == 0 || r.IntN(30) == 0 {
			for _, e := range exps {
				_ = e.Shutdown(context.Background())
			}
			exps = nil
			for i := 0; i < 2; i++ {
				exps = append(exps, newTraceExporter(col, false, totelcol.WithCompressor([]string{"zstd", "gzip", "none", "snappy"}[r.IntN(4)])))
			}
		}
		for k := 0; k < 4 && !c.Failed(); k++ {
			n := r.IntN(12)
			if r.IntN(40) == 0 {
				n = 900 + r.IntN(2500)
			}
			stubs := genStubs(r, n)
			orig := stubText(stubs)
			spans := stubs.Snapshots()
			want := mset{}
			workers := 1 + r.IntN(3)
			for _, s := range spans {
				want[wantSpan(s)] += workers
			}
			// the same spans go through several exporters at once, as when
			// a provider has several processors
			var wg sync.WaitGroup
			for w := 0; w < workers; w++ {
				exp := exps[w%len(exps)]
				c.Go(&wg, func() {
					if err := exp.ExportSpans(context.Background(), spans); err != nil {
						c.Violate(nil, "export to a healthy endpoint failed: %v", err)
					}
				})
			}
			wg.Wait()
			if now := stubText(stubs); !reflect.DeepEqual(now, orig) {
				c.Violate(nil, "the exporter changed the attributes of the spans it was given")
			}
			got := receivedSpans(col.takeTraces())
			if n > 1000 {
				want, got = want.withoutScopeSchema(), got.withoutScopeSchema()
				c.Count("batches split over several requests", 1)
			}
			compareSpans(c, want, got, n*workers)
		}
	}
}

func (m mset) withoutScopeSchema() mset {
	o := mset{}
	for k, v := range m {
		for _, u := range []string{"http://s/1", "http://s/2"} {
			k = strings.Replace(k, " \""+u+"\"} ", " \"\"} ", 1)
		}
		o[k] += v
	}
	return o
}

// teeSpans records the spans a processor exports.
type teeSpans struct {
	mu    sync.Mutex
	inner sdktrace.SpanExporter
	want  mset
	n     int
	errs  []error
}

func (t *teeSpans) ExportSpans(ctx context.Context, s []sdktrace.ReadOnlySpan) error {
	t.mu.Lock()
	for _, x := range s {
		t.want.add(wantSpan(x))
		t.n++
	}
	t.mu.Unlock()
	err := t.inner.ExportSpans(ctx, s)
	if err != nil {
		t.mu.Lock()
		t.errs = append(t.errs, err)
		t.mu.Unlock()
	}
	return err
}
func (t *teeSpans) Shutdown(ctx context.Context) error { return t.inner.Shutdown(ctx) }

// spanPipeline: spans ended by concurrent goroutines through real processors
// all arrive once, as they were ended.
func spanPipeline() func(c *hz.Case) {
	var col *collector
	return func(c *hz.Case) {
		r := c.R
		if col == nil {
			col = newCollector("")
		}
		col.takeTraces()
		tee := &teeSpans{inner: newTraceExporter(col, false), want: mset{}}
		res := genResource(r)
		opts := []sdktrace.TracerProviderOption{sdktrace.WithResource(res)}
		batch := r.IntN(3) > 0
		if batch {
			opts = append(opts, sdktrace.WithBatcher(tee, sdktrace.WithMaxQueueSize(20000), sdktrace.WithMaxExportBatchSize([]int{1, 3, 100, 2000}[r.IntN(4)]), sdktrace.WithBatchTimeout(time.Millisecond)))
		} else {
			opts = append(opts, sdktrace.WithSyncer(tee))
		}
		tp := sdktrace.NewTracerProvider(opts...)
		var mu sync.Mutex
		names := map[string]int{}
		total := 0
		var wg sync.WaitGroup
		for w, nw := 0, 1+r.IntN(4); w < nw; w++ {
			rr := rand.New(rand.NewPCG(r.Uint64(), 1))
			n := 1 + rr.IntN(40)
			if !batch {
				n = 1 + rr.IntN(8)
			}
			c.Go(&wg, func() {
				tr := tp.Tracer(fmt.Sprintf("tracer%d", rr.IntN(2)), trace.WithInstrumentationVersion([]string{"", "1"}[rr.IntN(2)]))
				ctx := context.Background()
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("span-%d-%d", w, i)
					ctx2, sp := tr.Start(ctx, name, trace.WithAttributes(genKVs(rr, 3, false)...), trace.WithSpanKind(trace.SpanKind(rr.IntN(6))))
					if rr.IntN(2) == 0 {
						sp.AddEvent("ev", trace.WithAttributes(genKVs(rr, 3, false)...))
					}
					if rr.IntN(3) == 0 {
						sp.SetStatus(codes.Error, "bad")
					}
					sp.SetAttributes(genKVs(rr, 3, false)...)
					sp.End()
					if rr.IntN(2) == 0 {
						ctx = ctx2
					}
					mu.Lock()
					names[name]++
					total++
					mu.Unlock()
				}
			})
		}
		wg.Wait()
		if r.IntN(2) == 0 {
			if err := tp.ForceFlush(context.Background()); err != nil {
				c.Violate(nil, "ForceFlush to a healthy endpoint: %v", err)
			}
		}
		if err := tp.Shutdown(context.Background()); err != nil {
			c.Violate(nil, "Shutdown with a healthy endpoint: %v", err)
		}
		for _, err := range tee.errs {
			c.Violate(nil, "export to a healthy endpoint failed: %v", err)
		}
		got := receivedSpans(col.takeTraces())
		compareSpans(c, tee.want, got, tee.n)
		if tee.n != total {
			c.Count("spans dropped by the processor", int64(total-tee.n))
		}
	}
}
