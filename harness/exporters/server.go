// Command exporters holds the monitors for the exporters.
package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"math"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/pmetric/pmetricotlp"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/collector/pdata/ptrace/ptraceotlp"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

var checks = map[string]func(*hz.Run){}

func main() { hz.Main(checks) }

func verbose(f string, a ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// collector is a loopback OTLP endpoint that records what it is sent and
// answers as told.
type collector struct {
	opts    []grpc.ServerOption
	tls     bool // what it requires
	mu      sync.Mutex
	metrics []pmetric.Metrics
	traces  []ptrace.Traces
	mds     []metadata.MD
	// answer, when set, decides about each request before it is accepted.
	answer func(ctx context.Context, n int) error
	seen   int
	// since, when set, makes the collector ignore requests with nothing newer:
	// what an earlier case gave up can still arrive.
	since uint64
	srv   *grpc.Server
	addr  string
}

type mserv struct {
	pmetricotlp.UnimplementedGRPCServer
	c *collector
}
type tserv struct {
	ptraceotlp.UnimplementedGRPCServer
	c *collector
}

func (c *collector) decide(ctx context.Context, newest uint64) error {
	c.mu.Lock()
	if newest > 0 && newest < c.since {
		c.mu.Unlock()
		return errLate
	}
	a, n := c.answer, c.seen
	c.seen++
	md, _ := metadata.FromIncomingContext(ctx)
	c.mds = append(c.mds, md.Copy())
	c.mu.Unlock()
	if a == nil {
		return nil
	}
	return a(ctx, n)
}

var errLate = status.Error(codes.DeadlineExceeded, "given up long ago")

// newestPoint is the latest timestamp of a request's points, 0 without any.
func newestPoint(m pmetric.Metrics) (t uint64) {
	at := func(ts pcommon.Timestamp) { t = max(t, uint64(ts)) }
	for i := 0; i < m.ResourceMetrics().Len(); i++ {
		sms := m.ResourceMetrics().At(i).ScopeMetrics()
		for j := 0; j < sms.Len(); j++ {
			for k := 0; k < sms.At(j).Metrics().Len(); k++ {
				x := sms.At(j).Metrics().At(k)
				switch x.Type() {
				case pmetric.MetricTypeSum:
					for l := 0; l < x.Sum().DataPoints().Len(); l++ {
						at(x.Sum().DataPoints().At(l).Timestamp())
					}
				case pmetric.MetricTypeGauge:
					for l := 0; l < x.Gauge().DataPoints().Len(); l++ {
						at(x.Gauge().DataPoints().At(l).Timestamp())
					}
				case pmetric.MetricTypeExponentialHistogram:
					for l := 0; l < x.ExponentialHistogram().DataPoints().Len(); l++ {
						at(x.ExponentialHistogram().DataPoints().At(l).Timestamp())
					}
				default:
					at(math.MaxUint64)
				}
			}
		}
	}
	return
}

// newestSpan is the latest end of a request's spans.
func newestSpan(m ptrace.Traces) (t uint64) {
	for i := 0; i < m.ResourceSpans().Len(); i++ {
		sss := m.ResourceSpans().At(i).ScopeSpans()
		for j := 0; j < sss.Len(); j++ {
			for k := 0; k < sss.At(j).Spans().Len(); k++ {
				t = max(t, uint64(sss.At(j).Spans().At(k).EndTimestamp()))
			}
		}
	}
	return
}

// lostReply is the answer to a request that was processed all the same.
type lostReply struct{ error }

func (s mserv) Export(ctx context.Context, req pmetricotlp.ExportRequest) (pmetricotlp.ExportResponse, error) {
	newest := newestPoint(req.Metrics())
	err := s.c.decide(ctx, newest)
	lost, processed := err.(lostReply)
	if err != nil && !processed {
		return pmetricotlp.NewExportResponse(), err
	}
	cp := pmetric.NewMetrics()
	req.Metrics().CopyTo(cp)
	s.c.mu.Lock()
	if newest == 0 || newest >= s.c.since { // the case may have ended meanwhile
		s.c.metrics = append(s.c.metrics, cp)
	}
	s.c.mu.Unlock()
	return pmetricotlp.NewExportResponse(), lost.error
}

func (s tserv) Export(ctx context.Context, req ptraceotlp.ExportRequest) (ptraceotlp.ExportResponse, error) {
	newest := newestSpan(req.Traces())
	err := s.c.decide(ctx, newest)
	lost, processed := err.(lostReply)
	if err != nil && !processed {
		return ptraceotlp.NewExportResponse(), err
	}
	cp := ptrace.NewTraces()
	req.Traces().CopyTo(cp)
	s.c.mu.Lock()
	if newest == 0 || newest >= s.c.since { // the case may have ended meanwhile
		s.c.traces = append(s.c.traces, cp)
	}
	s.c.mu.Unlock()
	return ptraceotlp.NewExportResponse(), lost.error
}

func newCollector(addr string) *collector {
	c := &collector{}
	c.start(addr)
	return c
}

// newCollectorWith is a collector with more server options, such as TLS.
func newCollectorWith(o ...grpc.ServerOption) *collector {
	c := &collector{opts: o}
	c.start("")
	return c
}

func (c *collector) start(addr string) {
	if addr == "" {
		addr = "127.0.0.1:0"
	}
	var l net.Listener
	var err error
	for i := 0; i < 200; i++ {
		if l, err = net.Listen("tcp", addr); err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot listen:", err)
		os.Exit(3)
	}
	c.addr = l.Addr().String()
	c.srv = grpc.NewServer(append(c.opts, grpc.MaxRecvMsgSize(64<<20))...)
	pmetricotlp.RegisterGRPCServer(c.srv, &mserv{c: c})
	ptraceotlp.RegisterGRPCServer(c.srv, &tserv{c: c})
	go c.srv.Serve(l)
}

func (c *collector) stop() { c.srv.Stop() }

func (c *collector) takeMetrics() []pmetric.Metrics {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := c.metrics
	c.metrics = nil
	return m
}

func (c *collector) takeTraces() []ptrace.Traces {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := c.traces
	c.traces = nil
	return m
}

func (c *collector) takeMDs() []metadata.MD {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := c.mds
	c.mds = nil
	return m
}

func (c *collector) set(f func(ctx context.Context, n int) error) {
	c.mu.Lock()
	c.answer = f
	c.mu.Unlock()
}

// ---- canonical forms

func canonVal(v pcommon.Value) string {
	switch v.Type() {
	case pcommon.ValueTypeStr:
		return fmt.Sprintf("s:%q", v.Str())
	case pcommon.ValueTypeInt:
		return fmt.Sprintf("i:%d", v.Int())
	case pcommon.ValueTypeDouble:
		return fmt.Sprintf("d:%x", math.Float64bits(v.Double()))
	case pcommon.ValueTypeBool:
		return fmt.Sprintf("b:%v", v.Bool())
	case pcommon.ValueTypeSlice:
		var p []string
		for i := 0; i < v.Slice().Len(); i++ {
			p = append(p, canonVal(v.Slice().At(i)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case pcommon.ValueTypeEmpty:
		return "empty"
	}
	return "?" + v.Type().String()
}

func canonMap(m pcommon.Map) string {
	var p []string
	m.Range(func(k string, v pcommon.Value) bool {
		p = append(p, fmt.Sprintf("%q=%s", k, canonVal(v)))
		return true
	})
	sort.Strings(p)
	return strings.Join(p, ",")
}

func fl(f float64) string { return fmt.Sprintf("%x", math.Float64bits(f)) }

// multiset of strings
type mset map[string]int

func (m mset) add(s string) { m[s]++ }

func (m mset) diff(o mset) (missing, extra []string) {
	for k, n := range m {
		if o[k] < n {
			missing = append(missing, k)
		}
	}
	for k, n := range o {
		if m[k] < n {
			extra = append(extra, k)
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func bucketsOf(b pmetric.ExponentialHistogramDataPointBuckets) string {
	m := map[int32]uint64{}
	for i := 0; i < b.BucketCounts().Len(); i++ {
		if c := b.BucketCounts().At(i); c != 0 {
			m[b.Offset()+int32(i)] = c
		}
	}
	return fmt.Sprint(m)
}

// receivedPoints flattens OTLP metrics into one line per point.
func receivedPoints(ms []pmetric.Metrics) (mset, []string) {
	out := mset{}
	var bad []string
	for _, m := range ms {
		for i := 0; i < m.ResourceMetrics().Len(); i++ {
			rm := m.ResourceMetrics().At(i)
			res := canonMap(rm.Resource().Attributes())
			for j := 0; j < rm.ScopeMetrics().Len(); j++ {
				sm := rm.ScopeMetrics().At(j)
				scope := fmt.Sprintf("%q %q %q", sm.Scope().Name(), sm.Scope().Version(), sm.SchemaUrl())
				for k := 0; k < sm.Metrics().Len(); k++ {
					x := sm.Metrics().At(k)
					head := fmt.Sprintf("res{%s} scope{%s} metric{%q %q %q} ", res, scope, x.Name(), x.Unit(), x.Description())
					num := func(dp pmetric.NumberDataPoint) string {
						switch dp.ValueType() {
						case pmetric.NumberDataPointValueTypeInt:
							return fmt.Sprintf("int %d", dp.IntValue())
						case pmetric.NumberDataPointValueTypeDouble:
							return "double " + fl(dp.DoubleValue())
						}
						return "none"
					}
					switch x.Type() {
					case pmetric.MetricTypeSum:
						for q := 0; q < x.Sum().DataPoints().Len(); q++ {
							dp := x.Sum().DataPoints().At(q)
							out.add(head + fmt.Sprintf("sum mono=%v %v [%d,%d] {%s} %s", x.Sum().IsMonotonic(), x.Sum().AggregationTemporality(), dp.StartTimestamp(), dp.Timestamp(), canonMap(dp.Attributes()), num(dp)))
						}
					case pmetric.MetricTypeGauge:
						for q := 0; q < x.Gauge().DataPoints().Len(); q++ {
							dp := x.Gauge().DataPoints().At(q)
							out.add(head + fmt.Sprintf("gauge [%d] {%s} %s", dp.Timestamp(), canonMap(dp.Attributes()), num(dp)))
						}
					case pmetric.MetricTypeExponentialHistogram:
						h := x.ExponentialHistogram()
						for q := 0; q < h.DataPoints().Len(); q++ {
							dp := h.DataPoints().At(q)
							mm := ""
							if dp.Count() != 0 {
								mm = "min " + fl(dp.Min()) + " max " + fl(dp.Max())
								if !dp.HasMin() || !dp.HasMax() || !dp.HasSum() {
									bad = append(bad, head+": min, max or sum missing")
								}
							}
							out.add(head + fmt.Sprintf("exphist %v [%d,%d] {%s} count=%d sum=%s zero=%d scale=%d pos=%s neg=%s %s", h.AggregationTemporality(), dp.StartTimestamp(), dp.Timestamp(), canonMap(dp.Attributes()),
								dp.Count(), fl(dp.Sum()), dp.ZeroCount(), dp.Scale(), bucketsOf(dp.Positive()), bucketsOf(dp.Negative()), mm))
						}
					case pmetric.MetricTypeHistogram:
						h := x.Histogram()
						for q := 0; q < h.DataPoints().Len(); q++ {
							dp := h.DataPoints().At(q)
							mm := ""
							if dp.Count() != 0 {
								mm = "min " + fl(dp.Min()) + " max " + fl(dp.Max())
							}
							out.add(head + fmt.Sprintf("hist %v [%d,%d] {%s} count=%d sum=%s buckets=%v %s", h.AggregationTemporality(), dp.StartTimestamp(), dp.Timestamp(), canonMap(dp.Attributes()), dp.Count(), fl(dp.Sum()), dp.BucketCounts().Len(), mm))
						}
					default:
						bad = append(bad, head+": metric without data")
					}
				}
			}
		}
	}
	return out, bad
}

func spanIDs(t [16]byte, s [8]byte) string {
	return hex.EncodeToString(t[:]) + "/" + hex.EncodeToString(s[:])
}

func (m mset) withoutSchema() mset {
	o := mset{}
	for k, v := range m {
		o[strings.Replace(k, " \"http://schema\"} metric", " \"\"} metric", 1)] += v
	}
	return o
}
