package main

import (
	"context"
	"fmt"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

// ---- error capture

type errSink struct {
	mu   sync.Mutex
	errs []error
	n    int64
	hook func(error)
}

func (e *errSink) Handle(err error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.n++
	if e.hook != nil {
		e.hook(err)
	}
	if len(e.errs) < 1000 {
		e.errs = append(e.errs, err)
	}
}

func (e *errSink) take() []error {
	e.mu.Lock()
	defer e.mu.Unlock()
	r := e.errs
	e.errs = nil
	return r
}

var sink = &errSink{}

func init() { otel.SetErrorHandler(sink) }

// ---- numbers: a measurement is int64 or float64

type num struct {
	k number.Kind
	i int64
	f float64
}

func inum(i int64) num   { return num{k: number.Int64Kind, i: i} }
func fnum(f float64) num { return num{k: number.Float64Kind, f: f} }

func (n num) String() string {
	if n.k == number.Int64Kind {
		return fmt.Sprint(n.i)
	}
	return fmt.Sprint(n.f)
}
func (n num) eq(o num) bool {
	if n.k != o.k {
		return false
	}
	if n.k == number.Int64Kind {
		return n.i == o.i
	}
	return n.f == o.f || (math.IsNaN(n.f) && math.IsNaN(o.f))
}
func (n num) add(o num) num {
	if n.k == number.Int64Kind {
		n.i += o.i
	} else {
		n.f += o.f
	}
	return n
}
func (n num) sub(o num) num {
	if n.k == number.Int64Kind {
		n.i -= o.i
	} else {
		n.f -= o.f
	}
	return n
}
func (n num) less(o num) bool {
	if n.k == number.Int64Kind {
		return n.i < o.i
	}
	return n.f < o.f
}
func (n num) isZero() bool { return n.i == 0 && n.f == 0 }
func (n num) float() float64 {
	if n.k == number.Int64Kind {
		return float64(n.i)
	}
	return n.f
}
func zero(k number.Kind) num { return num{k: k} }

func fromNumber(x number.Number, k number.Kind) num {
	if k == number.Int64Kind {
		return inum(int64(x))
	}
	return fnum(math.Float64frombits(uint64(x)))
}

// ---- instruments

type inst struct {
	kind sdkinstrument.Kind
	nk   number.Kind
	name string
	desc string
	unit string
	// one of:
	ctrI  metric.Int64Counter
	ctrF  metric.Float64Counter
	udI   metric.Int64UpDownCounter
	udF   metric.Float64UpDownCounter
	gI    metric.Int64Gauge
	gF    metric.Float64Gauge
	hI    metric.Int64Histogram
	hF    metric.Float64Histogram
	obsI  metric.Int64Observable
	obsF  metric.Float64Observable
	fastI func(ctx context.Context, v int64, kvs ...attribute.KeyValue)
	fastF func(ctx context.Context, v float64, kvs ...attribute.KeyValue)
}

// create makes an instrument of any kind through the public API.
func create(m metric.Meter, kind sdkinstrument.Kind, nk number.Kind, name, desc, unit string) (*inst, error) {
	in := &inst{kind: kind, nk: nk, name: name, desc: desc, unit: unit}
	var err error
	d := metric.WithDescription(desc)
	u := metric.WithUnit(unit)
	isInt := nk == number.Int64Kind
	switch kind {
	case sdkinstrument.SyncCounter:
		if isInt {
			in.ctrI, err = m.Int64Counter(name, d, u)
			if b, ok := in.ctrI.(bypass.FastInt64Adder); ok {
				in.fastI = b.AddWithKeyValues
			}
		} else {
			in.ctrF, err = m.Float64Counter(name, d, u)
			if b, ok := in.ctrF.(bypass.FastFloat64Adder); ok {
				in.fastF = b.AddWithKeyValues
			}
		}
	case sdkinstrument.SyncUpDownCounter:
		if isInt {
			in.udI, err = m.Int64UpDownCounter(name, d, u)
			if b, ok := in.udI.(bypass.FastInt64Adder); ok {
				in.fastI = b.AddWithKeyValues
			}
		} else {
			in.udF, err = m.Float64UpDownCounter(name, d, u)
			if b, ok := in.udF.(bypass.FastFloat64Adder); ok {
				in.fastF = b.AddWithKeyValues
			}
		}
	case sdkinstrument.SyncGauge:
		if isInt {
			in.gI, err = m.Int64Gauge(name, d, u)
		} else {
			in.gF, err = m.Float64Gauge(name, d, u)
		}
	case sdkinstrument.SyncHistogram:
		if isInt {
			in.hI, err = m.Int64Histogram(name, d, u)
			if b, ok := in.hI.(bypass.FastInt64Recorder); ok {
				in.fastI = b.RecordWithKeyValues
			}
		} else {
			in.hF, err = m.Float64Histogram(name, d, u)
			if b, ok := in.hF.(bypass.FastFloat64Recorder); ok {
				in.fastF = b.RecordWithKeyValues
			}
		}
	case sdkinstrument.AsyncCounter:
		if isInt {
			in.obsI, err = m.Int64ObservableCounter(name, d, u)
		} else {
			in.obsF, err = m.Float64ObservableCounter(name, d, u)
		}
	case sdkinstrument.AsyncUpDownCounter:
		if isInt {
			in.obsI, err = m.Int64ObservableUpDownCounter(name, d, u)
		} else {
			in.obsF, err = m.Float64ObservableUpDownCounter(name, d, u)
		}
	case sdkinstrument.AsyncGauge:
		if isInt {
			in.obsI, err = m.Int64ObservableGauge(name, d, u)
		} else {
			in.obsF, err = m.Float64ObservableGauge(name, d, u)
		}
	}
	return in, err
}

type path int

const (
	viaOptions path = iota // WithAttributes
	viaSet                 // WithAttributeSet
	viaFast                // bypass API, where offered
	numPaths
)

func (in *inst) hasFast() bool { return in.fastI != nil || in.fastF != nil }

// record performs one synchronous measurement.
func (in *inst) record(ctx context.Context, v num, p path, kvs []attribute.KeyValue) {
	if p == viaFast {
		if in.fastI != nil {
			in.fastI(ctx, v.i, kvs...)
			return
		}
		if in.fastF != nil {
			in.fastF(ctx, v.f, kvs...)
			return
		}
		p = viaOptions
	}
	var opt metric.MeasurementOption
	if p == viaSet {
		cp := append([]attribute.KeyValue(nil), kvs...)
		opt = metric.WithAttributeSet(attribute.NewSet(cp...))
	} else {
		opt = metric.WithAttributes(kvs...)
	}
	switch in.kind {
	case sdkinstrument.SyncCounter:
		if in.nk == number.Int64Kind {
			in.ctrI.Add(ctx, v.i, opt)
		} else {
			in.ctrF.Add(ctx, v.f, opt)
		}
	case sdkinstrument.SyncUpDownCounter:
		if in.nk == number.Int64Kind {
			in.udI.Add(ctx, v.i, opt)
		} else {
			in.udF.Add(ctx, v.f, opt)
		}
	case sdkinstrument.SyncGauge:
		if in.nk == number.Int64Kind {
			in.gI.Record(ctx, v.i, opt)
		} else {
			in.gF.Record(ctx, v.f, opt)
		}
	case sdkinstrument.SyncHistogram:
		if in.nk == number.Int64Kind {
			in.hI.Record(ctx, v.i, opt)
		} else {
			in.hF.Record(ctx, v.f, opt)
		}
	}
}

func (in *inst) observable() metric.Observable {
	if in.nk == number.Int64Kind {
		return in.obsI
	}
	return in.obsF
}

// observe makes one observation inside a callback.
func (in *inst) observe(o metric.Observer, v num, kvs []attribute.KeyValue) {
	if in.nk == number.Int64Kind {
		o.ObserveInt64(in.obsI, v.i, metric.WithAttributes(kvs...))
	} else {
		o.ObserveFloat64(in.obsF, v.f, metric.WithAttributes(kvs...))
	}
}

// ---- snapshots of collected data

type spoint struct {
	attrs string
	set   attribute.Set
	tempo aggregation.Temporality
	kind  aggregation.Kind
	mono  bool
	start time.Time
	end   time.Time
	val   num // sum or gauge
	count uint64
	min   num
	max   num
	zero  uint64
	scale int32
	pos   map[int32]uint64
	neg   map[int32]uint64
	plen  uint32
	nlen  uint32
}

type sinst struct {
	desc   sdkinstrument.Descriptor
	points []spoint
}

type sscope struct {
	lib   instrumentation.Scope
	insts []sinst
}

type snap struct {
	before, after time.Time
	scopes        []sscope
	res           string
}

func canonKV(kv attribute.KeyValue) string {
	switch kv.Value.Type() {
	case attribute.STRING:
		return fmt.Sprintf("%q=s:%q", string(kv.Key), kv.Value.AsString())
	case attribute.STRINGSLICE:
		return fmt.Sprintf("%q=S:%q", string(kv.Key), kv.Value.AsStringSlice())
	}
	return fmt.Sprintf("%q=%d:%v", string(kv.Key), kv.Value.Type(), kv.Value.AsInterface())
}

func canonSet(s *attribute.Set) string {
	var parts []string
	for it := s.Iter(); it.Next(); {
		parts = append(parts, canonKV(it.Attribute()))
	}
	return strings.Join(parts, ",")
}

// canonList computes, independently of the attribute package's Set, the
// canonical identity of a list of key-values: last value wins, sorted by key.
func canonList(kvs []attribute.KeyValue) string {
	m := map[attribute.Key]attribute.KeyValue{}
	for _, kv := range kvs {
		m[kv.Key] = kv
	}
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, string(k))
	}
	sort.Strings(keys)
	var parts []string
	for _, k := range keys {
		parts = append(parts, canonKV(m[attribute.Key(k)]))
	}
	return strings.Join(parts, ",")
}

func buckets(b aggregation.Buckets) (map[int32]uint64, uint32) {
	m := map[int32]uint64{}
	for i := uint32(0); i < b.Len(); i++ {
		if c := b.At(i); c != 0 {
			m[b.Offset()+int32(i)] += c
		}
	}
	return m, b.Len()
}

func snapPoint(p *data.Point, nk number.Kind) spoint {
	sp := spoint{
		set: p.Attributes, attrs: canonSet(&p.Attributes),
		tempo: p.Temporality, start: p.Start, end: p.End,
		kind: p.Aggregation.Kind(),
	}
	switch a := p.Aggregation.(type) {
	case aggregation.Histogram:
		sp.val = fromNumber(a.Sum(), nk)
		sp.count = a.Count()
		sp.zero = a.ZeroCount()
		sp.scale = a.Scale()
		sp.min = fromNumber(a.Min(), nk)
		sp.max = fromNumber(a.Max(), nk)
		sp.pos, sp.plen = buckets(a.Positive())
		sp.neg, sp.nlen = buckets(a.Negative())
	case aggregation.MinMaxSumCount:
		sp.val = fromNumber(a.Sum(), nk)
		sp.count = a.Count()
		sp.min = fromNumber(a.Min(), nk)
		sp.max = fromNumber(a.Max(), nk)
	case aggregation.Gauge:
		sp.val = fromNumber(a.Gauge(), nk)
	case aggregation.Sum:
		sp.val = fromNumber(a.Sum(), nk)
		sp.mono = a.IsMonotonic()
	}
	return sp
}

func takeSnap(m *data.Metrics) *snap {
	s := &snap{}
	if m.Resource != nil {
		s.res = m.Resource.String()
	}
	for i := range m.Scopes {
		sc := &m.Scopes[i]
		ss := sscope{lib: sc.Library}
		for j := range sc.Instruments {
			in := &sc.Instruments[j]
			si := sinst{desc: in.Descriptor}
			for k := range in.Points {
				si.points = append(si.points, snapPoint(&in.Points[k], in.Descriptor.NumberKind))
			}
			ss.insts = append(ss.insts, si)
		}
		s.scopes = append(s.scopes, ss)
	}
	return s
}

// produce collects from a manual reader, optionally re-using memory.
func produce(r *lmetric.ManualReader, reuse *data.Metrics) *snap {
	before := time.Now()
	out := r.Produce(reuse)
	after := time.Now()
	if reuse != nil {
		*reuse = out
	}
	s := takeSnap(&out)
	s.before, s.after = before, after
	return s
}

// find returns the points of one named metric (all instruments by that name).
func (s *snap) find(scope, name string) (pts []spoint, ok bool) {
	for i := range s.scopes {
		if s.scopes[i].lib.Name != scope {
			continue
		}
		for j := range s.scopes[i].insts {
			if s.scopes[i].insts[j].desc.Name == name {
				ok = true
				pts = append(pts, s.scopes[i].insts[j].points...)
			}
		}
	}
	return
}

func timeNow() time.Time { return time.Now() }

// readerName names the i-th reader. Names are labels only: readers may well
// share one, and about half of the programs have such readers.
func readerName(c *hz.Case, i int) string {
	switch (c.Seed >> 7) % 4 {
	case 0:
		return "metrics"
	case 1:
		return [2]string{"metrics", ""}[i%2]
	}
	return fmt.Sprint("r", i)
}
