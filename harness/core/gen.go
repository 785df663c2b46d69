package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"strings"
	"time"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

var allKinds = []sdkinstrument.Kind{
	sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncGauge, sdkinstrument.SyncHistogram,
	sdkinstrument.AsyncCounter, sdkinstrument.AsyncUpDownCounter, sdkinstrument.AsyncGauge,
}
var syncKinds = allKinds[:4]
var asyncKinds = allKinds[4:]

// ---- attributes

var attrKeys = []string{"a", "b", "c", "d"}

type attrOpts struct {
	simple bool // only collision-free values, no duplicate keys
	long   int  // > 0: also generate keys and values around this length
	empty  bool // sometimes an empty key
	max    int
}

func genValue(r *rand.Rand, o attrOpts) attribute.Value {
	if o.simple {
		if r.IntN(2) == 0 {
			return attribute.StringValue(fmt.Sprintf("v%d", r.IntN(3)))
		}
		return attribute.IntValue(r.IntN(3))
	}
	if o.long > 0 && r.IntN(2) == 0 {
		n := o.long - 1 + r.IntN(4)
		tail := fmt.Sprint(r.IntN(2))
		s := strings.Repeat("x", max(0, n-1)) + tail
		if r.IntN(3) == 0 {
			return attribute.StringSliceValue([]string{s, "q", fmt.Sprintf("%szz", s)})
		}
		return attribute.StringValue(s)
	}
	switch r.IntN(9) {
	case 0, 1:
		return attribute.StringValue(fmt.Sprintf("v%d", r.IntN(3)))
	case 2, 3:
		return attribute.IntValue(r.IntN(3))
	case 4:
		return attribute.BoolValue(r.IntN(2) == 0)
	case 5:
		return attribute.Float64Value(float64(r.IntN(3)) / 2)
	case 6:
		// permutations: same multiset of elements, different value
		perms := [][]int64{{1, 2, 3}, {3, 2, 1}, {2, 1, 3}, {1, 2}, {2, 1}}
		return attribute.Int64SliceValue(perms[r.IntN(len(perms))])
	case 7:
		perms := [][]string{{"x", "y"}, {"y", "x"}, {"x"}, {""}, {}}
		return attribute.StringSliceValue(perms[r.IntN(len(perms))])
	default:
		perms := [][]bool{{true, false}, {false, true}}
		return attribute.BoolSliceValue(perms[r.IntN(len(perms))])
	}
}

func genAttrs(r *rand.Rand, o attrOpts) []attribute.KeyValue {
	mx := o.max
	if mx == 0 {
		mx = 4
	}
	n := r.IntN(mx)
	out := make([]attribute.KeyValue, 0, n)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		k := attrKeys[r.IntN(len(attrKeys))]
		if o.empty && r.IntN(8) == 0 {
			k = ""
		}
		if o.long > 0 && r.IntN(3) == 0 {
			k = strings.Repeat("k", o.long-1+r.IntN(3)) + fmt.Sprint(r.IntN(2))
		}
		if o.simple && used[k] {
			continue
		}
		used[k] = true
		out = append(out, attribute.KeyValue{Key: attribute.Key(k), Value: genValue(r, o)})
	}
	return out
}

func shuffled(r *rand.Rand, kvs []attribute.KeyValue) []attribute.KeyValue {
	cp := append([]attribute.KeyValue(nil), kvs...)
	r.Shuffle(len(cp), func(i, j int) { cp[i], cp[j] = cp[j], cp[i] })
	return cp
}

// ---- values

func genNum(r *rand.Rand, kind sdkinstrument.Kind, nk number.Kind, invalid bool) num {
	if invalid && r.IntN(5) == 0 {
		if nk == number.Float64Kind {
			bads := []float64{math.NaN(), math.Inf(1), math.Inf(-1), -1, -0.25, math.Copysign(0, -1)}
			return fnum(bads[r.IntN(len(bads))])
		}
		bads := []int64{-1, -5, -1 << 40}
		return inum(bads[r.IntN(len(bads))])
	}
	mag := int64(r.Uint64() >> (24 + r.IntN(40)))
	if r.IntN(12) == 0 {
		mag = 0
	}
	neg := (kind == sdkinstrument.SyncUpDownCounter || kind == sdkinstrument.SyncGauge || kind == sdkinstrument.AsyncUpDownCounter || kind == sdkinstrument.AsyncGauge) && r.IntN(2) == 0
	if neg {
		mag = -mag
	}
	if nk == number.Int64Kind {
		return inum(mag)
	}
	return fnum(float64(mag) / 1024)
}

// ---- reader configuration

func genTempo(r *rand.Rand) (t [sdkinstrument.NumKinds]aggregation.Temporality) {
	mode := r.IntN(5)
	for _, k := range allKinds {
		switch mode {
		case 0:
			t[k] = aggregation.CumulativeTemporality
		case 1:
			t[k] = aggregation.DeltaTemporality
		case 2:
			t[k] = aggregation.LowMemoryTemporality(k)
		default:
			t[k] = []aggregation.Temporality{aggregation.CumulativeTemporality, aggregation.DeltaTemporality}[r.IntN(2)]
		}
	}
	return
}

// profile selects what a property's histories exercise, and which aspects of
// the comparison decide it.
type profile struct {
	kinds      []sdkinstrument.Kind
	maxReaders int
	maxClauses int
	aggDefault bool
	hints      bool
	process    bool
	attrLimit  bool
	invalid    bool
	empty      bool
	dupInst    bool // instruments sharing names
	callbacks  bool
	ops        int
	simple     bool
	aspects    map[string]bool // nil: all
	conflicts  bool            // also compare registration errors
	reuse      bool            // also compare re-used against fresh output
	noFast     bool
	limits     bool
}

func aspects(a ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	return m
}

var instNames = []string{"alpha", "beta", "gamma", "alpha.two", "delta_x"}
var scopeNames = []instrumentation.Scope{
	{Name: "lib1"}, {Name: "lib2", Version: "v1"}, {Name: "lib2", Version: "v2", SchemaURL: "http://s"},
	// the less frequent ones
	{Name: "lib2", Version: "v2"}, {Name: "lib2", Version: "v2", SchemaURL: "http://t"}, {Name: "lib1", SchemaURL: "http://s"}, {Name: "v1", Version: "lib2"},
}

func genScope(r *rand.Rand) int {
	if r.IntN(4) == 0 {
		return r.IntN(len(scopeNames))
	}
	return r.IntN(3)
}

func genClause(r *rand.Rand, i int, p *profile) clauseSpec {
	c := clauseSpec{kind: -1, nk: -1}
	switch r.IntN(4) {
	case 0:
		c.name = instNames[r.IntN(len(instNames))]
	case 1:
		c.re = []string{"^alpha", "a$", ".*", "[.]two", "et"}[r.IntN(5)]
	case 2:
		c.name = instNames[r.IntN(len(instNames))]
		if r.IntN(4) == 0 {
			c.re = "nomatchever" // the exact name takes precedence
		}
	}
	if r.IntN(3) == 0 {
		c.kind = p.kinds[r.IntN(len(p.kinds))]
	}
	if r.IntN(4) == 0 {
		c.nk = []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
	}
	if r.IntN(4) == 0 {
		l := scopeNames[genScope(r)]
		switch r.IntN(4) {
		case 0:
			c.lib = instrumentation.Scope{Name: l.Name}
		case 1:
			c.lib = instrumentation.Scope{Version: l.Version}
		case 2:
			c.lib = instrumentation.Scope{SchemaURL: l.SchemaURL}
		default:
			c.lib = l
		}
	}
	if r.IntN(2) == 0 {
		c.keys = []string{}
		for _, k := range attrKeys {
			if r.IntN(2) == 0 {
				c.keys = append(c.keys, k)
			}
		}
	}
	switch r.IntN(4) {
	case 0:
		if c.name != "" {
			c.rename = fmt.Sprintf("=ren%d", i)
		}
	case 1:
		c.rename = fmt.Sprintf("+p%d.", i)
	}
	if r.IntN(4) == 0 {
		c.desc = fmt.Sprintf("view desc %d", i)
	}
	switch r.IntN(7) {
	case 0:
		c.agg = aggregation.DropKind
	case 1:
		c.agg = aggregation.AnySumKind
	case 2:
		c.agg = aggregation.MonotonicSumKind
	case 3:
		c.agg = aggregation.NonMonotonicSumKind
	case 4:
		c.agg = []aggregation.Kind{aggregation.GaugeKind, aggregation.HistogramKind, aggregation.MinMaxSumCountKind}[r.IntN(3)]
		if p.hints {
			// Hints bypass compatibility checks; distributions of
			// asynchronous instruments are not specified.
			c.agg = aggregation.GaugeKind
		}
	}
	if r.IntN(5) == 0 {
		c.maxSize = int32(4 + r.IntN(3)*20)
	}
	return c
}

func genHint(r *rand.Rand, kind sdkinstrument.Kind) string {
	var h hintSpec
	h.Description = []string{"", "hinted", "a hinted description", "with {braces} and \"quotes\"", "größe"}[r.IntN(5)]
	sync := kind.Synchronous()
	if r.IntN(3) > 0 {
		aggs := []string{"sum", "monotonic_sum", "nonmonotonic_sum", "gauge", "GAUGE", "drop"}
		if sync {
			aggs = append(aggs, "histogram", "exponential_histogram", "minmaxsumcount", "Histogram")
		}
		h.Aggregation = aggs[r.IntN(len(aggs))]
		if r.IntN(8) == 0 {
			h.Aggregation = "nonsense"
		}
	}
	if r.IntN(2) == 0 {
		h.Temporality = []string{"delta", "cumulative", "Delta", "bogus"}[r.IntN(4)]
	}
	if r.IntN(3) == 0 {
		h.Config.Histogram.MaxSize = int32(4 + r.IntN(20))
	}
	if r.IntN(4) == 0 {
		h.Config.CardinalityLimit = uint32(500 + r.IntN(2))
	}
	b, _ := json.Marshal(h)
	return hintForm(r, b)
}

// hintForm writes a hint the ways people do.
func hintForm(r *rand.Rand, b []byte) string {
	switch r.IntN(10) {
	case 0: // indented, as in a raw string
		var out bytes.Buffer
		_ = json.Indent(&out, b, "\t\t", "\t")
		return "\n\t\t" + out.String() + "\n\t"
	case 1: // white space around
		return " " + string(b) + "\r\n"
	case 2, 3: // only the fields that say something
		var m map[string]any
		_ = json.Unmarshal(b, &m)
		for k, v := range m {
			if v == "" {
				delete(m, k)
			}
		}
		if cfg, ok := m["config"].(map[string]any); ok {
			if cfg["cardinality_limit"] == 0.0 {
				delete(cfg, "cardinality_limit")
			}
			if hc := cfg["histogram"].(map[string]any); hc["max_size"] == 0.0 {
				delete(cfg, "histogram")
			}
			if len(cfg) == 0 {
				delete(m, "config")
			}
		}
		if r.IntN(3) == 0 {
			m["unit"] = "unknown fields are ignored"
		}
		b, _ = json.Marshal(m)
	case 4: // not a hint after all
		switch r.IntN(4) {
		case 0:
			return "requests by {route}"
		case 1:
			return string(b[:len(b)-1])
		case 2:
			return "hint: " + string(b)
		case 3:
			return string(b) + string(b)
		}
	}
	return string(b)
}

// ---- one sequential history

type world struct {
	c        *hz.Case
	m        *model
	p        *lmetric.MeterProvider
	readers  []*lmetric.ManualReader
	mem      []*data.Metrics
	insts    []*inst
	minsts   []*minst
	scopes   []*mscope
	meters   []metric.Meter
	cbs      []*cbRec
	obs      []observation
	trace    []string
	perf     sdkinstrument.Performance
	oneAlias map[string]int
}

type cbRec struct {
	reg   metric.Registration
	insts []int
	live  bool
	plan  []obsPlan
	calls int
	scope int
}

type obsPlan struct {
	inst     int
	v        num
	kvs      []attribute.KeyValue
	declared bool
}

func (w *world) log(f string, a ...any) {
	if len(w.trace) < 400 {
		w.trace = append(w.trace, fmt.Sprintf(f, a...))
	}
}

type ctxKey struct{}

// tagProcessor appends attributes taken from the context and drops key "d"
// when it has value 0.
type tagProcessor struct{}

func (tagProcessor) Process(ctx context.Context, in []attribute.KeyValue) []attribute.KeyValue {
	var out []attribute.KeyValue
	for _, kv := range in {
		if kv.Key == "d" && kv.Value.Type() == attribute.INT64 && kv.Value.AsInt64() == 0 {
			continue
		}
		out = append(out, kv)
	}
	if v, ok := ctx.Value(ctxKey{}).(string); ok {
		out = append(out, attribute.String("ctx", v))
	}
	return out
}

func newWorld(c *hz.Case, p *profile) *world {
	r := c.R
	w := &world{c: c}
	nr := 1 + r.IntN(p.maxReaders)
	var specs []readerSpec
	for i := 0; i < nr; i++ {
		rs := readerSpec{tempo: genTempo(r), reuse: r.IntN(2) == 0}
		if p.aggDefault && r.IntN(2) == 0 {
			rs.aggSet = true
			for _, k := range allKinds {
				rs.agg[k] = stdAgg(k)
				if r.IntN(3) == 0 {
					rs.agg[k] = []aggregation.Kind{
						aggregation.DropKind, aggregation.AnySumKind, aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind,
						aggregation.GaugeKind, aggregation.HistogramKind, aggregation.MinMaxSumCountKind,
					}[r.IntN(7)]
					if p.hints && rs.agg[k] > aggregation.GaugeKind && !k.Synchronous() {
						rs.agg[k] = stdAgg(k)
					}
				}
			}
		}
		if p.aggDefault && r.IntN(2) == 0 {
			rs.cfgSet = true
			for _, k := range allKinds {
				for n := range rs.size[k] {
					rs.size[k][n] = []int32{0, 3, 4, 24, 24, 200}[r.IntN(6)]
					rs.limit[k][n] = uint32(r.IntN(2) * (500 + r.IntN(3)))
				}
			}
		}
		if p.maxClauses > 0 {
			for j, n := 0, r.IntN(p.maxClauses+1); j < n; j++ {
				rs.clauses = append(rs.clauses, genClause(r, j, p))
			}
		}
		specs = append(specs, rs)
	}
	w.m = newModel(specs)
	w.perf = sdkinstrument.Performance{}
	if r.IntN(2) == 0 {
		w.perf.InactiveCollectionPeriods = uint32(1 + r.IntN(3))
	}
	if p.simple || r.IntN(4) == 0 {
		w.perf.IgnoreCollisions = r.IntN(2) == 0
	}
	if p.attrLimit {
		switch r.IntN(24) {
		case 0: // the default
		case 1, 2, 3:
			w.perf.AttributeSizeLimit = uint32(1 + r.IntN(3))
		default:
			w.perf.AttributeSizeLimit = uint32(4 + r.IntN(12))
		}
		if w.perf.AttributeSizeLimit != 0 {
			w.m.attrLimit = int(w.perf.AttributeSizeLimit)
		}
	}
	if p.process && r.IntN(2) == 0 {
		w.perf.MeasurementProcessor = tagProcessor{}
		w.m.process = tagProcessor{}.Process
	}
	opts := []lmetric.Option{lmetric.WithPerformance(w.perf)}
	for i := range specs {
		rd := lmetric.NewManualReader(readerName(c, i))
		w.readers = append(w.readers, rd)
		w.mem = append(w.mem, &data.Metrics{})
		opts = append(opts, lmetric.WithReader(rd, w.m.readers[i].options()...))
		w.log("reader %d: tempo=%v aggSet=%v agg=%v clauses=%v reuse=%v", i, specs[i].tempo, specs[i].aggSet, specs[i].agg, specs[i].clauses, specs[i].reuse)
	}
	w.log("perf: %+v", w.perf)
	w.m.provLo = time.Now()
	w.p = lmetric.NewMeterProvider(opts...)
	w.m.provHi = time.Now()
	return w
}

func (w *world) attrOpts(p *profile) attrOpts {
	o := attrOpts{simple: p.simple || w.perf.IgnoreCollisions, empty: p.empty}
	if p.attrLimit && !o.simple {
		// Truncated keys may become equal; with collisions ignored the
		// order of duplicates is then not significant.
		o.long = w.m.attrLimit
	}
	return o
}

func (w *world) addInstrument(p *profile) {
	r := w.c.R
	si := genScope(r)
	lib := scopeNames[si]
	meter := w.p.Meter(lib.Name, metric.WithInstrumentationVersion(lib.Version), metric.WithSchemaURL(lib.SchemaURL))
	sc := w.m.scope(lib)
	kind := p.kinds[r.IntN(len(p.kinds))]
	nk := []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
	name := instNames[r.IntN(len(instNames))]
	if !p.dupInst {
		name = fmt.Sprintf("%s.%d", name, len(w.insts))
		if p.maxClauses > 0 && len(w.insts) < len(instNames) {
			name = instNames[len(w.insts)]
		}
	}
	desc := []string{"", "short", "a longer description"}[r.IntN(3)]
	unit := []string{"", "By", "ms"}[r.IntN(3)]
	if p.hints && r.IntN(2) == 0 {
		desc = genHint(r, kind)
		if r.IntN(8) == 0 {
			desc = "{ not json"
		}
	}
	if p.dupInst && len(w.insts) > 0 && r.IntN(3) == 0 {
		// exact or near re-registration
		o := w.insts[r.IntN(len(w.insts))]
		kind, nk, name, desc, unit = o.kind, o.nk, o.name, o.desc, o.unit
	}
	in, err := create(meter, kind, nk, name, desc, unit)
	mi, conflict := w.m.instrument(sc, sdkinstrument.NewDescriptor(name, kind, nk, desc, unit))
	w.log("inst %d: scope=%v kind=%v nk=%v name=%q desc=%q unit=%q err=%v", len(w.insts), lib, kind, nk, name, desc, unit, err)
	w.insts = append(w.insts, in)
	w.minsts = append(w.minsts, mi)
	w.scopes = append(w.scopes, sc)
	w.meters = append(w.meters, meter)
	if p.conflicts {
		w.c.Eval(1)
		if (err != nil) != conflict {
			w.c.Violate(map[string]any{"history": w.trace}, "registration of %q kind %v: error %v, conflict expected: %v", name, kind, err, conflict)
		}
	}
}

func (w *world) syncIdx() []int {
	var x []int
	for i, in := range w.insts {
		if in.kind.Synchronous() {
			x = append(x, i)
		}
	}
	return x
}

func (w *world) asyncIdx() []int {
	var x []int
	for i, in := range w.insts {
		if !in.kind.Synchronous() {
			x = append(x, i)
		}
	}
	return x
}

func (w *world) recordOp(p *profile) {
	r := w.c.R
	idx := w.syncIdx()
	if len(idx) == 0 {
		return
	}
	i := idx[r.IntN(len(idx))]
	in := w.insts[i]
	kvs := genAttrs(r, w.attrOpts(p))
	v := genNum(r, in.kind, in.nk, p.invalid)
	pth := path(r.IntN(int(numPaths)))
	if pth == viaFast && (!in.hasFast() || p.noFast) {
		pth = viaOptions
	}
	ctx := context.Background()
	var mproc processor
	if w.m.process != nil && r.IntN(2) == 0 {
		tag := fmt.Sprintf("t%d", r.IntN(2))
		ctx = context.WithValue(ctx, ctxKey{}, tag)
		inner := ctx
		mproc = func(_ context.Context, a []attribute.KeyValue) []attribute.KeyValue {
			return tagProcessor{}.Process(inner, a)
		}
	}
	before := append([]attribute.KeyValue(nil), kvs...)
	// A slice with spare capacity: the SDK must not append into the caller's array.
	call := make([]attribute.KeyValue, len(kvs), len(kvs)+4)
	copy(call, kvs)
	spare := call[:cap(call)]
	in.record(ctx, v, pth, call)
	w.log("record inst=%d v=%v path=%d attrs={%s}", i, v, pth, canonListRaw(before))
	if pth == viaFast {
		w.c.Eval(1)
		for j := range spare {
			want := attribute.KeyValue{}
			if j < len(before) {
				want = before[j]
			}
			if canonKV(spare[j]) != canonKV(want) && !(want.Key == "" && spare[j].Key == "" && j >= len(before)) {
				w.c.Violate(map[string]any{"history": w.trace}, "recording modified the caller's attribute slice at %d: %s became %s", j, canonKV(want), canonKV(spare[j]))
			}
		}
	}
	// The caller may re-use the slice as soon as the call returned.
	for j := range call {
		call[j] = attribute.String("overwritten", "by caller")
	}
	old := w.m.process
	if mproc != nil {
		w.m.process = mproc
	}
	w.m.record(w.minsts[i], v, pth != viaFast, before)
	w.m.process = old
}

func canonListRaw(kvs []attribute.KeyValue) string {
	var parts []string
	for _, kv := range kvs {
		parts = append(parts, canonKV(kv))
	}
	return strings.Join(parts, ",")
}

func (w *world) addCallback(p *profile) {
	r := w.c.R
	idx := w.asyncIdx()
	if len(idx) == 0 {
		return
	}
	first := idx[r.IntN(len(idx))]
	cb := &cbRec{live: true}
	obs := []metric.Observable{}
	for _, i := range idx {
		if w.scopes[i] == w.scopes[first] && (i == first || r.IntN(2) == 0) {
			cb.insts = append(cb.insts, i)
			obs = append(obs, w.insts[i].observable())
		}
	}
	reg, err := w.meters[first].RegisterCallback(func(_ context.Context, o metric.Observer) error {
		cb.calls++
		for _, pl := range cb.plan {
			w.insts[pl.inst].observe(o, pl.v, pl.kvs)
			if cb.live && pl.declared {
				w.obs = append(w.obs, observation{w.minsts[pl.inst], pl.v, pl.kvs})
			}
		}
		return nil
	}, obs...)
	if err != nil {
		w.c.Violate(map[string]any{"history": w.trace}, "RegisterCallback failed: %v", err)
		return
	}
	cb.reg = reg
	w.cbs = append(w.cbs, cb)
	w.log("callback %d over %v", len(w.cbs)-1, cb.insts)
}

// planCallbacks decides what each callback will observe next time it runs;
// what it then really observes is logged, in execution order, in w.obs.
func (w *world) planCallbacks(p *profile) {
	r := w.c.R
	w.obs = nil
	for ci, cb := range w.cbs {
		cb.plan = nil
		cb.calls = 0
		n := r.IntN(6)
		for j := 0; j < n; j++ {
			var i int
			undeclared := p.callbacks && r.IntN(8) == 0
			if undeclared {
				a := w.asyncIdx()
				i = a[r.IntN(len(a))]
			} else {
				i = cb.insts[r.IntN(len(cb.insts))]
			}
			pl := obsPlan{inst: i, v: genNum(r, w.insts[i].kind, w.insts[i].nk, p.invalid), kvs: genAttrs(r, w.attrOpts(p))}
			declared := false
			for _, k := range cb.insts {
				if w.minsts[k] == w.minsts[i] {
					declared = true
				}
			}
			pl.declared = declared
			cb.plan = append(cb.plan, pl)
			w.log("  cb %d (live=%v) observes inst=%d v=%v attrs={%s} declared=%v", ci, cb.live, i, pl.v, canonListRaw(pl.kvs), declared)
		}
	}
}

func (w *world) collectOp(p *profile, ri int) {
	w.planCallbacks(p)
	var reuse *data.Metrics
	if w.m.readers[ri].reuse {
		reuse = w.mem[ri]
	}
	w.log("collect reader=%d reuse=%v", ri, reuse != nil)
	s := produce(w.readers[ri], reuse)
	exp := w.m.collect(ri, w.obs)
	npts := 0
	for _, sc := range s.scopes {
		for _, in := range sc.insts {
			npts += len(in.points)
			for _, pt := range in.points {
				w.c.Distinct(in.desc.Kind, in.desc.NumberKind, pt.kind, pt.tempo, in.desc.Name, pt.attrs, pt.val)
			}
		}
	}
	w.c.Count("points_compared", int64(npts))
	w.c.Count("collections", 1)
	for _, mm := range w.m.compare(ri, s, exp) {
		if p.aspects != nil && !p.aspects[mm.aspect] {
			w.c.Count("mismatches_outside_property:"+mm.aspect, 1)
			continue
		}
		w.c.Violate(map[string]any{"history": w.trace, "aspect": mm.aspect}, "reader %d: %s", ri, mm.msg)
	}
	w.c.Eval(1 + npts)
	if p.callbacks {
		for ci, cb := range w.cbs {
			want := 0
			if cb.live {
				want = 1
			}
			w.c.Eval(1)
			if cb.calls != want {
				w.c.Violate(map[string]any{"history": w.trace}, "callback %d (registered=%v) ran %d times in one collection, want %d", ci, cb.live, cb.calls, want)
			}
		}
	}
}

// runHistory generates and checks one sequential history.
func runHistory(c *hz.Case, p *profile) {
	r := c.R
	w := newWorld(c, p)
	for i, n := 0, 1+r.IntN(5); i < n; i++ {
		w.addInstrument(p)
	}
	w.addCallback(p)
	ops := p.ops/2 + r.IntN(p.ops)
	for i := 0; i < ops && !c.Failed(); i++ {
		switch x := r.IntN(40); {
		case x == 0:
			if len(w.insts) < 12 {
				w.addInstrument(p)
			}
		case x == 1:
			w.addCallback(p)
		case x == 2:
			if len(w.cbs) > 0 {
				cb := w.cbs[r.IntN(len(w.cbs))]
				err := cb.reg.Unregister()
				w.log("unregister live=%v err=%v", cb.live, err)
				if p.callbacks {
					c.Eval(1)
					if (err == nil) != cb.live {
						c.Violate(map[string]any{"history": w.trace}, "Unregister of a callback with registered=%v returned %v", cb.live, err)
					}
				}
				cb.live = false
			}
		case x < 8:
			w.collectOp(p, r.IntN(len(w.readers)))
		default:
			w.recordOp(p)
		}
	}
	for ri := range w.readers {
		if c.Failed() {
			break
		}
		w.collectOp(p, ri)
	}
	if len(c.Name) > 2 && strings.HasSuffix(c.Name, "/0") {
		c.Sample(map[string]any{"case": c.Name, "history": w.trace[:min(len(w.trace), 25)]})
	}
}
