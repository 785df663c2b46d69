package main

import (
	"context"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lightstep/go-expohisto/mapping"
	"github.com/lightstep/go-expohisto/mapping/exponent"
	"github.com/lightstep/go-expohisto/mapping/logarithm"
	"github.com/lightstep/go-expohisto/structure"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

// This file is the executable specification: a sequential reference model of
// what each reader must see, written from the documentation (README, package
// docs, OpenTelemetry semantics) and kept as a plain list of measurements per
// output series.

type clauseSpec struct {
	name    string
	re      string
	kind    sdkinstrument.Kind // -1 any
	nk      number.Kind        // -1 any
	lib     instrumentation.Scope
	keys    []string // nil: all keys
	rename  string   // "" none; "=x" constant; "+x" prefix
	desc    string
	agg     aggregation.Kind
	maxSize int32
	limit   uint32
}

func (c clauseSpec) String() string {
	return fmt.Sprintf("{name=%q re=%q kind=%d nk=%d lib=%v keys=%v rename=%q desc=%q agg=%v max=%d lim=%d}",
		c.name, c.re, c.kind, c.nk, c.lib, c.keys, c.rename, c.desc, c.agg, c.maxSize, c.limit)
}

func (c clauseSpec) option() view.Option {
	var o []view.ClauseOption
	if c.name != "" {
		o = append(o, view.MatchInstrumentName(c.name))
	}
	if c.re != "" {
		o = append(o, view.MatchInstrumentNameRegexp(regexp.MustCompile(c.re)))
	}
	if c.kind >= 0 {
		o = append(o, view.MatchInstrumentKind(c.kind))
	}
	if c.nk >= 0 {
		o = append(o, view.MatchNumberKind(c.nk))
	}
	if c.lib != (instrumentation.Scope{}) {
		o = append(o, view.MatchInstrumentationLibrary(c.lib))
	}
	if c.keys != nil {
		ks := []attribute.Key{}
		for _, k := range c.keys {
			ks = append(ks, attribute.Key(k))
		}
		o = append(o, view.WithKeys(ks))
	}
	switch {
	case strings.HasPrefix(c.rename, "="):
		o = append(o, view.WithName(c.rename[1:]))
	case strings.HasPrefix(c.rename, "+"):
		pre := c.rename[1:]
		o = append(o, view.WithRenameFunction(func(s string) string { return pre + s }))
	}
	if c.desc != "" {
		o = append(o, view.WithDescription(c.desc))
	}
	if c.agg != aggregation.UndefinedKind {
		o = append(o, view.WithAggregation(c.agg))
	}
	if c.maxSize != 0 || c.limit != 0 {
		cfg := aggregator.Config{CardinalityLimit: c.limit}
		if c.maxSize != 0 {
			cfg.Histogram = structure.NewConfig(structure.WithMaxSize(c.maxSize))
		}
		o = append(o, view.WithAggregatorConfig(cfg))
	}
	return view.WithClause(o...)
}

func (c clauseSpec) matches(lib instrumentation.Scope, d sdkinstrument.Descriptor) bool {
	if c.name != "" && c.name != d.Name {
		return false
	}
	if c.name == "" && c.re != "" && !regexp.MustCompile(c.re).MatchString(d.Name) {
		return false
	}
	if c.kind >= 0 && c.kind != d.Kind {
		return false
	}
	if c.nk >= 0 && c.nk != d.NumberKind {
		return false
	}
	if c.lib.Name != "" && c.lib.Name != lib.Name {
		return false
	}
	if c.lib.Version != "" && c.lib.Version != lib.Version {
		return false
	}
	if c.lib.SchemaURL != "" && c.lib.SchemaURL != lib.SchemaURL {
		return false
	}
	return true
}

type readerSpec struct {
	tempo  [sdkinstrument.NumKinds]aggregation.Temporality
	agg    [sdkinstrument.NumKinds]aggregation.Kind
	aggSet bool // whether a default aggregation selector is installed
	// default histogram sizes by instrument and number kind (zeros: unset)
	cfgSet  bool
	size    [sdkinstrument.NumKinds][2]int32
	limit   [sdkinstrument.NumKinds][2]uint32
	clauses []clauseSpec
	reuse   bool
}

func (rs *readerSpec) options() []view.Option {
	opts := []view.Option{
		view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality { return rs.tempo[k] }),
	}
	if rs.aggSet {
		opts = append(opts, view.WithDefaultAggregationKindSelector(func(k sdkinstrument.Kind) aggregation.Kind { return rs.agg[k] }))
	}
	if rs.cfgSet {
		cfg := func(k sdkinstrument.Kind, n int) (a aggregator.Config) {
			if rs.size[k][n] != 0 {
				a.Histogram = structure.NewConfig(structure.WithMaxSize(rs.size[k][n]))
			}
			a.CardinalityLimit = rs.limit[k][n]
			return a
		}
		opts = append(opts, view.WithDefaultAggregationConfigSelector(func(k sdkinstrument.Kind) (ints, floats aggregator.Config) {
			return cfg(k, 0), cfg(k, 1)
		}))
	}
	for _, c := range rs.clauses {
		opts = append(opts, c.option())
	}
	return opts
}

func stdAgg(k sdkinstrument.Kind) aggregation.Kind {
	switch k {
	case sdkinstrument.SyncHistogram:
		return aggregation.HistogramKind
	case sdkinstrument.SyncGauge, sdkinstrument.AsyncGauge:
		return aggregation.GaugeKind
	case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
		return aggregation.NonMonotonicSumKind
	}
	return aggregation.MonotonicSumKind
}

// compat gives the aggregation really used, and whether the request was
// semantically incompatible.
func compat(k sdkinstrument.Kind, a aggregation.Kind) (aggregation.Kind, bool) {
	switch k {
	case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
		switch a {
		case aggregation.AnySumKind:
			return aggregation.MonotonicSumKind, false
		case aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind, aggregation.HistogramKind, aggregation.MinMaxSumCountKind:
			return a, false
		}
	case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
		switch a {
		case aggregation.AnySumKind, aggregation.NonMonotonicSumKind:
			return aggregation.NonMonotonicSumKind, false
		}
	case sdkinstrument.AsyncCounter:
		switch a {
		case aggregation.AnySumKind:
			return aggregation.MonotonicSumKind, false
		case aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind:
			return a, false
		}
	case sdkinstrument.SyncGauge, sdkinstrument.AsyncGauge:
		if a == aggregation.GaugeKind {
			return a, false
		}
	}
	return stdAgg(k), true
}

type mseries struct {
	vals []num
}

type mleaf struct {
	from    string
	desc    sdkinstrument.Descriptor
	agg     aggregation.Kind
	tempo   aggregation.Temporality
	maxSize int32
	limit   uint32
	keys    []string
	series  map[string]*mseries // synchronous
	cur     map[string][]num    // asynchronous, this collection (candidates)
	prior   map[string]num
	ever    map[string]num
}

type minst struct {
	desc   sdkinstrument.Descriptor
	leaves [][]*mleaf // per reader
}

type mscope struct {
	lib    instrumentation.Scope
	leaves [][]*mleaf // per reader
	insts  map[sdkinstrument.Descriptor]*minst
	async  []*minst
}

type processor func(ctx context.Context, in []attribute.KeyValue) []attribute.KeyValue

type model struct {
	readers   []readerSpec
	scopes    []*mscope
	lastEnd   []time.Time // per reader; zero when unknown
	prevLo    []time.Time
	prevHi    []time.Time
	started   []bool
	provLo    time.Time
	provHi    time.Time
	start     time.Time
	attrLimit int
	process   processor
	defLimit  uint32
}

const defMaxSize = structure.DefaultMaxSize

func newModel(readers []readerSpec) *model {
	n := len(readers)
	return &model{readers: readers, lastEnd: make([]time.Time, n), prevLo: make([]time.Time, n), prevHi: make([]time.Time, n),
		started: make([]bool, n), attrLimit: sdkinstrument.DefaultAttributeSizeLimit, defLimit: sdkinstrument.DefaultAggregatorCardinalityLimit}
}

func (m *model) scope(lib instrumentation.Scope) *mscope {
	for _, s := range m.scopes {
		if s.lib == lib {
			return s
		}
	}
	s := &mscope{lib: lib, leaves: make([][]*mleaf, len(m.readers)), insts: map[sdkinstrument.Descriptor]*minst{}}
	m.scopes = append(m.scopes, s)
	return s
}

type hintSpec struct {
	Description string `json:"description,omitempty"`
	Aggregation string `json:"aggregation,omitempty"`
	Temporality string `json:"temporality,omitempty"`
	Config      struct {
		Histogram struct {
			MaxSize int32 `json:"max_size,omitempty"`
		} `json:"histogram,omitempty"`
		CardinalityLimit uint32 `json:"cardinality_limit,omitempty"`
	} `json:"config,omitempty"`
}

func parseAgg(s string) (aggregation.Kind, bool) {
	switch strings.ToLower(s) {
	case "drop":
		return aggregation.DropKind, true
	case "sum":
		return aggregation.AnySumKind, true
	case "monotonic_sum":
		return aggregation.MonotonicSumKind, true
	case "nonmonotonic_sum":
		return aggregation.NonMonotonicSumKind, true
	case "gauge":
		return aggregation.GaugeKind, true
	case "histogram", "exponential_histogram":
		return aggregation.HistogramKind, true
	case "minmaxsumcount":
		return aggregation.MinMaxSumCountKind, true
	}
	return 0, false
}

func sameKeys(a, b []string) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	x := map[string]bool{}
	y := map[string]bool{}
	for _, k := range a {
		x[k] = true
	}
	for _, k := range b {
		y[k] = true
	}
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}

// instrument registers (or finds) an instrument; conflict says whether the
// registration must be reported as conflicting.
func (m *model) instrument(sc *mscope, desc sdkinstrument.Descriptor) (mi *minst, conflict bool) {
	mi, had := sc.insts[desc]
	if !had {
		mi = &minst{desc: desc, leaves: make([][]*mleaf, len(m.readers))}
		sc.insts[desc] = mi
		if !desc.Kind.Synchronous() {
			sc.async = append(sc.async, mi)
		}
	}
	for ri := range m.readers {
		rs := &m.readers[ri]
		type behavior struct {
			d       sdkinstrument.Descriptor
			agg     aggregation.Kind
			tempo   aggregation.Temporality
			maxSize int32
			limit   uint32
			keys    []string
		}
		var beh []behavior

		// hints
		hint := hintSpec{}
		hinted := false
		if strings.Contains(desc.Description, "{") {
			var h view.Hint
			if json.Unmarshal([]byte(desc.Description), &h) == nil {
				b, _ := json.Marshal(h)
				_ = json.Unmarshal(b, &hint)
				hinted = true
			}
		}
		d := desc
		agg := stdAgg(desc.Kind)
		if rs.aggSet {
			agg = rs.agg[desc.Kind]
		}
		tempo := rs.tempo[desc.Kind]
		maxSize, limit := int32(defMaxSize), m.defLimit
		n := 0
		if desc.NumberKind == number.Float64Kind {
			n = 1
		}
		if rs.size[desc.Kind][n] != 0 {
			maxSize = rs.size[desc.Kind][n]
		}
		if rs.limit[desc.Kind][n] != 0 {
			limit = rs.limit[desc.Kind][n]
		}
		if hinted {
			d.Description = hint.Description
			if a, ok := parseAgg(hint.Aggregation); ok {
				agg = a
			}
			switch strings.ToLower(hint.Temporality) {
			case "cumulative":
				tempo = aggregation.CumulativeTemporality
			case "delta":
				tempo = aggregation.DeltaTemporality
			}
			if hint.Config.Histogram.MaxSize != 0 {
				maxSize = hint.Config.Histogram.MaxSize
			}
			if hint.Config.CardinalityLimit != 0 {
				limit = hint.Config.CardinalityLimit
			}
		}
		matched := false
		for _, c := range rs.clauses {
			if !c.matches(sc.lib, desc) {
				continue
			}
			matched = true
			a := c.agg
			if a == aggregation.UndefinedKind {
				a = agg
			}
			if a == aggregation.DropKind {
				continue
			}
			b := behavior{d: d, agg: a, tempo: tempo, maxSize: maxSize, limit: limit, keys: c.keys}
			if c.maxSize != 0 || c.limit != 0 {
				b.maxSize, b.limit = defMaxSize, m.defLimit
				if c.maxSize != 0 {
					b.maxSize = c.maxSize
				}
				if c.limit != 0 {
					b.limit = c.limit
				}
			}
			switch {
			case strings.HasPrefix(c.rename, "="):
				b.d.Name = c.rename[1:]
			case strings.HasPrefix(c.rename, "+"):
				b.d.Name = c.rename[1:] + b.d.Name
			}
			if c.desc != "" {
				b.d.Description = c.desc
			}
			beh = append(beh, b)
		}
		if !matched && agg != aggregation.DropKind {
			beh = append(beh, behavior{d: d, agg: agg, tempo: tempo, maxSize: maxSize, limit: limit})
		}
		var leaves []*mleaf
		for _, b := range beh {
			if hinted {
				if b.agg == aggregation.AnySumKind {
					b.agg, _ = compat(desc.Kind, b.agg)
					if desc.Kind == sdkinstrument.SyncGauge || desc.Kind == sdkinstrument.AsyncGauge {
						b.agg = aggregation.NonMonotonicSumKind
					}
				}
			} else {
				var bad bool
				b.agg, bad = compat(desc.Kind, b.agg)
				if bad {
					conflict = true
				}
			}
			var leaf *mleaf
			same := 0
			for _, l := range sc.leaves[ri] {
				if l.desc.Name != b.d.Name {
					continue
				}
				same++
				if leaf == nil && l.agg == b.agg && l.desc.Unit == b.d.Unit && l.desc.NumberKind == b.d.NumberKind &&
					l.desc.Kind.Synchronous() == b.d.Kind.Synchronous() &&
					l.maxSize == b.maxSize && l.limit == b.limit && sameKeys(l.keys, b.keys) {
					leaf = l
				}
			}
			if leaf == nil {
				leaf = &mleaf{from: desc.Name, desc: b.d, agg: b.agg, tempo: b.tempo, maxSize: b.maxSize, limit: b.limit,
					keys: b.keys, series: map[string]*mseries{}, cur: map[string][]num{}, prior: map[string]num{}, ever: map[string]num{}}
				sc.leaves[ri] = append(sc.leaves[ri], leaf)
				same++
			} else if len(b.d.Description) > len(leaf.desc.Description) {
				leaf.desc.Description = b.d.Description
			}
			if same > 1 {
				conflict = true
			}
			dup := false
			for _, l := range leaves {
				if l == leaf {
					dup = true
				}
			}
			if !dup {
				leaves = append(leaves, leaf)
			}
		}
		if !had {
			mi.leaves[ri] = leaves
		}
	}
	return mi, conflict
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// effective computes the attributes a measurement is aggregated under, before
// any view's key filter.
func (m *model) effective(kvs []attribute.KeyValue, viaSetPath bool, sync bool) []attribute.KeyValue {
	cp := append([]attribute.KeyValue(nil), kvs...)
	if viaSetPath {
		// sorted, last value wins
		mm := map[attribute.Key]attribute.KeyValue{}
		for _, kv := range cp {
			mm[kv.Key] = kv
		}
		cp = cp[:0]
		for _, kv := range mm {
			cp = append(cp, kv)
		}
		sort.Slice(cp, func(i, j int) bool { return cp[i].Key < cp[j].Key })
	}
	for i, kv := range cp {
		kv.Key = attribute.Key(trunc(string(kv.Key), m.attrLimit))
		switch kv.Value.Type() {
		case attribute.STRING:
			kv.Value = attribute.StringValue(trunc(kv.Value.AsString(), m.attrLimit))
		case attribute.STRINGSLICE:
			ss := append([]string(nil), kv.Value.AsStringSlice()...)
			for j := range ss {
				ss[j] = trunc(ss[j], m.attrLimit)
			}
			kv.Value = attribute.StringSliceValue(ss)
		}
		cp[i] = kv
	}
	if sync && m.process != nil {
		cp = m.process(context.Background(), cp)
	}
	return cp
}

func (l *mleaf) project(kvs []attribute.KeyValue) string {
	var out []attribute.KeyValue
	for _, kv := range kvs {
		if kv.Key == "" {
			continue
		}
		if l.keys != nil {
			has := false
			for _, k := range l.keys {
				if k == string(kv.Key) {
					has = true
				}
			}
			if !has {
				continue
			}
		}
		out = append(out, kv)
	}
	return canonList(out)
}

func validFor(k sdkinstrument.Kind, v num) bool {
	if v.k == number.Float64Kind && (v.f != v.f || v.f > 1.7976931348623157e308 || v.f < -1.7976931348623157e308) {
		return false
	}
	if k == sdkinstrument.SyncCounter || k == sdkinstrument.SyncHistogram {
		return !(v.i < 0 || v.f < 0)
	}
	return true
}

// record is one synchronous measurement.
func (m *model) record(mi *minst, v num, viaSetPath bool, kvs []attribute.KeyValue) {
	if !validFor(mi.desc.Kind, v) {
		return
	}
	eff := m.effective(kvs, viaSetPath, true)
	for ri := range m.readers {
		for _, l := range mi.leaves[ri] {
			k := l.project(eff)
			s := l.series[k]
			if s == nil {
				s = &mseries{}
				l.series[k] = s
			}
			s.vals = append(s.vals, v)
		}
	}
}

// observation is one asynchronous observation in a collection.
type observation struct {
	mi  *minst
	v   num
	kvs []attribute.KeyValue
}

// expected point
type xpoint struct {
	attrs string
	tempo aggregation.Temporality
	agg   aggregation.Kind
	vals  []num // measurements included (sync)
	cands []num // acceptable values (gauge / async)
	opt   bool  // may be absent
	size  int32
}

type xinst struct {
	desc sdkinstrument.Descriptor
	agg  aggregation.Kind
	pts  map[string]xpoint
}

type xscope struct {
	lib   instrumentation.Scope
	insts []xinst
}

func sumOf(k number.Kind, vals []num) num {
	s := zero(k)
	for _, v := range vals {
		s = s.add(v)
	}
	return s
}

// collect computes what reader ri must see now, and advances its state.
func (m *model) collect(ri int, obs []observation) []xscope {
	var out []xscope
	for _, sc := range m.scopes {
		// asynchronous: the last value per (instrument, attribute set)
		for _, mi := range sc.async {
			type rec struct {
				kvs []attribute.KeyValue
				v   num
			}
			last := map[string]rec{}
			for _, o := range obs {
				if o.mi != mi || !validFor(mi.desc.Kind, o.v) {
					continue
				}
				eff := m.effective(o.kvs, true, false)
				last[canonList(eff)] = rec{eff, o.v}
			}
			for _, l := range mi.leaves[ri] {
				got := map[string][]num{}
				for _, r := range last {
					k := l.project(r.kvs)
					got[k] = append(got[k], r.v)
				}
				for k, vs := range got {
					if l.agg == aggregation.GaugeKind {
						l.cur[k] = vs // later instruments override
					} else {
						old := l.cur[k]
						tot := sumOf(mi.desc.NumberKind, vs)
						if len(old) > 0 {
							tot = tot.add(old[0])
						}
						l.cur[k] = []num{tot}
					}
				}
			}
		}
		xs := xscope{lib: sc.lib}
		for _, l := range sc.leaves[ri] {
			xi := xinst{desc: l.desc, agg: l.agg, pts: map[string]xpoint{}}
			nk := l.desc.NumberKind
			if l.desc.Kind.Synchronous() {
				for k, s := range l.series {
					p := xpoint{attrs: k, agg: l.agg, size: l.maxSize, tempo: aggregation.CumulativeTemporality, vals: s.vals}
					if l.tempo == aggregation.DeltaTemporality {
						p.tempo = aggregation.DeltaTemporality
						delete(l.series, k)
						if (l.agg == aggregation.MonotonicSumKind || l.agg == aggregation.NonMonotonicSumKind) && sumOf(nk, s.vals).isZero() {
							continue
						}
					}
					xi.pts[k] = p
				}
			} else {
				isGauge := l.agg == aggregation.GaugeKind
				for k, vs := range l.cur {
					p := xpoint{attrs: k, agg: l.agg, tempo: aggregation.CumulativeTemporality, cands: vs}
					if l.tempo == aggregation.DeltaTemporality && !isGauge {
						p.tempo = aggregation.DeltaTemporality
						if pv, ok := l.prior[k]; ok {
							d := vs[0].sub(pv)
							if d.isZero() {
								continue
							}
							p.cands = []num{d}
						} else if pv, ok := l.ever[k]; ok {
							// Observed again after a gap: see gapSeries.
							d := vs[0].sub(pv)
							p.cands = []num{vs[0], d}
							p.opt = d.isZero()
						}
					}
					xi.pts[k] = p
				}
				l.prior = map[string]num{}
				for k, vs := range l.cur {
					l.prior[k] = vs[0]
					l.ever[k] = vs[0]
				}
				l.cur = map[string][]num{}
			}
			xs.insts = append(xs.insts, xi)
		}
		out = append(out, xs)
	}
	return out
}

// ---- comparison

type mismatch struct {
	aspect string
	msg    string
}

func mapperFor(scale int32) (mapping.Mapping, error) {
	if scale <= 0 {
		return exponent.NewMapping(scale)
	}
	return logarithm.NewMapping(scale)
}

// checkHist compares a histogram point with the measurements it must hold.
func checkHist(p *spoint, vals []num, maxSize int32) []mismatch {
	var mm []mismatch
	bad := func(f string, a ...any) { mm = append(mm, mismatch{"value", fmt.Sprintf(f, a...)}) }
	nk := p.val.k
	var zc uint64
	for _, v := range vals {
		if v.isZero() {
			zc++
		}
	}
	if p.count != uint64(len(vals)) {
		bad("histogram count %d, recorded %d", p.count, len(vals))
	}
	if s := sumOf(nk, vals); !s.eq(p.val) {
		bad("histogram sum %v, recorded %v", p.val, s)
	}
	if p.zero != zc {
		bad("histogram zero count %d, recorded %d zeros", p.zero, zc)
	}
	if len(vals) > 0 {
		mn, mx := vals[0], vals[0]
		for _, v := range vals {
			if v.less(mn) {
				mn = v
			}
			if mx.less(v) {
				mx = v
			}
		}
		if !mn.eq(p.min) || !mx.eq(p.max) {
			bad("histogram min/max %v/%v, recorded %v/%v", p.min, p.max, mn, mx)
		}
	}
	mp, err := mapperFor(p.scale)
	if err != nil {
		bad("histogram scale %d invalid: %v", p.scale, err)
		return mm
	}
	pos, neg := map[int32]uint64{}, map[int32]uint64{}
	for _, v := range vals {
		f := v.float()
		switch {
		case f > 0:
			pos[mp.MapToIndex(f)]++
		case f < 0:
			neg[mp.MapToIndex(-f)]++
		}
	}
	if fmt.Sprint(pos) != fmt.Sprint(p.pos) {
		bad("positive buckets at scale %d are %v, want %v", p.scale, p.pos, pos)
	}
	if fmt.Sprint(neg) != fmt.Sprint(p.neg) {
		bad("negative buckets at scale %d are %v, want %v", p.scale, p.neg, neg)
	}
	if maxSize > 0 {
		if p.plen > uint32(maxSize) || p.nlen > uint32(maxSize) {
			bad("histogram uses %d/%d buckets, configured maximum %d", p.plen, p.nlen, maxSize)
		}
		// The scale must be the finest that fits the configured size.
		if p.scale < 20 && len(pos)+len(neg) > 0 {
			span := func(m map[int32]uint64) int64 {
				first := true
				var lo, hi int32
				for k := range m {
					if first || k < lo {
						lo = k
					}
					if first || k > hi {
						hi = k
					}
					first = false
				}
				if first {
					return 0
				}
				return int64(hi) - int64(lo) + 1
			}
			finer, err := mapperFor(p.scale + 1)
			if err == nil {
				fp, fn := map[int32]uint64{}, map[int32]uint64{}
				for _, v := range vals {
					f := v.float()
					if f > 0 {
						fp[finer.MapToIndex(f)]++
					} else if f < 0 {
						fn[finer.MapToIndex(-f)]++
					}
				}
				if span(fp) <= int64(maxSize) && span(fn) <= int64(maxSize) {
					bad("histogram scale %d is coarser than needed for %d buckets", p.scale, maxSize)
				}
			}
		}
	}
	return mm
}

func checkPoint(p *spoint, x xpoint) []mismatch {
	var mm []mismatch
	bad := func(asp, f string, a ...any) { mm = append(mm, mismatch{asp, fmt.Sprintf(f, a...)}) }
	if p.kind != x.agg {
		bad("agg", "aggregation %v, want %v", p.kind, x.agg)
		return mm
	}
	if p.tempo != x.tempo {
		bad("tempo", "temporality %v, want %v", p.tempo, x.tempo)
	}
	nk := p.val.k
	if x.cands != nil {
		ok := false
		for _, c := range x.cands {
			if c.eq(p.val) {
				ok = true
			}
		}
		if !ok {
			bad("value", "value %v, want one of %v", p.val, x.cands)
		}
		return mm
	}
	switch x.agg {
	case aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind:
		if s := sumOf(nk, x.vals); !s.eq(p.val) {
			bad("value", "sum %v, want %v (%d measurements)", p.val, s, len(x.vals))
		}
		if p.mono != (x.agg == aggregation.MonotonicSumKind) {
			bad("agg", "monotonic flag %v for %v", p.mono, x.agg)
		}
	case aggregation.GaugeKind:
		if l := x.vals[len(x.vals)-1]; !l.eq(p.val) {
			bad("value", "gauge %v, want last value %v", p.val, l)
		}
	case aggregation.HistogramKind:
		mm = append(mm, checkHist(p, x.vals, x.size)...)
	case aggregation.MinMaxSumCountKind:
		mn, mx := x.vals[0], x.vals[0]
		for _, v := range x.vals {
			if v.less(mn) {
				mn = v
			}
			if mx.less(v) {
				mx = v
			}
		}
		if s := sumOf(nk, x.vals); p.count != uint64(len(x.vals)) || !s.eq(p.val) || !mn.eq(p.min) || !mx.eq(p.max) {
			bad("value", "minmaxsumcount {%v %v %v %d}, want {%v %v %v %d}", p.min, p.max, p.val, p.count, mn, mx, s, len(x.vals))
		}
	}
	return mm
}

// misfit counts how far a collected metric is from an expected one.
func misfit(g *sinst, xi *xinst) int {
	n := 0
	seen := map[string]bool{}
	for i := range g.points {
		p := &g.points[i]
		seen[p.attrs] = true
		if x, ok := xi.pts[p.attrs]; ok {
			n += len(checkPoint(p, x))
		} else {
			n += 2
		}
	}
	for k, x := range xi.pts {
		if !seen[k] && !x.opt {
			n += 2
		}
	}
	return n
}

// compare checks one collected snapshot against the model.
func (m *model) compare(ri int, s *snap, exp []xscope) []mismatch {
	var mm []mismatch
	bad := func(asp, f string, a ...any) { mm = append(mm, mismatch{asp, fmt.Sprintf(f, a...)}) }

	used := make([]bool, len(s.scopes))
	var end time.Time
	for _, xs := range exp {
		si := -1
		for i := range s.scopes {
			if !used[i] && s.scopes[i].lib == xs.lib {
				si = i
				break
			}
		}
		if si < 0 {
			if len(xs.insts) > 0 {
				bad("scope", "scope %v missing", xs.lib)
			}
			continue
		}
		used[si] = true
		got := s.scopes[si].insts
		iused := make([]bool, len(got))
		for _, xi := range xs.insts {
			// Streams that conflict may share a descriptor: pair the
			// expected one with the collected one that fits it best.
			gi, best := -1, 0
			for i := range got {
				if iused[i] || got[i].desc != xi.desc {
					continue
				}
				cost := 0
				for j := range got {
					if i != j && !iused[j] && got[j].desc == xi.desc {
						cost = misfit(&got[i], &xi)
						break
					}
				}
				if gi < 0 || cost < best {
					gi, best = i, cost
				}
			}
			if gi < 0 {
				bad("inst", "metric %+v missing from scope %v", xi.desc, xs.lib)
				continue
			}
			iused[gi] = true
			seen := map[string]bool{}
			for pi := range got[gi].points {
				p := &got[gi].points[pi]
				if seen[p.attrs] {
					bad("dup", "%s: two points for attributes {%s}", xi.desc.Name, p.attrs)
				}
				seen[p.attrs] = true
				// timestamps
				if end.IsZero() {
					end = p.end
				} else if !end.Equal(p.end) {
					bad("time", "%s{%s}: end %v differs from another point's end %v of the same collection", xi.desc.Name, p.attrs, p.end, end)
				}
				if p.end.Before(s.before) || p.end.After(s.after) {
					bad("time", "%s{%s}: end %v outside the collection call [%v,%v]", xi.desc.Name, p.attrs, p.end, s.before, s.after)
				}
				switch p.tempo {
				case aggregation.CumulativeTemporality:
					if m.start.IsZero() {
						m.start = p.start
					}
					if !p.start.Equal(m.start) {
						bad("time", "%s{%s}: cumulative start %v, earlier start was %v", xi.desc.Name, p.attrs, p.start, m.start)
					}
					if p.start.Before(m.provLo) || p.start.After(m.provHi) {
						bad("time", "%s{%s}: cumulative start %v outside provider creation [%v,%v]", xi.desc.Name, p.attrs, p.start, m.provLo, m.provHi)
					}
				case aggregation.DeltaTemporality:
					switch {
					case !m.started[ri]:
						if p.start.Before(m.provLo) || p.start.After(m.provHi) {
							bad("time", "%s{%s}: first delta window starts at %v, provider was created in [%v,%v]", xi.desc.Name, p.attrs, p.start, m.provLo, m.provHi)
						}
					case !m.lastEnd[ri].IsZero():
						if !p.start.Equal(m.lastEnd[ri]) {
							bad("time", "%s{%s}: delta window starts at %v, previous one ended at %v", xi.desc.Name, p.attrs, p.start, m.lastEnd[ri])
						}
					default:
						if p.start.Before(m.prevLo[ri]) || p.start.After(m.prevHi[ri]) {
							bad("time", "%s{%s}: delta window starts at %v, previous collection was in [%v,%v]", xi.desc.Name, p.attrs, p.start, m.prevLo[ri], m.prevHi[ri])
						}
					}
				}
				x, ok := xi.pts[p.attrs]
				if !ok {
					bad("extra", "%s: unexpected point {%s} value %v count %d", xi.desc.Name, p.attrs, p.val, p.count)
					continue
				}
				for _, q := range checkPoint(p, x) {
					bad(q.aspect, "%s{%s} (%v): %s", xi.desc.Name, p.attrs, xi.desc, q.msg)
				}
			}
			for k, x := range xi.pts {
				if !seen[k] && !x.opt {
					bad("missing", "%s: no point for {%s}", xi.desc.Name, k)
				}
			}
		}
		for i := range got {
			if !iused[i] {
				bad("inst", "unexpected metric %+v in scope %v", got[i].desc, xs.lib)
			}
		}
	}
	for i := range s.scopes {
		if !used[i] && len(s.scopes[i].insts) > 0 {
			bad("scope", "unexpected scope %v", s.scopes[i].lib)
		}
	}
	m.lastEnd[ri] = end
	m.prevLo[ri], m.prevHi[ri] = s.before, s.after
	m.started[ri] = true
	return mm
}
