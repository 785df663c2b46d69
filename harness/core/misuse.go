package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lightstep/go-expohisto/structure"
	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

// reports are the times at which this process was told of each kind of
// invalid measurement.
var reports = struct {
	mu sync.Mutex
	at map[string][]time.Time
}{at: map[string][]time.Time{}}

func watchReports() {
	sink.mu.Lock()
	defer sink.mu.Unlock()
	sink.hook = func(err error) {
		kind := ""
		switch {
		case errors.Is(err, aggregator.ErrInfInput):
			kind = "infinite"
		case errors.Is(err, aggregator.ErrNaNInput):
			kind = "NaN"
		case errors.Is(err, aggregator.ErrNegativeInput):
			kind = "negative"
		case strings.Contains(err.Error(), "empty attribute key"):
			kind = "empty key"
		default:
			return
		}
		reports.mu.Lock()
		reports.at[kind] = append(reports.at[kind], time.Now())
		reports.mu.Unlock()
	}
}

// floods counts the floods in this process.  Each is of one kind of mistake,
// so that most meet a kind that was not reported yet.
var floods int

// flood: goroutines make the same mistake at once, over and over; it is
// reported, but not more than once in its period.
func flood(c *hz.Case) {
	r := c.R
	rd := lmetric.NewManualReader("r")
	p := lmetric.NewMeterProvider(lmetric.WithReader(rd))
	var ins []*inst
	for i, k := range []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncHistogram, sdkinstrument.SyncGauge} {
		in, err := create(p.Meter(concScope), k, number.Float64Kind, fmt.Sprint("inst", i), "", "")
		if err != nil {
			c.Violate(nil, "creation failed: %v", err)
		}
		ins = append(ins, in)
	}
	kind := []string{"infinite", "NaN", "negative", "empty key"}[floods%4]
	floods++
	var wg sync.WaitGroup
	start := make(chan struct{})
	made := make([]map[string]int, 3+r.IntN(4))
	for w := range made {
		rnd := rand.New(rand.NewPCG(c.Seed, uint64(w)+11))
		made[w] = map[string]int{}
		c.Go(&wg, func() {
			<-start
			for n := 0; n < 30; n++ {
				k := kind
				in := ins[rnd.IntN(4)]
				v := 1.0
				kvs := []attribute.KeyValue{attribute.Int("k", n)}
				switch k {
				case "infinite":
					v = math.Inf(1 - 2*rnd.IntN(2))
				case "NaN":
					v = math.NaN()
				case "negative":
					in, v = ins[2*rnd.IntN(2)], -1
				default: // a new set each time, which is seen when it is first used
					kvs = append(kvs, attribute.Int("", w*1000+n))
				}
				in.record(context.Background(), fnum(v), path(rnd.IntN(int(numPaths))), kvs)
				made[w][k]++
				c.Tick()
			}
		})
	}
	close(start)
	wg.Wait()
	rd.Produce(nil)
	all := map[string]int{}
	for _, m := range made {
		for k, n := range m {
			all[k] += n
		}
	}
	reports.mu.Lock()
	defer reports.mu.Unlock()
	for k, n := range all {
		at := reports.at[k]
		c.Eval(1)
		if len(at) == 0 {
			c.Violate(nil, "%d %s measurements and not one report of it in this process", n, k)
		}
		// The period is 30 s or a minute; some leave for slow handlers.
		for i := 1; i < len(at); i++ {
			if d := at[i].Sub(at[i-1]); d < 20*time.Second {
				c.Violate(nil, "two reports of %s measurements within %v (%d reports in this process)", k, d, len(at))
				reports.at[k] = at[i:]
				break
			}
		}
		c.Count("mistakes made: "+k, int64(n))
	}
	c.Distinct(all)
}

// viewMistakes: an inconsistent view setting is reported once, when the
// provider is made, and replaced by the nearest consistent one.
func viewMistakes(c *hz.Case) {
	r := c.R
	kind := syncKinds[r.IntN(4)]
	nk := []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
	agg, tempo, size := stdAgg(kind), aggregation.CumulativeTemporality, int32(defMaxSize)
	keep := true // key "a" is kept
	var co []view.ClauseOption
	var vo []view.Option
	mistake := []string{"", "clause aggregation", "default aggregation", "default temporality", "size", "default size", "name and pattern", "empty key", "two"}[r.IntN(9)]
	sizes := map[int32]int32{1: structure.MinSize, structure.MaximumMaxSize + 1: structure.MaximumMaxSize, 1 << 30: structure.MaximumMaxSize, -5: structure.DefaultMaxSize}
	var badSize int32
	for badSize = range sizes {
		break
	}
	clauseAgg := func() { co = append(co, view.WithAggregation(aggregation.Kind(50+r.IntN(50)))) }
	switch mistake {
	case "clause aggregation":
		clauseAgg()
	case "default aggregation":
		vo = append(vo, view.WithDefaultAggregationKindSelector(func(k sdkinstrument.Kind) aggregation.Kind {
			if k == kind {
				return aggregation.Kind(77)
			}
			return view.StandardAggregationKind(k)
		}))
	case "default temporality":
		vo = append(vo, view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality {
			if k == kind {
				return aggregation.Temporality(9)
			}
			return view.StandardTemporality(k)
		}))
	case "size":
		co = append(co, view.WithAggregatorConfig(aggregator.Config{Histogram: structure.NewConfig(structure.WithMaxSize(badSize))}))
		size = sizes[badSize]
	case "default size":
		vo = append(vo, view.WithDefaultAggregationConfigSelector(func(k sdkinstrument.Kind) (a, b aggregator.Config) {
			if k == kind {
				a.Histogram = structure.NewConfig(structure.WithMaxSize(badSize))
				b = a
			}
			return
		}))
		size = sizes[badSize]
	case "name and pattern":
		// the name wins
		co = append(co, view.MatchInstrumentName("inst0"), view.MatchInstrumentNameRegexp(regexp.MustCompile("^other$")), view.WithKeys([]attribute.Key{"b"}))
		keep = false
	case "empty key":
		co = append(co, view.WithKeys([]attribute.Key{"", "a", "b"}))
	case "two":
		clauseAgg()
		vo = append(vo, view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.Temporality(9) }))
	}
	if len(co) > 0 {
		vo = append(vo, view.WithClause(co...))
	}
	sink.take()
	rd := lmetric.NewManualReader("r")
	p := lmetric.NewMeterProvider(lmetric.WithReader(rd, vo...))
	errs := sink.take()
	c.Eval(1)
	if (len(errs) > 0) != (mistake != "") || len(errs) > 1 {
		c.Violate(nil, "views with mistake %q: %d reports %v", mistake, len(errs), errs)
	}
	in, err := create(p.Meter(concScope), kind, nk, "inst0", "", "")
	if err != nil {
		c.Violate(nil, "views with mistake %q: creation failed: %v", mistake, err)
		return
	}
	series := map[string][]num{}
	for round := 0; round < 3 && !c.Failed(); round++ {
		for n := r.IntN(30); n >= 0; n-- {
			v := genNum(r, kind, nk, false)
			kvs := []attribute.KeyValue{attribute.Int("a", r.IntN(3)), attribute.Int("b", r.IntN(2))}
			in.record(context.Background(), v, path(r.IntN(int(numPaths))), kvs)
			if !keep {
				kvs = kvs[1:]
			}
			series[canonList(kvs)] = append(series[canonList(kvs)], v)
		}
		pts, _ := produce(rd, nil).find(concScope, "inst0")
		c.Eval(1 + len(pts))
		if len(pts) != len(series) {
			c.Violate(nil, "views with mistake %q: %d points, want %d", mistake, len(pts), len(series))
		}
		for i := range pts {
			vals, ok := series[pts[i].attrs]
			if !ok {
				c.Violate(nil, "views with mistake %q: unexpected point {%s}", mistake, pts[i].attrs)
				continue
			}
			for _, m := range checkPoint(&pts[i], xpoint{agg: agg, tempo: tempo, vals: vals, size: size}) {
				c.Violate(nil, "views with mistake %q (size %d): {%s}: %s", mistake, badSize, pts[i].attrs, m.msg)
			}
		}
	}
	if e := sink.take(); len(e) > 0 {
		c.Violate(nil, "views with mistake %q: reported again later: %v", mistake, e)
	}
	c.Distinct(mistake, kind, nk, len(series))
}

// useMistakes: readers registered twice, unusable hints, conflicting
// definitions and stray observations are reported and have no effect.
func useMistakes(c *hz.Case) {
	r := c.R
	ctx := context.Background()
	rd := lmetric.NewManualReader("r")
	p := lmetric.NewMeterProvider(lmetric.WithReader(rd))
	m := p.Meter(concScope)
	v := int64(1 + r.IntN(1000))
	ctr, _ := m.Int64Counter("ctr")
	ctr.Add(ctx, v)
	sink.take()
	// told expects at least one report, and no more than max.
	told := func(what string, max int, is func(error) bool) {
		e := sink.take()
		c.Eval(1)
		n := 0
		for _, x := range e {
			if is == nil || is(x) {
				n++
			}
		}
		if n != len(e) || n > max || (n == 0 && max > 0) {
			c.Violate(nil, "%s: reported %d times (%v), want 1 to %d", what, len(e), e, max)
		}
	}
	want := map[string]int64{"ctr": v}
	mistakes := 0
	for n := 2 + r.IntN(5); n > 0; n-- {
		mistakes++
		name := fmt.Sprint("x", n)
		switch r.IntN(7) {
		case 6: // a periodic reader is given to another provider
			periodicTwice(c, v, told)
		case 0: // the reader serves another provider
			p2 := lmetric.NewMeterProvider(lmetric.WithReader(rd))
			told("second registration of a manual reader", 1, func(e error) bool { return errors.Is(e, lmetric.ErrMultipleReaderRegistration) })
			c2, _ := p2.Meter("elsewhere").Int64Counter("other")
			c2.Add(ctx, 1)
		case 1: // unusable hints
			h := []string{`{"aggregation":`, `{"aggregation":"average"}`, `{"temporality":"sometimes"}`, `{"config":{"histogram":{"max_size":1}}}`, `{broken}`}[r.IntN(5)]
			x, err := m.Int64Counter(name, metric.WithDescription(h))
			if err != nil {
				c.Violate(nil, "hint %s: creation failed: %v", h, err)
			}
			told("hint "+h, 1, nil)
			x.Add(ctx, v)
			want[name] = v
		case 2: // conflicting definition
			_, err := m.Float64Histogram("ctr")
			if c.Eval(1); err == nil {
				c.Violate(nil, "conflicting definition of ctr was not reported to the caller")
			}
			e := sink.take()
			if len(e) > 1 {
				c.Violate(nil, "one conflicting definition reported %d times: %v", len(e), e)
			}
			_, err = m.Float64Histogram("ctr")
			if c.Eval(1); err == nil {
				c.Violate(nil, "repeated conflicting definition of ctr was not reported to the caller")
			}
			told("repeated conflicting definition", 0, nil)
		case 3: // stray observations
			a, _ := m.Int64ObservableCounter(name)
			b, _ := m.Int64ObservableCounter(name + "b")
			var leaked metric.Observer
			reg, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
				leaked = o
				o.ObserveInt64(a, v)
				o.ObserveInt64(b, v)
				return nil
			}, a)
			if err != nil {
				c.Violate(nil, "registration failed: %v", err)
				return
			}
			rd.Produce(nil)
			told("observation of an instrument that was not declared", 1, nil)
			leaked.ObserveInt64(a, 1)
			told("observation after the callback returned", 1, nil)
			if err := reg.Unregister(); err != nil {
				c.Violate(nil, "Unregister: %v", err)
			}
		case 4: // another provider's instrument
			o2, _ := lmetric.NewMeterProvider().Meter("x").Int64ObservableGauge("g")
			if _, err := m.RegisterCallback(func(context.Context, metric.Observer) error { return nil }, o2); err == nil {
				c.Violate(nil, "a callback for another provider's instrument was accepted")
			}
			if _, err := m.RegisterCallback(func(context.Context, metric.Observer) error { return nil }); err == nil {
				c.Violate(nil, "a callback without instruments was accepted")
			}
			c.Eval(2)
		default: // nothing wrong
			mistakes--
			x, err := m.Int64Counter(name, metric.WithDescription(pickString(r, "", "plain", `{"description":"d","aggregation":"sum"}`, `{"temporality":"cumulative","config":{"histogram":{"max_size":10}}}`)), metric.WithUnit("By"))
			if err != nil {
				c.Violate(nil, "correct creation failed: %v", err)
			}
			x.Add(ctx, v, metric.WithAttributes(attribute.String("k", "")))
			want[name] = v
			told("correct use", 0, nil)
		}
	}
	sink.take()
	got := map[string]int64{}
	s := produce(rd, nil)
	for _, sc := range s.scopes {
		for _, in := range sc.insts {
			for i := range in.points {
				got[in.desc.Name] += in.points[i].val.i
			}
		}
	}
	for n, x := range want {
		c.Eval(1)
		if got[n] != x {
			c.Violate(nil, "%d mistakes elsewhere: %s reports %d, recorded %d", mistakes, n, got[n], x)
		}
		delete(got, n)
	}
	if len(got) > 0 {
		c.Violate(nil, "%d mistakes: values appear that were never recorded: %v", mistakes, got)
	}
	told("correct collection", 0, nil)
	c.Distinct(mistakes, len(want), v)
}

// periodicTwice gives a periodic reader to a second provider: it keeps serving
// the first, and stops with it.
func periodicTwice(c *hz.Case, v int64, told func(string, int, func(error) bool)) {
	ctx := context.Background()
	var clock atomic.Int64
	e := &recExporter{name: "twice", clock: &clock, seed: c.Seed, metric: "shared"}
	rd := lmetric.NewPeriodicReader(e, time.Hour)
	var ps []*lmetric.MeterProvider
	for i := int64(0); i < 2; i++ {
		p := lmetric.NewMeterProvider(lmetric.WithReader(rd, view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality })))
		x, _ := p.Meter("m").Int64Counter("shared")
		x.Add(ctx, v+1e6*i)
		ps = append(ps, p)
	}
	told("second registration of a periodic reader", 1, func(err error) bool { return errors.Is(err, lmetric.ErrMultipleReaderRegistration) })
	if err := ps[0].ForceFlush(ctx); err != nil {
		c.Violate(nil, "flush of a reader's first provider: %v", err)
	}
	x, _ := ps[0].Meter("m").Int64Counter("shared")
	x.Add(ctx, 7)
	if err := ps[0].Shutdown(ctx); err != nil {
		c.Violate(nil, "shutdown of a reader's first provider: %v", err)
	}
	c.Eval(2)
	if got := fmtEvents(e.log()); len(e.log()) != 2 || e.log()[0].sum != v || e.log()[1].sum != 7 || e.log()[1].method != "shutdown" {
		c.Violate(nil, "a periodic reader given to a second provider exported %s of the first, which recorded %d, then 7", got, v)
	}
	told("shutdown after a second registration", 0, nil)
}

func pickString(r *rand.Rand, s ...string) string { return s[r.IntN(len(s))] }

// quiet runs a family of correct uses and expects no report.
func quiet(f func(*hz.Case)) func(*hz.Case) {
	return func(c *hz.Case) {
		sink.take()
		f(c)
		c.Eval(1)
		if e := sink.take(); len(e) > 0 {
			c.Violate(nil, "correct use was reported %d times: %v", len(e), e[0])
		}
	}
}

func init() {
	checks["M19"] = func(r *hz.Run) {
		r.Rule("mistakes of every kind, alone and in floods from many goroutines, and correct use: what reaches the global error handler and what is collected afterwards is compared; distinct = distinct (mistakes, instruments, values)")
		watchReports()
		conc(r, "flood", 960, 4000, flood)
		if !r.Race() {
			r.Cases("views", r.N(4000, 60000), viewMistakes)
			r.Cases("use", r.N(6000, 60000), useMistakes)
		}
		conc(r, "quiet-sum", 150, 3000, quiet(sums))
		conc(r, "quiet-hist", 150, 3000, quiet(hists))
		conc(r, "quiet-gauge", 150, 3000, quiet(func(c *hz.Case) { gaugeConc(c, false, false) }))
		conc(r, "quiet-async", 100, 2000, quiet(func(c *hz.Case) { asyncConc(c, 0) }))
	}
}
