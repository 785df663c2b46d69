package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
)

// expEvent is one call into the push exporter.
type expEvent struct {
	method     string
	begin, end int64 // logical clock
	sum        int64 // counter total of the batch
	points     int
	wall       time.Time
	deadline   time.Time
	hasDL      bool
	ctxErr     error
	ret        error
	value      any // context value
	overlap    bool
}

// recExporter records what a periodic reader does with it.
type recExporter struct {
	name    string
	clock   *atomic.Int64
	mu      sync.Mutex
	events  []*expEvent
	active  atomic.Int32
	failPct int
	slowPct int
	block   bool // block ExportMetrics until its context ends
	seed    uint64
	n       atomic.Uint64
	metric  string
}

type lifeKey struct{}

func (e *recExporter) String() string { return e.name }

func (e *recExporter) call(method string, ctx context.Context, d data.Metrics) error {
	ev := &expEvent{method: method, begin: e.clock.Add(1), wall: time.Now(), value: ctx.Value(lifeKey{})}
	if e.active.Add(1) != 1 {
		ev.overlap = true
	}
	ev.deadline, ev.hasDL = ctx.Deadline()
	for i := range d.Scopes {
		for j := range d.Scopes[i].Instruments {
			in := &d.Scopes[i].Instruments[j]
			if in.Descriptor.Name != e.metric {
				continue
			}
			for k := range in.Points {
				ev.points++
				if s, ok := in.Points[k].Aggregation.(aggregation.Sum); ok {
					ev.sum += int64(s.Sum())
				}
			}
		}
	}
	k := e.n.Add(1)
	r := rand.New(rand.NewPCG(e.seed, k))
	if e.block && method == "export" && r.IntN(2) == 0 {
		<-ctx.Done()
	} else if r.IntN(100) < e.slowPct {
		for i := 0; i < 50; i++ {
			runtime.Gosched()
		}
	}
	ev.ctxErr = ctx.Err()
	if r.IntN(100) < e.failPct {
		msg := fmt.Sprintf("%s failure %d of %s", method, k, e.name)
		// An exporter's own timeouts and cancellations come back as these.
		if cause := []error{nil, context.Canceled, context.DeadlineExceeded, io.EOF, lmetric.ErrAlreadyShutdown, os.ErrClosed}[r.IntN(6)]; cause != nil && (cause != lmetric.ErrAlreadyShutdown || method == "export") {
			ev.ret = fmt.Errorf("%s: %w", msg, cause)
		} else {
			ev.ret = errors.New(msg)
		}
	}
	e.active.Add(-1)
	ev.end = e.clock.Add(1)
	e.mu.Lock()
	e.events = append(e.events, ev)
	e.mu.Unlock()
	return ev.ret
}

func (e *recExporter) ExportMetrics(ctx context.Context, d data.Metrics) error {
	return e.call("export", ctx, d)
}
func (e *recExporter) ShutdownMetrics(ctx context.Context, d data.Metrics) error {
	return e.call("shutdown", ctx, d)
}
func (e *recExporter) ForceFlushMetrics(ctx context.Context, d data.Metrics) error {
	return e.call("flush", ctx, d)
}

func (e *recExporter) log() []*expEvent {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]*expEvent(nil), e.events...)
}

func (e *recExporter) exports() (n int) {
	for _, ev := range e.log() {
		if ev.method == "export" {
			n++
		}
	}
	return n
}

type lifeOp struct {
	what       string
	begin, end int64
	err, gone  error // gone: the caller's context when the call began
	id         int
	// measurements completed before begin, begun before end (totals)
	doneBefore, begunAfter int64
}

// lifecycle drives a provider with periodic readers through flushes and one
// or more shutdowns while measurements are made.
func lifecycle(c *hz.Case, periodic bool) {
	r := c.R
	var clock atomic.Int64
	nr := 1 + r.IntN(3)
	var exps []*recExporter
	var opts []lmetric.Option
	var timeouts, intervals []time.Duration
	for i := 0; i < nr; i++ {
		e := &recExporter{name: fmt.Sprintf("exp%d-%d", i, c.Seed%100000), clock: &clock, seed: c.Seed + uint64(i), metric: "ctr"}
		switch r.IntN(3) {
		case 1:
			e.failPct = 40
		case 2:
			e.failPct = 100
		}
		e.slowPct = r.IntN(3) * 40
		iv := time.Hour
		if periodic {
			iv = time.Duration(50+r.IntN(2000)) * time.Microsecond
			e.block = r.IntN(3) == 0
		}
		to := iv
		var po []lmetric.PeriodicReaderOption
		if r.IntN(2) == 0 {
			to = time.Duration(100+r.IntN(3000)) * time.Microsecond
			po = append(po, lmetric.WithTimeout(to))
		}
		exps = append(exps, e)
		timeouts = append(timeouts, to)
		intervals = append(intervals, iv)
		rd := lmetric.NewPeriodicReader(e, iv, po...)
		opts = append(opts, lmetric.WithReader(rd,
			view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality })))
	}
	if r.IntN(3) == 0 {
		opts = append(opts, lmetric.WithReader(lmetric.NewManualReader("manual")))
	}
	sink.take()
	created := time.Now()
	p := lmetric.NewMeterProvider(opts...)
	m := p.Meter("scope")
	ctr, err := m.Int64Counter("ctr")
	if err != nil {
		c.Violate(nil, "cannot create a counter: %v", err)
		return
	}
	// A gauge-like callback that must not run after shutdown.
	var cbRuns, cbLate atomic.Int64
	var shutdownReturned atomic.Bool
	og, _ := m.Int64ObservableGauge("og")
	_, _ = m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
		if shutdownReturned.Load() {
			cbLate.Add(1)
		}
		cbRuns.Add(1)
		o.ObserveInt64(og, 1)
		return nil
	}, og)

	var begun, done atomic.Int64
	var opsMu sync.Mutex
	var ops []*lifeOp
	run := func(what string, id int, f func(ctx context.Context) error) *lifeOp {
		op := &lifeOp{what: what, id: id, doneBefore: done.Load()}
		op.begin = clock.Add(1)
		ctx := context.WithValue(context.Background(), lifeKey{}, fmt.Sprintf("%s#%d", what, id))
		if (c.Seed>>(uint(id)%16))&7 == 0 {
			// The context is the exporter's concern; the caller's having given
			// up must not change what is collected or who is shut down.
			gone, cancel := context.WithCancel(ctx)
			cancel()
			ctx = gone
			op.gone = ctx.Err()
		}
		op.err = f(ctx)
		op.end = clock.Add(1)
		op.begunAfter = begun.Load()
		c.Tick()
		opsMu.Lock()
		ops = append(ops, op)
		opsMu.Unlock()
		return op
	}

	var wg sync.WaitGroup
	workers := 1 + r.IntN(3)
	nops := 20 + r.IntN(200)
	for i := 0; i < workers; i++ {
		i := i
		c.Go(&wg, func() {
			rr := rand.New(rand.NewPCG(c.Seed, uint64(100+i)))
			for j := 0; j < nops; j++ {
				v := int64(1 + rr.IntN(9))
				begun.Add(v)
				ctr.Add(context.Background(), v, metric.WithAttributes(attribute.Int("w", rr.IntN(3))))
				done.Add(v)
				if rr.IntN(8) == 0 {
					runtime.Gosched()
				}
				if periodic && rr.IntN(10) == 0 {
					time.Sleep(time.Duration(rr.IntN(200)) * time.Microsecond)
				}
			}
		})
	}
	flushers := r.IntN(3)
	for i := 0; i < flushers; i++ {
		i := i
		n := 1 + r.IntN(6)
		c.Go(&wg, func() {
			for j := 0; j < n; j++ {
				run("flush", i*100+j, p.ForceFlush)
			}
		})
	}
	early := r.IntN(2) == 0
	shutters := 1 + r.IntN(3)
	if early {
		for i := 0; i < shutters; i++ {
			i := i
			pause := r.IntN(300)
			c.Go(&wg, func() {
				for k := 0; k < pause; k++ {
					runtime.Gosched()
				}
				run("shutdown", i, p.Shutdown)
			})
		}
	}
	wg.Wait()
	if !early {
		if periodic && r.IntN(2) == 0 {
			// the loop must make progress on its own, whatever the exporter returns
			atLeast := 1
			if r.IntN(3) == 0 {
				atLeast = 4
			}
			since := time.Now()
			for i, e := range exps {
				for e.exports() < atLeast && !c.Failed() {
					time.Sleep(100 * time.Microsecond)
					if time.Since(since) > time.Minute {
						c.Violate(map[string]any{"events": fmtEvents(e.log())}, "%s: %d periodic exports in a minute at an interval of %v", e.name, e.exports(), intervals[i])
					}
				}
			}
			c.Tick()
		}
		run("flush", 900, p.ForceFlush)
		run("shutdown", 0, p.Shutdown)
	}
	shutdownReturned.Store(true)
	afterShut := clock.Add(1)
	runsAt := cbRuns.Load()
	// Everything below happens after shutdown.
	ctr.Add(context.Background(), 1000000)
	lateFlush := run("flush", 901, p.ForceFlush)
	lateShut := run("shutdown", 901, p.Shutdown)
	m2 := p.Meter("late")
	ctr2, err2 := m2.Int64Counter("ctr")
	if err2 != nil || ctr2 == nil {
		c.Violate(nil, "after shutdown, creating an instrument returned (%v, %v)", ctr2, err2)
	} else {
		ctr2.Add(context.Background(), 1000000)
	}
	if _, err := p.Meter("scope").Int64Counter("fresh"); err != nil {
		c.Violate(nil, "after shutdown, creating an instrument failed: %v", err)
	}
	if ctr3, err := m.Int64Counter("fresh2"); err == nil && ctr3 != nil {
		ctr3.Add(context.Background(), 5)
	}
	if periodic {
		time.Sleep(time.Duration(r.IntN(1500)) * time.Microsecond)
	}
	run("flush", 902, p.ForceFlush)
	_ = lateFlush

	if !errors.Is(lateShut.err, lmetric.ErrAlreadyShutdown) {
		c.Violate(nil, "a Shutdown after Shutdown returned %v, not the already-shut-down error", lateShut.err)
	}
	// exactly one Shutdown did the work
	first := 0
	var theShut *lifeOp
	for _, op := range ops {
		if op.what == "shutdown" && !errors.Is(op.err, lmetric.ErrAlreadyShutdown) {
			first++
			theShut = op
		}
	}
	if first != 1 {
		// A shutdown whose exporters all succeed returns nil: not ErrAlreadyShutdown.
		c.Violate(nil, "%d Shutdown calls claimed to have done the work, want exactly 1", first)
		return
	}
	handled := map[string]int{}
	for _, e := range sink.take() {
		handled[e.Error()]++
	}
	for i, e := range exps {
		evs := e.log()
		if e.active.Load() != 0 {
			c.Violate(nil, "%s: an exporter call is still running after Shutdown returned", e.name)
		}
		var shut *expEvent
		var total int64
		for _, ev := range evs {
			c.Eval(1)
			total += ev.sum
			if ev.overlap {
				c.Violate(nil, "%s: exporter call %s overlaps another", e.name, ev.method)
			}
			if ev.method == "shutdown" {
				if shut != nil {
					c.Violate(nil, "%s: ShutdownMetrics called twice", e.name)
				}
				shut = ev
			}
		}
		if shut == nil {
			c.Violate(nil, "%s: never shut down", e.name)
			continue
		}
		if shut.begin < theShut.begin || shut.end > theShut.end {
			c.Violate(nil, "%s: ShutdownMetrics outside the Shutdown call that did the work", e.name)
		}
		if shut.value != fmt.Sprintf("shutdown#%d", theShut.id) {
			c.Violate(nil, "%s: ShutdownMetrics did not get the caller's context", e.name)
		}
		if shut.ctxErr != theShut.gone {
			c.Violate(nil, "%s: ShutdownMetrics got a context with %v from one with %v", e.name, shut.ctxErr, theShut.gone)
		}
		sorted := map[string]bool{}
		var nexp int
		for _, ev := range evs {
			if ev.begin > shut.begin {
				c.Violate(map[string]any{"events": fmtEvents(evs)}, "%s: %s called after ShutdownMetrics", e.name, ev.method)
			}
			if ev.begin > afterShut {
				c.Violate(nil, "%s: %s called after Shutdown returned", e.name, ev.method)
			}
			switch ev.method {
			case "export":
				nexp++
				if !ev.hasDL {
					c.Violate(nil, "%s: periodic export without a deadline", e.name)
				} else if ev.deadline.Sub(ev.wall) > timeouts[i] {
					c.Violate(nil, "%s: periodic export got %v, more than the timeout %v", e.name, ev.deadline.Sub(ev.wall), timeouts[i])
				}
				if ev.ret != nil && handled[ev.ret.Error()] == 0 {
					c.Violate(map[string]any{"handled": fmt.Sprint(handled)}, "%s: a periodic export failed and the error was not reported", e.name)
				}
			case "flush", "shutdown":
				if ev.hasDL {
					c.Violate(nil, "%s: %s got a deadline the caller did not set", e.name, ev.method)
				}
				sorted[fmt.Sprint(ev.value)] = true
			}
		}
		if periodic {
			if limit := int(time.Since(created)/intervals[i]) + 2; nexp > limit {
				c.Violate(nil, "%s: %d periodic exports, more than the elapsed time allows at interval %v", e.name, nexp, intervals[i])
			}
		} else if nexp != 0 {
			c.Violate(nil, "%s: %d periodic exports before the first interval ended", e.name, nexp)
		}
		// conservation: the exporter was handed every measurement completed before
		// the shutdown, once, and none begun after it ended.
		if total < theShut.doneBefore || total > theShut.begunAfter {
			c.Violate(map[string]any{"events": fmtEvents(evs)}, "%s: exporter got a total of %d; %d was recorded before Shutdown and %d before it ended", e.name, total, theShut.doneBefore, theShut.begunAfter)
		}
		for _, op := range ops {
			if op.what != "flush" {
				continue
			}
			c.Eval(1)
			id := fmt.Sprintf("flush#%d", op.id)
			if !sorted[id] {
				// allowed only when the reader was shut down
				if op.end < theShut.begin {
					c.Violate(nil, "%s: ForceFlush that ended before Shutdown did not reach the exporter", e.name)
				}
				continue
			}
			// what was completed before the flush has been exported when it returns
			var got int64
			for _, ev := range evs {
				if ev.end < op.end {
					got += ev.sum
				}
			}
			if got < op.doneBefore || got > op.begunAfter {
				c.Violate(map[string]any{"events": fmtEvents(evs)}, "%s: when ForceFlush returned, the exporter had a total of %d; %d was recorded before the call and %d before its end", e.name, got, op.doneBefore, op.begunAfter)
			}
		}
		c.Count("exporter calls", int64(len(evs)))
		c.Distinct(nr, len(evs) > 3, e.failPct, e.block, early, nexp, flushers, shutters, total%97)
	}
	// errors of every reader come back from the call that met them
	for _, op := range ops {
		for _, e := range exps {
			for _, ev := range e.log() {
				if ev.ret == nil || ev.value != fmt.Sprintf("%s#%d", op.what, op.id) {
					continue
				}
				c.Eval(1)
				if op.err == nil || !errors.Is(op.err, ev.ret) {
					c.Violate(nil, "%s returned %v, which does not carry %q", op.what, op.err, ev.ret)
				}
			}
		}
		if op.err != nil && op.what == "flush" && op.end < theShut.begin {
			any := false
			for _, e := range exps {
				for _, ev := range e.log() {
					any = any || (ev.ret != nil && errors.Is(op.err, ev.ret))
				}
			}
			if !any {
				c.Violate(nil, "ForceFlush returned %v though no exporter failed", op.err)
			}
		}
	}
	if cbLate.Load() != 0 || cbRuns.Load() != runsAt {
		c.Violate(nil, "a callback ran after Shutdown returned (%d times)", cbRuns.Load()-runsAt)
	}
	c.Sample(map[string]any{"readers": nr, "periodic": periodic, "workers": workers, "flushers": flushers, "shutdown callers": shutters, "exporter calls": len(exps[0].log())})
}

// stuckExport: an export that waits for the endpoint is canceled by the
// provider's shutdown, not waited for, however long its timeout; a flush waits
// for it instead and leaves it alone.
func stuckExport(c *hz.Case) {
	r := c.R
	type call struct {
		method string
		sum    int64
		err    error
	}
	type exp struct {
		mu      sync.Mutex
		calls   []call
		stuck   chan struct{} // closed when the first export is in progress
		release chan struct{}
	}
	var exps []*exp
	var opts []lmetric.Option
	for i, n := 0, 1+r.IntN(3); i < n; i++ {
		e := &exp{stuck: make(chan struct{}), release: make(chan struct{})}
		exps = append(exps, e)
		first := true
		f := func(method string) func(context.Context, data.Metrics) error {
			return func(ctx context.Context, d data.Metrics) error {
				k := call{method: method}
				for i := range d.Scopes {
					for j := range d.Scopes[i].Instruments {
						for _, p := range d.Scopes[i].Instruments[j].Points {
							k.sum += int64(p.Aggregation.(aggregation.Sum).Sum())
						}
					}
				}
				if method == "export" && k.sum > 0 && first {
					first = false
					close(e.stuck)
					select {
					case <-ctx.Done():
					case <-e.release:
					}
				}
				k.err = ctx.Err()
				e.mu.Lock()
				defer e.mu.Unlock()
				e.calls = append(e.calls, k)
				return k.err
			}
		}
		opts = append(opts, lmetric.WithReader(
			lmetric.NewPeriodicReader(funcExporter{f("export"), f("flush"), f("shutdown")}, time.Duration(1+r.IntN(3))*time.Millisecond, lmetric.WithTimeout(time.Hour)),
			view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality })))
	}
	sink.take()
	p := lmetric.NewMeterProvider(opts...)
	ctr, err := p.Meter("scope").Int64Counter("ctr")
	if err != nil {
		c.Violate(nil, "cannot create a counter: %v", err)
		return
	}
	ctx := context.Background()
	total := int64(1 + r.IntN(100))
	ctr.Add(ctx, total)
	for _, e := range exps {
		<-e.stuck
		c.Tick()
	}
	v := int64(1 + r.IntN(100))
	ctr.Add(ctx, v)
	total += v
	flush := r.IntN(3) == 0
	done := make(chan error, 1)
	go func() {
		if flush {
			done <- p.ForceFlush(ctx)
		} else {
			done <- p.Shutdown(ctx)
		}
	}()
	if flush {
		for i := 0; i < 100; i++ {
			runtime.Gosched()
		}
		for _, e := range exps {
			close(e.release)
		}
	}
	select {
	case err = <-done:
	case <-time.After(30 * time.Second):
		c.Violate(nil, "Shutdown waits for an export that waits for its context (timeout one hour)")
		for _, e := range exps {
			close(e.release)
		}
		<-done
		return
	}
	c.Eval(1)
	if err != nil {
		c.Violate(nil, "flush %v: %v", flush, err)
	}
	if flush {
		if err := p.Shutdown(ctx); err != nil {
			c.Violate(nil, "shutdown: %v", err)
		}
	}
	for i, e := range exps {
		e.mu.Lock()
		var sum int64
		ends, flushes := 0, 0
		for k, x := range e.calls {
			sum += x.sum
			if x.method == "shutdown" {
				ends++
			}
			if x.method == "flush" {
				flushes++
			}
			// Only the shutdown cancels, and only exports.
			if x.err != nil && ((flush || k > 0 && sum > x.sum) && x.sum > 0 || x.method != "export" || k > len(e.calls)-2) {
				c.Violate(nil, "exporter %d: %s call %d of %d, with new data, found its context ended: %v", i, x.method, k, len(e.calls), x.err)
			}
		}
		c.Eval(1)
		if sum != total || ends != 1 || e.calls[len(e.calls)-1].method != "shutdown" || (flushes == 1) != flush {
			c.Violate(nil, "exporter %d: %d passed on in %d calls, %d shutdowns, %d flushes; recorded %d: %v", i, sum, len(e.calls), ends, flushes, total, e.calls)
		}
		e.mu.Unlock()
	}
	sink.take()
	c.Distinct(len(exps), flush, total)
}

// funcExporter is an exporter made of functions.
type funcExporter struct {
	export, flush, shutdown func(context.Context, data.Metrics) error
}

func (funcExporter) String() string { return "func" }
func (f funcExporter) ExportMetrics(ctx context.Context, d data.Metrics) error {
	return f.export(ctx, d)
}
func (f funcExporter) ForceFlushMetrics(ctx context.Context, d data.Metrics) error {
	return f.flush(ctx, d)
}
func (f funcExporter) ShutdownMetrics(ctx context.Context, d data.Metrics) error {
	return f.shutdown(ctx, d)
}

func fmtEvents(evs []*expEvent) string {
	var b strings.Builder
	for _, e := range evs {
		fmt.Fprintf(&b, "[%d-%d %s sum=%d n=%d ctx=%v err=%v] ", e.begin, e.end, e.method, e.sum, e.points, e.ctxErr, e.ret)
		if b.Len() > 4000 {
			break
		}
	}
	return b.String()
}

// readerDefaults checks the documented fallbacks of a periodic reader.
// steadyInterval: exports begin at the interval, also when they take most of
// it.  A reader that waits for the interval after each export never begins two
// exports in less than the time of an export and an interval.
func steadyInterval(c *hz.Case) {
	r := c.R
	interval := time.Duration(30+r.IntN(30)) * time.Millisecond
	busy := interval * 6 / 10
	var mu sync.Mutex
	var begun []time.Time
	fail := r.IntN(3)
	e := funcExporter{
		export: func(context.Context, data.Metrics) error {
			mu.Lock()
			begun = append(begun, time.Now())
			n := len(begun)
			mu.Unlock()
			time.Sleep(busy)
			if fail == 0 || fail == 1 && n%2 == 0 {
				return errExport
			}
			return nil
		},
		flush:    func(context.Context, data.Metrics) error { return nil },
		shutdown: func(context.Context, data.Metrics) error { return nil },
	}
	p := lmetric.NewMeterProvider(lmetric.WithReader(lmetric.NewPeriodicReader(e, interval)))
	least := time.Hour
	end := time.Now().Add(20 * time.Second)
	for n := 0; least >= interval+busy; {
		if time.Now().After(end) {
			c.Violate(nil, "interval %v, exports take %v: %d exports, never less than %v from one to the next", interval, busy, n, least)
			break
		}
		time.Sleep(interval / 3)
		c.Tick()
		mu.Lock()
		n = len(begun)
		for i := 1; i < n; i++ {
			least = min(least, begun[i].Sub(begun[i-1]))
		}
		mu.Unlock()
	}
	_ = p.Shutdown(context.Background())
	c.Eval(len(begun))
	c.Distinct(interval, fail, len(begun))
}

var errExport = errors.New("export failed")

func readerDefaults(c *hz.Case) {
	r := c.R
	var clock atomic.Int64
	e := &recExporter{name: "dflt", clock: &clock, metric: "ctr"}
	iv := -time.Duration(r.IntN(3)) * time.Second
	rd := lmetric.NewPeriodicReader(e, iv)
	p := lmetric.NewMeterProvider(lmetric.WithReader(rd))
	ctr, _ := p.Meter("m").Int64Counter("ctr")
	ctr.Add(context.Background(), 3)
	if err := p.ForceFlush(context.Background()); err != nil {
		c.Violate(nil, "ForceFlush: %v", err)
	}
	if err := p.Shutdown(context.Background()); err != nil {
		c.Violate(nil, "Shutdown: %v", err)
	}
	evs := e.log()
	c.Eval(1)
	c.Distinct(iv)
	if len(evs) != 2 || evs[0].method != "flush" || evs[0].sum != 3 || evs[1].method != "shutdown" {
		c.Violate(nil, "interval %v: expected one flush and one shutdown, got %s", iv, fmtEvents(evs))
	}
	_ = number.Int64Kind
}
