// Monitors for the launcher: this file configures launchers from random
// environments and options, and reads back what reaches the endpoints.
package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/otel"
	mnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/propagation"
	tnoop "go.opentelemetry.io/otel/trace/noop"
	"google.golang.org/grpc/metadata"
)

// logger records what the launcher says; Fatalf does not exit.
type logger struct {
	mu     sync.Mutex
	fatals []string
	debugs []string
}

func (l *logger) Fatalf(f string, v ...interface{}) {
	l.mu.Lock()
	l.fatals = append(l.fatals, fmt.Sprintf(f, v...))
	l.mu.Unlock()
}

func (l *logger) Debugf(f string, v ...interface{}) {
	l.mu.Lock()
	if len(v) == 0 {
		l.debugs = append(l.debugs, f)
	} else {
		l.debugs = append(l.debugs, fmt.Sprintf(f, v...))
	}
	l.mu.Unlock()
}

func (l *logger) fatal() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.fatals...)
}

func (l *logger) said(s string) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, d := range l.debugs {
		if strings.Contains(d, s) {
			return true
		}
	}
	return false
}

// conf is a random configuration being assembled.
type conf struct {
	c      *hz.Case
	r      *rand.Rand
	env    map[string]string
	perset [][]launcher.Option
	desc   []string
	log    *logger
	emu    sync.Mutex
	errs   []error
	after  []func()
}

func newConf(c *hz.Case) *conf {
	return &conf{c: c, r: c.R, env: map[string]string{}, log: &logger{}}
}

func (k *conf) setEnv(name, val string) {
	k.env[name] = val
	k.desc = append(k.desc, "env "+name+"="+val)
}

func (k *conf) opt(name string, v any, o ...launcher.Option) {
	k.perset = append(k.perset, o)
	k.desc = append(k.desc, fmt.Sprintf("option %s(%v)", name, v))
}

// setting chooses where a setting comes from and returns its effective value:
// the last option, else the environment, else the default.
func setting[T any](k *conf, name, envName string, text func(T) string, opt func(T) launcher.Option, vals []T, def T, must bool) T {
	eff := def
	src := k.r.IntN(4)
	if must && src == 0 {
		src = 1 + k.r.IntN(3)
	}
	if src&1 != 0 {
		eff = vals[k.r.IntN(len(vals))]
		k.setEnv(envName, text(eff))
	}
	if src&2 != 0 {
		var os []launcher.Option
		var shown []T
		for i, n := 0, 1+k.r.IntN(2); i < n; i++ {
			eff = vals[k.r.IntN(len(vals))]
			os = append(os, opt(eff))
			shown = append(shown, eff)
		}
		k.opt("With"+name, shown, os...)
	}
	return eff
}

func ident(s string) string { return s }

// options interleaves the options of the settings, keeping each setting's order.
func (k *conf) options() []launcher.Option {
	var out []launcher.Option
	ps := append([][]launcher.Option(nil), k.perset...)
	for len(ps) > 0 {
		i := k.r.IntN(len(ps))
		out = append(out, ps[i][0])
		if ps[i] = ps[i][1:]; len(ps[i]) == 0 {
			ps[i] = ps[len(ps)-1]
			ps = ps[:len(ps)-1]
		}
	}
	return out
}

// reset detaches the process from earlier launchers.
func reset() {
	otel.SetTracerProvider(tnoop.NewTracerProvider())
	otel.SetMeterProvider(mnoop.NewMeterProvider())
	otel.SetTextMapPropagator(propagation.NewCompositeTextMapPropagator())
	otel.SetErrorHandler(sink)
	for _, e := range os.Environ() {
		if n, _, _ := strings.Cut(e, "="); strings.HasPrefix(n, "OTEL_") || strings.HasPrefix(n, "LS_") {
			os.Unsetenv(n)
		}
	}
}

// launch configures OpenTelemetry as told.
func (k *conf) launch() launcher.Launcher {
	reset()
	for n, v := range k.env {
		os.Setenv(n, v)
	}
	o := append([]launcher.Option{launcher.WithLogger(k.log), launcher.WithErrorHandler(otel.ErrorHandlerFunc(func(err error) {
		k.emu.Lock()
		k.errs = append(k.errs, err)
		k.emu.Unlock()
	}))}, k.options()...)
	l := launcher.ConfigureOpentelemetry(o...)
	for n := range k.env {
		os.Unsetenv(n)
	}
	return l
}

func (k *conf) errors() []string {
	k.emu.Lock()
	defer k.emu.Unlock()
	var s []string
	for _, e := range k.errs {
		s = append(s, e.Error())
	}
	return s
}

// lossy reports whether an export was abandoned because its period ended.
func (k *conf) lossy() bool {
	for _, e := range k.errors() {
		if strings.Contains(e, "deadline exceeded") || strings.Contains(e, "canceled") {
			k.c.Count("cases with an abandoned export", 1)
			return true
		}
	}
	return false
}

func (k *conf) detail() map[string]any {
	sort.Strings(k.desc)
	return map[string]any{"configuration": k.desc, "fatal": k.log.fatal(), "errors": head(k.errors(), 5)}
}

// bad reports a violation with the configuration.
func (k *conf) bad(f string, a ...any) { k.c.Violate(k.detail(), f, a...) }

// noFatal checks that a valid configuration was accepted.
func (k *conf) noFatal(when string) bool {
	k.c.Eval(1)
	if f := k.log.fatal(); len(f) != 0 {
		k.bad("%s of a valid configuration: %v", when, f)
		return false
	}
	return true
}

// shutdown stops the launcher, within a generous time.
func (k *conf) shutdown(l launcher.Launcher) bool {
	done := make(chan struct{})
	go func() {
		l.Shutdown()
		close(done)
	}()
	for i := 0; i < 600; i++ {
		select {
		case <-done:
			return true
		case <-time.After(100 * time.Millisecond):
			k.c.Tick()
		}
	}
	k.bad("Shutdown did not return in 60 s")
	return false
}

// endpoints are the collectors shared by the cases of a process.
type endpoints []*collector

func newEndpoints(n int) endpoints {
	var e endpoints
	for i := 0; i < n; i++ {
		e = append(e, newCollector(""))
	}
	return e
}

func (e endpoints) addrs() []string {
	var a []string
	for _, c := range e {
		a = append(a, c.addr)
	}
	return a
}

func (e endpoints) at(addr string) *collector {
	for _, c := range e {
		if c.addr == addr {
			return c
		}
	}
	return nil
}

type arrival struct {
	metrics []pmetric.Metrics
	traces  []ptrace.Traces
	mds     []metadata.MD
}

// clear forgets what arrived, and what was made before and arrives later.
func (e endpoints) clear() {
	for _, c := range e {
		c.mu.Lock()
		c.since = uint64(time.Now().UnixNano())
		c.mu.Unlock()
		c.take()
	}
}

func (c *collector) take() arrival {
	return arrival{c.takeMetrics(), c.takeTraces(), c.takeMDs()}
}

var ownScope = regexp.MustCompile(`^(t|scope)\d$|^late$`)

// spansOf lists the names of received spans, with their resources.
func spansOf(ts []ptrace.Traces) (names mset, res mset) {
	names, res = mset{}, mset{}
	for _, t := range ts {
		for i := 0; i < t.ResourceSpans().Len(); i++ {
			rs := t.ResourceSpans().At(i)
			for j := 0; j < rs.ScopeSpans().Len(); j++ {
				ss := rs.ScopeSpans().At(j)
				if n := ss.Scope().Name(); n != "t" && !ownScope.MatchString(n) {
					continue // the exporters' own spans
				}
				for q := 0; q < ss.Spans().Len(); q++ {
					names.add(ss.Scope().Name() + "/" + ss.Spans().At(q).Name())
					res.add(canonMap(rs.Resource().Attributes()))
				}
			}
		}
	}
	return
}

// mpoint is one received metric point.
type mpoint struct {
	res, scope, name, unit, kind, attrs string
	mono, delta                         bool
	i                                   int64
	f                                   float64
	isInt                               bool
	count                               uint64
	start, end                          time.Time
}

func (p mpoint) value() float64 {
	if p.isInt {
		return float64(p.i)
	}
	return p.f
}

func pointsOf(ms []pmetric.Metrics) []mpoint {
	var out []mpoint
	for _, m := range ms {
		for i := 0; i < m.ResourceMetrics().Len(); i++ {
			rm := m.ResourceMetrics().At(i)
			for j := 0; j < rm.ScopeMetrics().Len(); j++ {
				sm := rm.ScopeMetrics().At(j)
				for k := 0; k < sm.Metrics().Len(); k++ {
					x := sm.Metrics().At(k)
					base := mpoint{res: canonMap(rm.Resource().Attributes()), scope: sm.Scope().Name(), name: x.Name(), unit: x.Unit()}
					num := func(p mpoint, dps pmetric.NumberDataPointSlice) {
						for q := 0; q < dps.Len(); q++ {
							d := dps.At(q)
							p.attrs = canonMap(d.Attributes())
							p.isInt = d.ValueType() == pmetric.NumberDataPointValueTypeInt
							p.i, p.f = d.IntValue(), d.DoubleValue()
							p.start, p.end = d.StartTimestamp().AsTime(), d.Timestamp().AsTime()
							out = append(out, p)
						}
					}
					switch x.Type() {
					case pmetric.MetricTypeSum:
						base.kind, base.mono = "sum", x.Sum().IsMonotonic()
						base.delta = x.Sum().AggregationTemporality() == pmetric.AggregationTemporalityDelta
						num(base, x.Sum().DataPoints())
					case pmetric.MetricTypeGauge:
						base.kind = "gauge"
						num(base, x.Gauge().DataPoints())
					case pmetric.MetricTypeExponentialHistogram:
						base.kind = "exphist"
						base.delta = x.ExponentialHistogram().AggregationTemporality() == pmetric.AggregationTemporalityDelta
						for q := 0; q < x.ExponentialHistogram().DataPoints().Len(); q++ {
							d := x.ExponentialHistogram().DataPoints().At(q)
							p := base
							p.attrs, p.f, p.count = canonMap(d.Attributes()), d.Sum(), d.Count()
							p.start, p.end = d.StartTimestamp().AsTime(), d.Timestamp().AsTime()
							out = append(out, p)
						}
					default:
						base.kind = x.Type().String()
						out = append(out, base)
					}
				}
			}
		}
	}
	return out
}

type flusher interface{ ForceFlush(context.Context) error }

func pickStr(r *rand.Rand, s ...string) string { return s[r.IntN(len(s))] }

var allKinds = []sdkinstrument.Kind{
	sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncGauge, sdkinstrument.SyncHistogram,
	sdkinstrument.AsyncCounter, sdkinstrument.AsyncUpDownCounter, sdkinstrument.AsyncGauge,
}
