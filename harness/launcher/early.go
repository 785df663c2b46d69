package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/trace"
)

// expectation is what an application says it has recorded.
type expectation struct {
	Points map[string][2]float64 // value, count
	Spans  map[string]int
	Wrong  []string
	Prog   []string
}

// handle is an instrument as the application holds it.
type handle struct {
	early bool
	add   func(v int64)     // synchronous
	obs   metric.Observable // asynchronous
	see   func(o metric.Observer, v int64, attrs ...attribute.KeyValue)
}

// einst is an instrument with the handles obtained before and after the
// configuration of OpenTelemetry.
type einst struct {
	scope, name string
	kind        int // 0 counter, 1 up-down, 2 histogram, then observable: 3 counter, 4 up-down, 5 gauge
	float       bool
	handles     []handle
}

func must[T any](v T, err error) T {
	if err != nil {
		fmt.Println("creation failed:", err)
		os.Exit(7)
	}
	return v
}

func (e *einst) create(m metric.Meter) handle {
	ctx := context.Background()
	if e.float {
		sync := func(add func(context.Context, float64)) handle {
			return handle{add: func(v int64) { add(ctx, float64(v)) }}
		}
		async := func(o metric.Float64Observable) handle {
			return handle{obs: o, see: func(ob metric.Observer, v int64, a ...attribute.KeyValue) {
				ob.ObserveFloat64(o, float64(v), metric.WithAttributes(a...))
			}}
		}
		switch e.kind {
		case 0:
			in := must(m.Float64Counter(e.name))
			return sync(func(c context.Context, v float64) { in.Add(c, v) })
		case 1:
			in := must(m.Float64UpDownCounter(e.name))
			return sync(func(c context.Context, v float64) { in.Add(c, v) })
		case 2:
			in := must(m.Float64Histogram(e.name))
			return sync(func(c context.Context, v float64) { in.Record(c, v) })
		case 3:
			return async(must(m.Float64ObservableCounter(e.name)))
		case 4:
			return async(must(m.Float64ObservableUpDownCounter(e.name)))
		}
		return async(must(m.Float64ObservableGauge(e.name)))
	}
	sync := func(add func(context.Context, int64)) handle { return handle{add: func(v int64) { add(ctx, v) }} }
	async := func(o metric.Int64Observable) handle {
		return handle{obs: o, see: func(ob metric.Observer, v int64, a ...attribute.KeyValue) {
			ob.ObserveInt64(o, v, metric.WithAttributes(a...))
		}}
	}
	switch e.kind {
	case 0:
		in := must(m.Int64Counter(e.name))
		return sync(func(c context.Context, v int64) { in.Add(c, v) })
	case 1:
		in := must(m.Int64UpDownCounter(e.name))
		return sync(func(c context.Context, v int64) { in.Add(c, v) })
	case 2:
		in := must(m.Int64Histogram(e.name))
		return sync(func(c context.Context, v int64) { in.Record(c, v) })
	case 3:
		return async(must(m.Int64ObservableCounter(e.name)))
	case 4:
		return async(must(m.Int64ObservableUpDownCounter(e.name)))
	}
	return async(must(m.Int64ObservableGauge(e.name)))
}

// earlyProgram is an application that begins to use the API before it
// configures OpenTelemetry, as package variables and init functions do.
func earlyProgram(seed uint64) {
	r := rand.New(rand.NewPCG(seed, 1))
	ctx := context.Background()
	x := expectation{Points: map[string][2]float64{}, Spans: map[string]int{}}
	logf := func(f string, a ...any) { x.Prog = append(x.Prog, fmt.Sprintf(f, a...)) }
	var mu sync.Mutex
	wrong := func(f string, a ...any) {
		mu.Lock()
		x.Wrong = append(x.Wrong, fmt.Sprintf(f, a...))
		mu.Unlock()
	}

	nscope := 1 + r.IntN(3)
	var early, late []metric.Meter
	for i := 0; i < nscope; i++ {
		early = append(early, otel.Meter(fmt.Sprint("scope", i)))
	}
	var insts []*einst
	for i, n := 0, 2+r.IntN(7); i < n; i++ {
		insts = append(insts, &einst{scope: fmt.Sprint("scope", r.IntN(nscope)), name: fmt.Sprint("inst", i), kind: r.IntN(6), float: r.IntN(2) == 0})
	}
	meter := func(ms []metric.Meter, e *einst) metric.Meter {
		i, _ := strconv.Atoi(strings.TrimPrefix(e.scope, "scope"))
		return ms[i]
	}

	// measure records through a random handle; what is recorded before the
	// configuration is lost.
	measure := func(n int, counts bool) {
		for ; n > 0; n-- {
			e := insts[r.IntN(len(insts))]
			if e.kind > 2 || len(e.handles) == 0 {
				continue
			}
			v := int64(1 + r.IntN(50))
			if e.kind == 1 {
				v -= 25
			}
			e.handles[r.IntN(len(e.handles))].add(v)
			if counts {
				key := e.scope + "/" + e.name + "{}"
				p := x.Points[key]
				x.Points[key] = [2]float64{p[0] + float64(v), p[1] + 1}
			}
		}
	}

	// callbacks observe one or two instruments of one scope under an
	// attribute of their own.
	ncb := 0
	var regs []func(launched bool)
	callback := func(m metric.Meter, scope string, sdk bool) {
		// A meter of the SDK's own cannot look inside the instruments that
		// the global API made before there was an SDK, and says so.
		usable := func(e *einst) (hs []handle) {
			for _, h := range e.handles {
				if !sdk || !h.early {
					hs = append(hs, h)
				}
			}
			return
		}
		var pick []*einst
		for _, e := range insts {
			if e.scope == scope && e.kind > 2 && len(usable(e)) > 0 && len(pick) < 2 && r.IntN(3) > 0 {
				pick = append(pick, e)
			}
		}
		if len(pick) == 0 {
			return
		}
		ncb++
		id := ncb
		a := attribute.Int("cb", id)
		var obs []metric.Observable
		var do []func(o metric.Observer)
		var keys []string
		for _, e := range pick {
			v := int64(1 + r.IntN(1000))
			hs := usable(e)
			obs = append(obs, hs[r.IntN(len(hs))].obs)
			h := hs[r.IntN(len(hs))]
			do = append(do, func(o metric.Observer) { h.see(o, v, a) })
			key := e.scope + "/" + e.name + "{" + fmt.Sprintf("%q=i:%d", "cb", id) + "}"
			keys = append(keys, key)
			x.Points[key] = [2]float64{float64(v), 0}
		}
		var off bool
		var offMu sync.Mutex
		reg, err := m.RegisterCallback(func(_ context.Context, o metric.Observer) error {
			offMu.Lock()
			defer offMu.Unlock()
			if off {
				wrong("callback %d ran after it was unregistered", id)
			}
			for _, d := range do {
				d(o)
			}
			return nil
		}, obs...)
		if err != nil {
			wrong("registration of callback %d: %v", id, err)
			return
		}
		logf("callback %d observes %v", id, keys)
		regs = append(regs, func(bool) {
			if err := reg.Unregister(); err != nil {
				wrong("unregistering callback %d: %v", id, err)
			}
			offMu.Lock()
			off = true
			offMu.Unlock()
			for _, k := range keys {
				delete(x.Points, k)
			}
			logf("callback %d unregistered", id)
		})
	}
	drop := func(launched bool) {
		if len(regs) > 0 && r.IntN(3) == 0 {
			i := r.IntN(len(regs))
			regs[i](launched)
			regs = append(regs[:i], regs[i+1:]...)
		}
	}

	// Before.
	tracers := []trace.Tracer{otel.Tracer("t0"), otel.GetTracerProvider().Tracer("t1")}
	prop := otel.GetTextMapPropagator()
	for _, e := range insts {
		if r.IntN(3) > 0 {
			h := e.create(meter(early, e))
			h.early = true
			e.handles = append(e.handles, h)
			logf("%s/%s kind %d created early", e.scope, e.name, e.kind)
		}
	}
	measure(r.IntN(5), false)
	if r.IntN(2) == 0 {
		_, s := tracers[0].Start(ctx, "lost")
		s.End()
	}
	for i := r.IntN(4); i > 0; i-- {
		s := r.IntN(nscope)
		callback(early[s], fmt.Sprint("scope", s), false)
	}
	drop(false)

	l := launcher.ConfigureOpentelemetry(launcher.WithMetricsBuiltinsEnabled(false))

	// After.
	for i := 0; i < nscope; i++ {
		late = append(late, otel.Meter(fmt.Sprint("scope", i)))
	}
	for _, e := range insts {
		if len(e.handles) == 0 || r.IntN(3) == 0 {
			m := meter(late, e)
			if r.IntN(2) == 0 {
				m = meter(early, e)
			}
			e.handles = append(e.handles, e.create(m))
			logf("%s/%s kind %d created late", e.scope, e.name, e.kind)
		}
	}
	for i := r.IntN(4); i > 0; i-- {
		s := r.IntN(nscope)
		if r.IntN(2) == 0 {
			callback(early[s], fmt.Sprint("scope", s), false)
		} else {
			callback(late[s], fmt.Sprint("scope", s), true)
		}
	}
	drop(true)
	drop(true)
	measure(r.IntN(30), true)
	tracers = append(tracers, otel.Tracer("t0"), otel.Tracer("t1"))
	for i := r.IntN(6); i > 0; i-- {
		t := r.IntN(4)
		sctx, s := tracers[t].Start(ctx, fmt.Sprint("span", t))
		if !s.SpanContext().IsValid() || !s.IsRecording() {
			wrong("a span of tracer %d is not recorded", t)
		}
		now, then := propagation.MapCarrier{}, propagation.MapCarrier{}
		otel.GetTextMapPropagator().Inject(sctx, now)
		prop.Inject(sctx, then)
		if fmt.Sprint(now) != fmt.Sprint(then) || len(now) == 0 {
			wrong("the propagator obtained early writes %v, the current one %v", then, now)
		}
		s.End()
		x.Spans[fmt.Sprintf("t%d/span%d", t%2, t)]++
	}
	l.Shutdown()
	mu.Lock()
	b, _ := json.Marshal(x)
	mu.Unlock()
	fmt.Printf("\nEXPECT %s\n", b)
	os.Exit(0)
}

// earlyUse runs such an application and compares what arrives.
func earlyUse() func(c *hz.Case) {
	eps := newEndpoints(1)
	return func(c *hz.Case) {
		k := newConf(c)
		r := k.r
		eps.clear()
		env := []string{"ZZCHILD=early", fmt.Sprint("ZZSEED=", r.Uint64()), "PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME"), "TMPDIR=" + os.Getenv("TMPDIR")}
		set := func(n, v string) { k.setEnv(n, v); env = append(env, n+"="+v) }
		set("OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", eps[0].addr)
		set("OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", eps[0].addr)
		set("OTEL_EXPORTER_OTLP_SPAN_INSECURE", "true")
		set("OTEL_EXPORTER_OTLP_METRIC_INSECURE", "true")
		set("LS_SERVICE_NAME", "svc")
		set("OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", pickStr(r, "cumulative", "delta", "lowmemory"))
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Args[0])
		cmd.Env = env
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		c.Tick()
		text := out.String()
		var x expectation
		d := map[string]any{"environment": env, "output": text[max(0, len(text)-1500):]}
		if _, j, ok := strings.Cut(text, "\nEXPECT "); err != nil || !ok || json.Unmarshal([]byte(j), &x) != nil {
			c.Violate(d, "the application ended with %v", err)
			return
		}
		d["program"] = x.Prog
		for _, w := range x.Wrong {
			c.Violate(d, "%s", w)
		}
		a := eps[0].take()
		got := map[string][2]float64{}
		for _, p := range pointsOf(a.metrics) {
			if !ownScope.MatchString(p.scope) {
				continue // the exporter's own
			}
			key := p.scope + "/" + p.name + "{" + p.attrs + "}"
			if _, dup := got[key]; dup {
				c.Violate(d, "%s arrives twice", key)
			}
			got[key] = [2]float64{p.value(), float64(p.count)}
		}
		for key, w := range x.Points {
			g, ok := got[key]
			delete(got, key)
			c.Eval(1)
			if w[0] == 0 && !ok {
				continue // an up-down counter that returned to zero
			}
			if g[0] != w[0] || g[1] != 0 && g[1] != w[1] {
				c.Violate(d, "%s: received %v (present: %v), recorded %v", key, g, ok, w)
			}
		}
		for key := range got {
			c.Violate(d, "%s arrives, nothing was recorded", key)
		}
		names, _ := spansOf(a.traces)
		c.Eval(1)
		if fmt.Sprint(map[string]int(names)) != fmt.Sprint(x.Spans) {
			c.Violate(d, "spans received %v, ended %v", names, x.Spans)
		}
		c.Distinct(x.Prog, x.Points)
	}
}
