package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/cputime"
	hostinstr "github.com/lightstep/otel-launcher-go/lightstep/instrumentation/host"
	runtimeinstr "github.com/lightstep/otel-launcher-go/lightstep/instrumentation/runtime"
	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/metric"
)

// rworld is a provider with readers of several temporalities.
type rworld struct {
	p       *lmetric.MeterProvider
	readers []*watched
}

// watched adds up what one reader reports.
type watched struct {
	rd   *lmetric.ManualReader
	sums map[string]float64 // name{attrs} -> cumulative value
	pts  map[string]int     // points in the last collection
}

func newRWorld(n int, tempo func(i int, k sdkinstrument.Kind) aggregation.Temporality) *rworld {
	w := &rworld{}
	var opts []lmetric.Option
	for i := 0; i < n; i++ {
		rd := lmetric.NewManualReader(fmt.Sprint("r", i))
		opts = append(opts, lmetric.WithReader(rd, view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality { return tempo(i, k) })))
		w.readers = append(w.readers, &watched{rd: rd, sums: map[string]float64{}})
	}
	w.p = lmetric.NewMeterProvider(opts...)
	return w
}

func randTempo(r *rand.Rand) func(int, sdkinstrument.Kind) aggregation.Temporality {
	bits := r.Uint32()
	return func(i int, k sdkinstrument.Kind) aggregation.Temporality {
		if k == sdkinstrument.AsyncCounter && bits>>(i%32)&1 == 1 {
			return aggregation.DeltaTemporality
		}
		return aggregation.CumulativeTemporality
	}
}

type rpoint struct {
	v                 float64
	mono, gauge       bool
	unit              string
	nk                number.Kind
	desc              string
	reported, integer bool
}

// collect adds a collection up; series reported twice are returned in dup.
func (w *watched) collect(scope string) (pts map[string]rpoint, dup []string, snap *snap) {
	s := produce(w.rd, nil)
	pts = map[string]rpoint{}
	for _, sc := range s.scopes {
		if sc.lib.Name != scope {
			continue
		}
		for _, in := range sc.insts {
			for _, p := range in.points {
				key := in.desc.Name + "{" + p.attrs + "}"
				if _, ok := pts[key]; ok {
					dup = append(dup, key)
				}
				v := p.val.float()
				if p.tempo == aggregation.DeltaTemporality && p.kind != aggregation.GaugeKind {
					w.sums[key] += v
				} else {
					w.sums[key] = v
				}
				pts[key] = rpoint{v: w.sums[key], mono: p.mono, gauge: p.kind == aggregation.GaugeKind, unit: in.desc.Unit, nk: in.desc.NumberKind, desc: in.desc.Description, reported: true}
			}
		}
	}
	return pts, dup, s
}

// wantRuntime is one expected runtime series.
type wantRuntime struct {
	goName     string
	unit       string
	cumulative bool
	float      bool
	family     string
}

// expectedRuntime maps the toolchain's own list of metrics to the names and
// attributes documented for the instrumentation.
func expectedRuntime() map[string]wantRuntime {
	out := map[string]wantRuntime{}
	for _, d := range metrics.All() {
		if d.Kind != metrics.KindUint64 && d.Kind != metrics.KindFloat64 || strings.HasPrefix(d.Name, "/godebug/") {
			continue
		}
		path, unit, _ := strings.Cut(d.Name, ":")
		w := wantRuntime{goName: d.Name, cumulative: d.Cumulative, float: d.Kind == metrics.KindFloat64}
		base, attrs := path, ""
		for _, f := range []string{"/cpu/classes/", "/memory/classes/", "/gc/cycles/", "/gc/scan/"} {
			if strings.HasPrefix(path, f) {
				w.family = f
				base = strings.TrimSuffix(f, "/")
				segs := strings.Split(path[len(f):], "/")
				if segs[len(segs)-1] == "total" {
					base = ""
					break
				}
				var p []string
				for i, s := range segs {
					n := "class"
					if i > 0 {
						n = fmt.Sprint("class", i+1)
					}
					p = append(p, fmt.Sprintf("%q=s:%q", n, s))
				}
				attrs = strings.Join(p, ",")
			}
		}
		if base == "" {
			continue
		}
		name := "process.runtime.go" + strings.ReplaceAll(base, "/", ".")
		switch base {
		case "/cpu/classes":
			name = "process.runtime.go.cpu.time"
		case "/memory/classes":
			name = "process.runtime.go.memory.usage"
		case "/gc/heap/allocs", "/gc/heap/frees":
			if unit == "objects" {
				name += ".objects"
				unit = ""
			}
		}
		switch unit {
		case "bytes":
			w.unit = "By"
		case "seconds":
			w.unit = "s"
		case "":
		default:
			w.unit = "{" + unit + "}"
		}
		out[name+"{"+attrs+"}"] = w
	}
	return out
}

func readRuntime() map[string]float64 {
	var s []metrics.Sample
	for _, d := range metrics.All() {
		if d.Kind == metrics.KindUint64 || d.Kind == metrics.KindFloat64 {
			s = append(s, metrics.Sample{Name: d.Name})
		}
	}
	metrics.Read(s)
	m := map[string]float64{}
	for _, x := range s {
		if x.Value.Kind() == metrics.KindUint64 {
			m[x.Name] = float64(int64(x.Value.Uint64()))
		} else {
			m[x.Name] = x.Value.Float64()
		}
	}
	return m
}

func totalOf(family string) string {
	for _, d := range metrics.All() {
		if p, _, _ := strings.Cut(d.Name, ":"); p == family+"total" {
			return d.Name
		}
	}
	return ""
}

var keep atomic.Pointer[[]byte]

// stir makes the runtime's numbers move.
func stir(r *rand.Rand, c *hz.Case) {
	switch r.IntN(5) {
	case 0:
		b := make([]byte, 1<<uint(10+r.IntN(14)))
		keep.Store(&b)
	case 1:
		runtime.GC()
	case 2:
		x := make([][]byte, r.IntN(2000))
		for i := range x {
			x[i] = make([]byte, 100)
		}
		runtime.KeepAlive(x)
	case 3:
		keep.Store(nil)
	default:
		t := 0
		for i := 0; i < 100000; i++ {
			t += i * i
		}
		_ = t
	}
}

const runtimeScope = "otel-launcher-go/runtime"

// startIn starts an instrumentation with the provider given directly or set
// globally.
func startIn(r *rand.Rand, p metric.MeterProvider, with, without func() error, withNil func() error) error {
	switch r.IntN(3) {
	case 0:
		return with()
	case 1:
		otel.SetMeterProvider(p)
		return without()
	}
	otel.SetMeterProvider(p)
	return withNil()
}

// runtimeSeq: one goroutine; every series is bracketed by reads of the
// runtime's own numbers.
func runtimeSeq(c *hz.Case) {
	r := c.R
	reset()
	sink.take()
	w := newRWorld(1+r.IntN(2), randTempo(r))
	if err := startIn(r, w.p, func() error { return runtimeinstr.Start(runtimeinstr.WithMeterProvider(w.p)) },
		func() error { return runtimeinstr.Start() }, func() error { return runtimeinstr.Start(runtimeinstr.WithMeterProvider(nil)) }); err != nil {
		c.Violate(nil, "Start: %v", err)
		return
	}
	want := expectedRuntime()
	stop := make(chan struct{})
	defer close(stop)
	oldGC := debug.SetGCPercent(100)
	oldMem := debug.SetMemoryLimit(-1)
	oldProcs := runtime.GOMAXPROCS(0)
	defer func() { debug.SetGCPercent(oldGC); debug.SetMemoryLimit(oldMem); runtime.GOMAXPROCS(oldProcs) }()
	for round := 0; round < 6 && !c.Failed(); round++ {
		switch r.IntN(6) {
		case 0:
			debug.SetGCPercent(50 + r.IntN(300))
		case 1:
			debug.SetMemoryLimit(int64(1<<32 + r.IntN(1<<30)))
		case 2:
			for i := r.IntN(20); i >= 0; i-- {
				go func() { <-stop }()
			}
			runtime.Gosched()
		case 3:
			runtime.GOMAXPROCS(1 + r.IntN(6))
		}
		stir(r, c)
		for i, x := range w.readers {
			before := readRuntime()
			pts, dup, _ := x.collect(runtimeScope)
			after := readRuntime()
			checkRuntime(c, want, fmt.Sprintf("reader %d round %d", i, round), x, pts, dup, before, after, true)
			c.Distinct(len(pts), after["/gc/heap/allocs:objects"])
		}
	}
	if errs := sink.take(); len(errs) > 0 {
		c.Violate(nil, "errors: %v", errs)
	}
}

func checkRuntime(c *hz.Case, want map[string]wantRuntime, what string, x *watched, pts map[string]rpoint, dup []string, before, after map[string]float64, strict bool) {
	c.Eval(len(want) + 2)
	if len(dup) > 0 {
		c.Violate(nil, "%s: series reported twice: %v", what, dup)
	}
	fam := map[string]float64{}
	for key, e := range want {
		p, ok := pts[key]
		v, seen := x.sums[key]
		if !seen {
			c.Violate(nil, "%s: no %s (%s)", what, key, e.goName)
			continue
		}
		if ok {
			if p.unit != e.unit || p.nk == number.Float64Kind != e.float {
				c.Violate(nil, "%s: %s has unit %q and kind %v, want %q, float %v", what, key, p.unit, p.nk, e.unit, e.float)
			}
			if p.gauge && e.cumulative || !p.gauge && p.mono != e.cumulative {
				c.Violate(nil, "%s: %s is gauge=%v monotonic=%v but the runtime's is cumulative=%v", what, key, p.gauge, p.mono, e.cumulative)
			}
		}
		if e.family != "" {
			fam[e.family] += v
		}
		lo, hi := before[e.goName], after[e.goName]
		slack := 0.0
		if e.float {
			slack = 1e-6
		}
		gc := before["/gc/cycles/total:gc-cycles"] != after["/gc/cycles/total:gc-cycles"]
		if lo > hi {
			lo, hi = hi, lo
		}
		if !e.cumulative {
			switch {
			case e.family == "/memory/classes/" && strict:
				slack = 16 << 20
			case e.goName == "/gc/heap/objects:objects" && strict:
				slack = 1 << 20
			case e.goName == "/sched/goroutines:goroutines" && !strict:
				slack = 100
			case gc || !strict:
				slack = math.Inf(1)
			}
			if e.goName == "/gc/gogc:percent" || e.goName == "/gc/gomemlimit:bytes" || e.goName == "/sched/gomaxprocs:threads" {
				slack = 0
			}
		}
		if v < lo-slack || v > hi+slack {
			c.Violate(nil, "%s: %s reports %v; runtime/metrics %s was %v before and %v after", what, key, v, e.goName, before[e.goName], after[e.goName])
		}
	}
	for key := range pts {
		if _, ok := want[key]; !ok {
			c.Violate(nil, "%s: unexpected series %s", what, key)
		}
	}
	// One read feeds all classes, so they add up to the total.
	for f, v := range fam {
		n := totalOf(f)
		lo, hi := before[n], after[n]
		slack := 1e-6 * math.Max(1, hi)
		if f == "/cpu/classes/" {
			continue // the runtime's own estimates do not add up exactly
		}
		if f == "/memory/classes/" {
			// The runtime gathers these without stopping the program.
			slack = 1<<20 + math.Max(lo, hi)/4
		}
		if f == "/gc/scan/" {
			if !strict || before["/gc/cycles/total:gc-cycles"] != after["/gc/cycles/total:gc-cycles"] {
				continue
			}
			lo, hi = math.Min(lo, hi), math.Max(lo, hi)
		}
		if v < lo-slack || v > hi+slack {
			c.Violate(nil, "%s: the classes of %s add up to %v; the runtime's total was %v before and %v after", what, f, v, lo, hi)
		}
	}
}

// runtimeConc: several readers collect at once while the program works.
func runtimeConc(c *hz.Case) {
	r := c.R
	reset()
	sink.take()
	w := newRWorld(2+r.IntN(3), randTempo(r))
	if err := runtimeinstr.Start(runtimeinstr.WithMeterProvider(w.p)); err != nil {
		c.Violate(nil, "Start: %v", err)
		return
	}
	want := expectedRuntime()
	var wg sync.WaitGroup
	var done atomic.Bool
	for i := range w.readers {
		c.Go(&wg, func() {
			for k := 0; k < 12 && !c.Failed(); k++ {
				before := readRuntime()
				pts, dup, _ := w.readers[i].collect(runtimeScope)
				after := readRuntime()
				checkRuntime(c, want, fmt.Sprintf("reader %d of %d, collection %d", i, len(w.readers), k), w.readers[i], pts, dup, before, after, false)
				c.Distinct(i, after["/gc/heap/allocs:bytes"])
			}
		})
	}
	var wl sync.WaitGroup
	rnd := rand.New(rand.NewPCG(c.Seed, 1))
	c.Go(&wl, func() {
		for !done.Load() {
			stir(rnd, c)
		}
	})
	wg.Wait()
	done.Store(true)
	wl.Wait()
	if errs := sink.take(); len(errs) > 0 {
		c.Violate(nil, "errors: %v", errs)
	}
}

// ---- cputime

var harnessStart = time.Now()

func rusage() (u, s float64) {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		panic(err)
	}
	return time.Duration(ru.Utime.Nano()).Seconds(), time.Duration(ru.Stime.Nano()).Seconds()
}

const cpuScope = "otel_launcher_go/cputime"

var burnSink atomic.Int64

func burn(r *rand.Rand) {
	if r.IntN(2) == 0 {
		t := int64(0)
		for i := 0; i < 200000; i++ {
			t += int64(i * i)
		}
		burnSink.Store(t)
	} else {
		for i := 0; i < 200; i++ {
			os.Stat("/")
		}
	}
}

// burnSeconds has the process use more than a second of each kind of time.
func burnSeconds() {
	// What a child process uses is not this process's time.
	_ = exec.Command("sh", "-c", "i=0; while [ $i -lt 200000 ]; do i=$((i+1)); done; cat /dev/zero | head -c 100000000 >/dev/null").Run()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			f, err := os.Open("/dev/zero")
			if err != nil {
				return
			}
			defer f.Close()
			buf := make([]byte, 1<<20)
			for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
				u, s := rusage()
				if u > 1.3 && s > 1.3 {
					return
				}
				if s <= 1.3 {
					f.Read(buf)
				}
				var t int64
				for i := 0; u <= 1.3 && i < 200000; i++ {
					t += int64(i * i)
				}
				burnSink.Store(t)
			}
		}()
	}
	wg.Wait()
}

func cputimeCase(c *hz.Case) {
	r := c.R
	reset()
	sink.take()
	w := newRWorld(1+r.IntN(4), randTempo(r))
	if err := startIn(r, w.p, func() error { return cputime.Start(cputime.WithMeterProvider(w.p)) },
		func() error { return cputime.Start() }, func() error { return cputime.Start(cputime.WithMeterProvider(nil)) }); err != nil {
		c.Violate(nil, "Start: %v", err)
		return
	}
	var wg sync.WaitGroup
	for i, x := range w.readers {
		rnd := rand.New(rand.NewPCG(c.Seed, uint64(i)))
		c.Go(&wg, func() {
			var lastUp, lastA, lastB float64
			for k := 0; k < 10 && !c.Failed(); k++ {
				burn(rnd)
				u0, s0 := rusage()
				a := time.Since(harnessStart).Seconds()
				_, dup, s := x.collect(cpuScope)
				b := time.Since(harnessStart).Seconds()
				u1, s1 := rusage()
				what := fmt.Sprintf("reader %d collection %d", i, k)
				c.Eval(5)
				if len(dup) > 0 {
					c.Violate(nil, "%s: series twice: %v", what, dup)
				}
				const slack = 2e-6
				user, sys := x.sums[`process.cpu.time{"state"=s:"user"}`], x.sums[`process.cpu.time{"state"=s:"system"}`]
				if user < u0-slack || user > u1+slack {
					c.Violate(nil, "%s: user CPU time %v, getrusage says %v before and %v after", what, user, u0, u1)
				}
				if sys < s0-slack || sys > s1+slack {
					c.Violate(nil, "%s: system CPU time %v, getrusage says %v before and %v after", what, sys, s0, s1)
				}
				up, ok := x.sums["process.uptime{}"]
				// The process started before this program's main package was
				// initialized, at most a little.
				if !ok || up < a || up > b+5 {
					c.Violate(nil, "%s: uptime %v (seen %v), the program has run for %v to %v", what, up, ok, a, b)
				}
				if k > 0 && (up-lastUp < a-lastB-slack || up-lastUp > b-lastA+slack) {
					c.Violate(nil, "%s: uptime advanced by %v in %v to %v", what, up-lastUp, a-lastB, b-lastA)
				}
				lastUp, lastA, lastB = up, a, b
				checkShape(c, what, s, cpuScope, map[string]shape{
					"process.cpu.time": {"s", number.Float64Kind, sdkinstrument.AsyncCounter, 2},
					"process.uptime":   {"s", number.Float64Kind, sdkinstrument.AsyncUpDownCounter, 1},
				})
				c.Distinct(user, sys)
			}
		})
	}
	wg.Wait()
	if errs := sink.take(); len(errs) > 0 {
		c.Violate(nil, "errors: %v", errs)
	}
}

type shape struct {
	unit string
	nk   number.Kind
	kind sdkinstrument.Kind
	pts  int
}

func checkShape(c *hz.Case, what string, s *snap, scope string, want map[string]shape) {
	c.Eval(1)
	n := 0
	for _, sc := range s.scopes {
		if sc.lib.Name != scope {
			c.Violate(nil, "%s: unexpected scope %s", what, sc.lib.Name)
		}
		for _, in := range sc.insts {
			e, ok := want[in.desc.Name]
			if !ok || in.desc.Unit != e.unit || in.desc.NumberKind != e.nk || in.desc.Kind != e.kind {
				c.Violate(nil, "%s: metric %q has unit %q, %v, %v; want %+v", what, in.desc.Name, in.desc.Unit, in.desc.NumberKind, in.desc.Kind, e)
			}
			if len(in.points) > e.pts {
				c.Violate(nil, "%s: metric %q has %d points, want at most %d", what, in.desc.Name, len(in.points), e.pts)
			}
			n++
		}
	}
	if n != len(want) {
		c.Violate(nil, "%s: %d metrics, want %d", what, n, len(want))
	}
}

// ---- host

// fakeProc is a /proc whose numbers are chosen here.
type fakeProc struct {
	dir        string
	user, nice uint64 // the times include guest time, as on Linux
	system     uint64
	idle       uint64
	iowait     uint64
	irq        uint64
	softirq    uint64
	steal      uint64
	guest      uint64
	guestNice  uint64
	total      uint64 // kB
	free       uint64
	available  uint64
	buffers    uint64
	cached     uint64
	rx, tx     []uint64
}

func newFakeProc(r *rand.Rand, dir string) *fakeProc {
	os.MkdirAll(filepath.Join(dir, "net"), 0o755)
	f := &fakeProc{dir: dir}
	f.total = 1 + uint64(r.IntN(1<<30))
	n := 1 + r.IntN(4)
	f.rx, f.tx = make([]uint64, n), make([]uint64, n)
	if r.IntN(3) != 0 {
		f.step(r)
		if r.IntN(2) == 0 {
			f.user += uint64(r.Int64N(1 << 40))
			f.idle += uint64(r.Int64N(1 << 40))
			f.rx[0] += uint64(r.Int64N(1 << 55))
			f.tx[0] += uint64(r.Int64N(1 << 55))
		}
	}
	f.memory(r)
	return f
}

func (f *fakeProc) memory(r *rand.Rand) {
	left := f.total
	take := func() uint64 { v := r.Uint64N(left + 1); left -= v; return v }
	f.free, f.cached, f.buffers = take(), take(), take()
	f.available = r.Uint64N(f.total + 1)
}

func (f *fakeProc) step(r *rand.Rand) {
	some := func() uint64 {
		if r.IntN(3) == 0 {
			return 0
		}
		return uint64(r.IntN(10000))
	}
	g, gn := some(), some()
	f.guest += g
	f.guestNice += gn
	f.user += g + some()
	f.nice += gn + some()
	f.system += some()
	f.idle += some()
	f.iowait += some()
	f.irq += some()
	f.softirq += some()
	f.steal += some()
	for i := range f.rx {
		f.rx[i] += some() * 1000
		f.tx[i] += some() * 7
	}
	f.memory(r)
}

func (f *fakeProc) write() {
	put := func(name, text string) {
		p := filepath.Join(f.dir, name)
		if err := os.WriteFile(p+".tmp", []byte(text), 0o644); err != nil {
			panic(err)
		}
		if err := os.Rename(p+".tmp", p); err != nil {
			panic(err)
		}
	}
	line := fmt.Sprintf("%d %d %d %d %d %d %d %d %d %d", f.user, f.nice, f.system, f.idle, f.iowait, f.irq, f.softirq, f.steal, f.guest, f.guestNice)
	put("stat", "cpu  "+line+"\ncpu0 "+line+"\nintr 0\nctxt 0\nbtime 1700000000\nprocesses 1\n")
	put("meminfo", fmt.Sprintf("MemTotal: %d kB\nMemFree: %d kB\nMemAvailable: %d kB\nBuffers: %d kB\nCached: %d kB\nSReclaimable: 0 kB\n", f.total, f.free, f.available, f.buffers, f.cached))
	var b strings.Builder
	b.WriteString("Inter-|   Receive                                                |  Transmit\n face |bytes    packets errs drop fifo frame compressed multicast|bytes    packets errs drop fifo colls carrier compressed\n")
	for i := range f.rx {
		fmt.Fprintf(&b, "  eth%d: %d 1 0 0 0 0 0 0 %d 2 0 0 0 0 0 0\n", i, f.rx[i], f.tx[i])
	}
	put("net/dev", b.String())
}

const hostScope = "otel_launcher_go/host"

// expected values by series.
func (f *fakeProc) want() map[string]float64 {
	hz := 100.0
	sum := func(v []uint64) (t uint64) {
		for _, x := range v {
			t += x
		}
		return
	}
	used := f.total - f.free - f.buffers - f.cached
	return map[string]float64{
		`system.cpu.time{"state"=s:"user"}`:   float64(f.user) / hz,
		`system.cpu.time{"state"=s:"system"}`: float64(f.system) / hz,
		`system.cpu.time{"state"=s:"idle"}`:   float64(f.idle) / hz,
		// Guest time is part of user and nice time.
		`system.cpu.time{"state"=s:"other"}`:               float64(f.nice+f.iowait+f.irq+f.softirq+f.steal) / hz,
		`system.memory.usage{"state"=s:"used"}`:            float64(used * 1024),
		`system.memory.usage{"state"=s:"available"}`:       float64(f.available * 1024),
		`system.memory.utilization{"state"=s:"used"}`:      float64(used) / float64(f.total),
		`system.memory.utilization{"state"=s:"available"}`: float64(f.available) / float64(f.total),
		`system.network.io{"direction"=s:"transmit"}`:      float64(sum(f.tx)),
		`system.network.io{"direction"=s:"receive"}`:       float64(sum(f.rx)),
	}
}

var hostShape = map[string]shape{
	"system.cpu.time":           {"s", number.Float64Kind, sdkinstrument.AsyncCounter, 4},
	"system.memory.usage":       {"By", number.Int64Kind, sdkinstrument.AsyncUpDownCounter, 2},
	"system.memory.utilization": {"", number.Float64Kind, sdkinstrument.AsyncGauge, 2},
	"system.network.io":         {"By", number.Int64Kind, sdkinstrument.AsyncCounter, 2},
}

func hostCase(c *hz.Case) {
	r := c.R
	reset()
	sink.take()
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "proc"+strconv.FormatUint(c.Seed, 36))
	f := newFakeProc(r, dir)
	defer os.RemoveAll(dir)
	f.write()
	os.Setenv("HOST_PROC", dir)
	defer os.Unsetenv("HOST_PROC")
	w := newRWorld(1+r.IntN(4), randTempo(r))
	if err := startIn(r, w.p, func() error { return hostinstr.Start(hostinstr.WithMeterProvider(w.p)) },
		func() error { return hostinstr.Start() }, func() error { return hostinstr.Start(hostinstr.WithMeterProvider(nil)) }); err != nil {
		c.Violate(nil, "Start: %v", err)
		return
	}
	for round := 0; round < 5 && !c.Failed(); round++ {
		want := f.want()
		// All readers collect at once.
		var wg sync.WaitGroup
		for i, x := range w.readers {
			if r.IntN(5) == 0 {
				continue
			}
			c.Go(&wg, func() {
				for k := 0; k < 2; k++ {
					_, dup, s := x.collect(hostScope)
					what := fmt.Sprintf("reader %d round %d", i, round)
					c.Eval(len(want) + 1)
					if len(dup) > 0 {
						c.Violate(nil, "%s: series twice: %v", what, dup)
					}
					for key, v := range want {
						g, ok := x.sums[key]
						if !ok || math.Abs(g-v) > 1e-9*math.Max(1, math.Abs(v)) {
							c.Violate(map[string]any{"proc": fmt.Sprintf("%+v", *f)}, "%s: %s reports %v (seen %v), the host says %v", what, key, g, ok, v)
						}
					}
					for key := range x.sums {
						if _, ok := want[key]; !ok {
							c.Violate(nil, "%s: unexpected series %s", what, key)
						}
					}
					checkShape(c, what, s, hostScope, hostShape)
				}
			})
		}
		wg.Wait()
		c.Distinct(f.user, f.tx, f.available)
		f.step(r)
		f.write()
	}
	if errs := sink.take(); len(errs) > 0 {
		c.Violate(nil, "errors: %v", errs)
	}
}

// hostFaults: while a source cannot be read nothing false is reported, and
// everything is right once it can be read again.
func hostFaults(c *hz.Case) {
	r := c.R
	reset()
	sink.take()
	dir := filepath.Join(os.Getenv("VERIF_SCRATCH"), "proc"+strconv.FormatUint(c.Seed, 36))
	f := newFakeProc(r, dir)
	defer os.RemoveAll(dir)
	f.write()
	os.Setenv("HOST_PROC", dir)
	defer os.Unsetenv("HOST_PROC")
	w := newRWorld(1+r.IntN(2), func(int, sdkinstrument.Kind) aggregation.Temporality { return aggregation.CumulativeTemporality })
	if err := hostinstr.Start(hostinstr.WithMeterProvider(w.p)); err != nil {
		c.Violate(nil, "Start: %v", err)
		return
	}
	broken := ""
	for round := 0; round < 8 && !c.Failed(); round++ {
		f.step(r)
		f.write()
		broken = ""
		if round%2 == 1 {
			broken = pickStr(r, "stat", "net/dev")
			os.Remove(filepath.Join(dir, broken))
		}
		want := f.want()
		for i, x := range w.readers {
			pts, _, _ := x.collect(hostScope)
			c.Eval(len(want))
			for key, p := range pts {
				if v := want[key]; math.Abs(p.v-v) > 1e-9*math.Max(1, math.Abs(v)) {
					c.Violate(nil, "reader %d round %d (unreadable: %q): %s reports %v, the host says %v", i, round, broken, key, p.v, v)
				}
			}
			if broken == "" {
				for key, v := range want {
					if g := x.sums[key]; math.Abs(g-v) > 1e-9*math.Max(1, math.Abs(v)) {
						c.Violate(nil, "reader %d round %d, after faults: %s adds up to %v, the host says %v", i, round, key, g, v)
					}
				}
			}
		}
		c.Distinct(round, broken, len(w.readers))
		sink.take()
	}
}

func init() {
	checks["I01"] = func(r *hz.Run) {
		r.Rule("while the program allocates, collects garbage, starts goroutines and changes its limits, every exported series is bracketed by reads of runtime/metrics before and after the collection and classes are added up to the runtime's totals; distinct = distinct allocation counts at a collection")
		if !r.Race() {
			r.Cases("runtime", r.N(600, 10000), runtimeSeq)
		}
		r.Concurrent("runtime-conc", r.N(100, 2000), runtimeConc)
	}
	checks["I02"] = func(r *hz.Run) {
		r.Rule("readers collect at once while the process uses CPU; values are bracketed by getrusage and the clock; distinct = distinct CPU times")
		burnSeconds()
		r.Concurrent("cputime", r.N(500, 8000), cputimeCase)
	}
	checks["I03"] = func(r *hz.Run) {
		r.Rule("the host's counters are served from a generated proc directory, changed between collections by several readers at once; every series must equal the generated numbers; distinct = distinct numbers")
		r.Concurrent("host", r.N(1500, 20000), hostCase)
		if !r.Race() {
			r.Cases("faults", r.N(1000, 20000), hostFaults)
		}
	}
}
