// Package hz is the shared runtime of the monitors: deterministic case
// generation, verdict recording, watchdog, and evidence accounting.
package hz

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/lightstep/otel-launcher-go/zzverif/vy"
)

// Violation is one refutation of the property, with what replays it.
type Violation struct {
	Case   string         `json:"case"`
	Msg    string         `json:"msg"`
	Detail map[string]any `json:"detail,omitempty"`
}

// Run is one execution of one property's monitor.
type Run struct {
	Prop string
	Tier string
	Seed uint64

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	samples  []any
	viol     []Violation
	nviol    int
	counters map[string]int64
	rule     string
	only     string
	shard    int
	shards   int
	cases    int64
	progress int64
	curCase  atomic.Value
	yields   bool
	race     bool
	known    []string
}

var raceEnabled bool

// Rule documents how cases are made and what makes one non-trivial.
func (r *Run) Rule(s string) { r.rule = s }

// Thorough reports whether this is the deep tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a case count for the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Once reports whether this process is the one to run work that is not
// divided into cases.
func (r *Run) Once() bool { return r.shard == 0 }

// Race reports whether the race detector is compiled in.
func (r *Run) Race() bool { return r.race }

// Eval counts oracle decisions (each one could have refuted the property).
func (r *Run) Eval(n int) { atomic.AddInt64(&r.evals, int64(n)); atomic.AddInt64(&r.progress, 1) }

// Tick marks forward progress for the watchdog.
func (r *Run) Tick() { atomic.AddInt64(&r.progress, 1) }

// Distinct counts a distinct, non-trivial observation.
func (r *Run) Distinct(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	r.mu.Lock()
	r.distinct[h.Sum64()] = struct{}{}
	r.mu.Unlock()
}

// Count adds to a named counter shown in the evidence.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Sample keeps up to eight actual cases.
func (r *Run) Sample(x any) {
	r.mu.Lock()
	if len(r.samples) < 8 {
		r.samples = append(r.samples, x)
	}
	r.mu.Unlock()
}

// Case is one generated case.
type Case struct {
	*Run
	Name string
	R    *rand.Rand
	Seed uint64
	bad  int32
}

func hashSeed(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

// Violate records a violation.
func (c *Case) Violate(detail map[string]any, format string, args ...any) {
	atomic.StoreInt32(&c.bad, 1)
	c.Run.violate(c.Name, detail, format, args...)
}

// Failed reports whether this case already recorded a violation.
func (c *Case) Failed() bool { return atomic.LoadInt32(&c.bad) != 0 }

func (r *Run) violate(name string, detail map[string]any, format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nviol++
	if len(r.viol) < 12 {
		v := Violation{Case: name, Msg: fmt.Sprintf(format, args...), Detail: detail}
		r.viol = append(r.viol, v)
		fmt.Fprintf(os.Stderr, "violation [%s] %s: %s\n", r.Prop, name, v.Msg)
	}
}

// Cases runs n generated cases of the given family.
func (r *Run) Cases(family string, n int, f func(c *Case)) {
	r.cases0(family, n, 0, f)
}

// Concurrent runs n cases with yield injection on.
func (r *Run) Concurrent(family string, n int, f func(c *Case)) {
	r.cases0(family, n, 3, f)
}

func (r *Run) cases0(family string, n int, nhot int, f func(c *Case)) {
	limit := 40 * time.Second
	if r.Thorough() {
		limit = 10 * time.Minute
	}
	start := time.Now()
	ran := 0
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s/%d", family, i)
		if r.only != "" && r.only != name {
			continue
		}
		if r.only == "" && i%r.shards != r.shard {
			continue
		}
		if r.stop() {
			return
		}
		// The time budget of a family only bounds exploration.
		if ran >= 3 && time.Since(start) > limit {
			r.Count("cases left out for time:"+family, int64((n-i)/r.shards))
			return
		}
		ran++
		seed := hashSeed(r.Seed, r.Prop, name)
		c := &Case{Run: r, Name: name, Seed: seed, R: rand.New(rand.NewPCG(seed, 0x1234567))}
		r.curCase.Store(name)
		if nhot > 0 {
			vy.Plan(seed, int(seed>>7%uint64(nhot+2)), true)
		} else {
			vy.Off()
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Violate(map[string]any{"stack": string(debug.Stack())}, "panic: %v", e)
				}
			}()
			f(c)
		}()
		vy.Off()
		r.Count("cases:"+family, 1)
		atomic.AddInt64(&r.cases, 1)
		atomic.AddInt64(&r.progress, 1)
	}
}

func (r *Run) stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.nviol >= 12
}

// Go runs f in a goroutine tracked by wg, turning a panic into a violation.
func (c *Case) Go(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if e := recover(); e != nil {
				c.Violate(map[string]any{"stack": string(debug.Stack())}, "panic in worker: %v", e)
			}
		}()
		f()
	}()
}

// Stuck is how long no monitored operation at all may complete.
const Stuck = 150 * time.Second

func (r *Run) watchdog(out string) {
	last, lastCase := int64(-1), int64(-1)
	since, caseSince := time.Now(), time.Now()
	for {
		time.Sleep(time.Second)
		// Some of a case's goroutines may go on while others are stuck.
		if n := atomic.LoadInt64(&r.cases); n != lastCase {
			lastCase = n
			caseSince = time.Now()
		}
		p := atomic.LoadInt64(&r.progress)
		if p != last {
			last = p
			since = time.Now()
		}
		if time.Since(since) > Stuck || time.Since(caseSince) > Stuck+50*time.Second {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			name, _ := r.curCase.Load().(string)
			r.violate(name, map[string]any{"goroutines": string(buf)}, "no operation completed for %v or a case did not end: deadlock or livelock", Stuck)
			r.write(out)
			os.Exit(1)
		}
	}
}

type report struct {
	Property    string           `json:"property"`
	Tier        string           `json:"tier"`
	Seed        uint64           `json:"seed"`
	Evaluations int64            `json:"evaluations"`
	Cases       int64            `json:"cases"`
	Distinct    int              `json:"distinct_nontrivial"`
	DistinctSet []uint32         `json:"distinct_hashes"`
	Rule        string           `json:"rule"`
	Samples     []any            `json:"samples"`
	Counters    map[string]int64 `json:"counters"`
	NViol       int              `json:"nviolations"`
	Violations  []Violation      `json:"violations"`
	YieldSites  int              `json:"yield_sites_reached"`
	YieldPairs  int              `json:"distinct_preemption_pairs"`
	Delays      uint64           `json:"injected_delays"`
	Race        bool             `json:"race_detector"`
}

func (r *Run) write(out string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s, p, d := vy.Stats()
	rep := report{
		Property: r.Prop, Tier: r.Tier, Seed: r.Seed,
		Evaluations: atomic.LoadInt64(&r.evals), Cases: atomic.LoadInt64(&r.cases),
		Distinct: len(r.distinct), Rule: r.rule, Samples: r.samples, Counters: r.counters,
		NViol: r.nviol, Violations: r.viol,
		YieldSites: s, YieldPairs: p, Delays: d, Race: r.race,
	}
	for h := range r.distinct {
		if len(rep.DistinctSet) == 1<<20 {
			break
		}
		rep.DistinctSet = append(rep.DistinctSet, uint32(h))
	}
	b, err := json.Marshal(rep)
	if err != nil {
		rep.Samples = []any{"unencodable: " + err.Error()}
		for i := range rep.Violations {
			rep.Violations[i].Detail = map[string]any{"text": fmt.Sprint(rep.Violations[i].Detail)}
		}
		b, _ = json.Marshal(rep)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// Main is the entry point of a monitor binary.
func Main(checks map[string]func(*Run)) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Uint64("seed", 1, "seed")
	out := flag.String("out", "", "report")
	only := flag.String("case", "", "only this case")
	shard := flag.Int("shard", 0, "which share of the cases to run")
	shards := flag.Int("shards", 1, "number of shares")
	flag.Parse()
	f, ok := checks[*prop]
	if !ok {
		var names []string
		for n := range checks {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Fprintln(os.Stderr, "unknown property; have", strings.Join(names, " "))
		os.Exit(3)
	}
	// No shard outlives a check that is ended.
	syscall.RawSyscall(syscall.SYS_PRCTL, syscall.PR_SET_PDEATHSIG, uintptr(syscall.SIGKILL), 0)
	r := &Run{
		Prop: *prop, Tier: *tier, Seed: *seed, only: *only, shard: *shard, shards: max(1, *shards),
		distinct: map[uint64]struct{}{}, counters: map[string]int64{},
		race: raceEnabled,
	}
	go r.watchdog(*out)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.violate("setup", map[string]any{"stack": string(debug.Stack())}, "panic: %v", e)
			}
		}()
		f(r)
	}()
	r.write(*out)
	if r.nviol > 0 {
		os.Exit(1)
	}
}
