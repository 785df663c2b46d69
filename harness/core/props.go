package main

import (
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
)

// everything is the broadest sequential profile.
var everything = profile{
	kinds: allKinds, maxReaders: 3, maxClauses: 3, ops: 80, empty: true, callbacks: true, conflicts: true,
	invalid: true, aggDefault: true, hints: true, process: true, dupInst: true,
}

var counters = []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter}
var histograms = []sdkinstrument.Kind{sdkinstrument.SyncHistogram}

const ruleSeq = "random histories of instrument creation, measurement, callback and collection operations are run against the SDK and a reference model; every collected point is compared; distinct = distinct (instrument kind, aggregation, temporality, attributes, value) points"
const ruleConc = "concurrent recorders and collectors with injected delays at synchronization points; each collection is checked against what was begun/finished around it, the end state against the full log; distinct = distinct collected states"

// seq runs sequential histories against the reference model.
func seq(r *hz.Run, family string, quick, thorough int, p profile) {
	if p.kinds == nil {
		p.kinds = allKinds
	}
	if p.ops == 0 {
		p.ops = 80
	}
	if p.maxReaders == 0 {
		p.maxReaders = 3
	}
	if r.Race() {
		return
	}
	r.Cases(family, r.N(quick, thorough), func(c *hz.Case) { runHistory(c, &p) })
}

// conc runs concurrent cases; fewer with the race detector.
func conc(r *hz.Run, family string, quick, thorough int, f func(*hz.Case)) {
	n := r.N(quick, thorough)
	if r.Race() {
		n = max(n/5, 20)
	}
	r.Concurrent(family, n, f)
}

func sums(c *hz.Case) {
	newConc(c, concCfg{kinds: counters, workers: 3, ops: 300, maxReader: 3, keys: true}).run()
}
func sumsShared(c *hz.Case) {
	newConc(c, concCfg{kinds: counters, workers: 3, ops: 200, maxReader: 3, keys: true, rename: true}).run()
}
func hists(c *hz.Case) {
	newConc(c, concCfg{kinds: histograms, workers: 3, ops: 300, maxReader: 3, keys: true}).run()
}
func mmscs(c *hz.Case) {
	newConc(c, concCfg{kinds: histograms, agg: aggregation.MinMaxSumCountKind, workers: 3, ops: 300, maxReader: 3, keys: true}).run()
}

func init() {
	// M01: synchronous sums are counted exactly once.
	checks["M01"] = func(r *hz.Run) {
		r.Rule(ruleConc + " | " + ruleSeq)
		conc(r, "sum", 1500, 30000, sums)
		conc(r, "sum-merge", 500, 10000, func(c *hz.Case) {
			newConc(c, concCfg{kinds: counters, workers: 4, ops: 300, maxReader: 2, keys: true, merge: true}).run()
		})
		conc(r, "sum-shared", 400, 10000, sumsShared)
		conc(r, "chaos", 150, 3000, chaos)
		seq(r, "history", 2000, 60000, profile{kinds: counters, maxClauses: 2})
		seq(r, "history-all", 600, 20000, everything)
	}
	// M02: distributions.
	checks["M02"] = func(r *hz.Run) {
		r.Rule(ruleConc + " | " + ruleSeq)
		conc(r, "hist", 900, 20000, hists)
		conc(r, "mmsc", 600, 10000, mmscs)
		conc(r, "hist-merge", 400, 8000, func(c *hz.Case) {
			newConc(c, concCfg{kinds: histograms, workers: 4, ops: 300, maxReader: 2, keys: true, merge: true}).run()
		})
		conc(r, "hist-shared", 300, 6000, func(c *hz.Case) {
			newConc(c, concCfg{kinds: histograms, workers: 3, ops: 200, maxReader: 3, keys: true, rename: true}).run()
		})
		seq(r, "history", 3000, 60000, profile{kinds: histograms, maxClauses: 3, aggDefault: true})
		seq(r, "history-hints", 1500, 30000, profile{kinds: syncKinds, maxClauses: 2, hints: true})
		seq(r, "history-all", 600, 20000, everything)
		if !r.Race() {
			r.Cases("edge-values", r.N(6000, 400000), edgeValues)
			r.Cases("edge-known", 1, edgeKnown)
		}
	}
	// M03: temporality and timestamps.
	checks["M03"] = func(r *hz.Run) {
		r.Rule(ruleSeq + " | " + ruleConc)
		conc(r, "times", 600, 12000, timesConc)
		seq(r, "history", 3000, 60000, profile{maxClauses: 1})
		seq(r, "history-views", 1500, 30000, profile{maxClauses: 3, aggDefault: true, callbacks: true})
		seq(r, "history-all", 600, 20000, everything)
	}
	// M04: synchronous gauges.
	checks["M04"] = func(r *hz.Run) {
		r.Rule("every completed gauge measurement is an interval of a register history; each collected value must be the value of a write that could be the last one at that collection (merged sets: the last over all merged sets) | " + ruleSeq)
		conc(r, "gauge", 1200, 20000, func(c *hz.Case) { gaugeConc(c, false, false) })
		conc(r, "gauge-shared", 900, 15000, func(c *hz.Case) { gaugeConc(c, c.R.IntN(2) == 0, true) })
		conc(r, "gauge-merge", 1500, 20000, func(c *hz.Case) { gaugeConc(c, true, false) })
		seq(r, "history", 3000, 60000, profile{kinds: []sdkinstrument.Kind{sdkinstrument.SyncGauge}, maxClauses: 2, invalid: true})
		seq(r, "history-all", 600, 20000, everything)
	}
	// M05: asynchronous observations.
	checks["M05"] = func(r *hz.Run) {
		r.Rule("each collection's asynchronous points must be exactly the (last) observations its own callback run made, converted to the reader's temporality; distinct = distinct points | " + ruleSeq)
		if !r.Race() {
			r.Cases("gap", 16, gapSeries)
		}
		conc(r, "async", 500, 10000, func(c *hz.Case) { asyncConc(c, 0) })
		conc(r, "async-views", 500, 10000, func(c *hz.Case) { asyncConc(c, 2) })
		conc(r, "async-shared", 600, 10000, asyncShared)
		conc(r, "async-fan", 600, 10000, asyncFan)
		seq(r, "history", 3000, 60000, profile{kinds: asyncKinds, maxClauses: 2, callbacks: true, invalid: true})
		seq(r, "history-all", 600, 20000, everything)
	}
	// M06: callback registration.
	checks["M06"] = func(r *hz.Run) {
		r.Rule("registration, unregistration and collection run concurrently; every callback run is checked against the registered interval, and every observation against the declared instruments | " + ruleSeq)
		conc(r, "callback", 900, 15000, callbackConc)
		conc(r, "stale", 600, 10000, staleObserver)
		conc(r, "chaos", 100, 2000, chaos)
		seq(r, "history", 3000, 60000, profile{kinds: asyncKinds, maxClauses: 1, callbacks: true, dupInst: true})
		seq(r, "history-all", 600, 20000, everything)
	}
	// M07: attribute identity.
	checks["M07"] = func(r *hz.Run) {
		r.Rule(ruleSeq + " | " + ruleConc)
		conc(r, "sum", 600, 12000, sums)
		conc(r, "gauge", 300, 6000, func(c *hz.Case) { gaugeConc(c, false, false) })
		seq(r, "history", 3000, 60000, profile{kinds: syncKinds, maxClauses: 2, empty: true})
		seq(r, "history-async", 800, 20000, profile{kinds: asyncKinds, maxClauses: 2, empty: true})
		seq(r, "history-limit", 1500, 30000, profile{maxClauses: 1, empty: true, attrLimit: true, process: true})
	}
	// M08: cardinality limits.
	checks["M08"] = func(r *hz.Run) {
		r.Rule("more distinct attribute sets than the configured limits are recorded; number of points, identity of the first sets, the overflow set and total conservation are checked at every collection; distinct = distinct collected shapes")
		if !r.Race() {
			r.Cases("limit", r.N(8000, 100000), limitSeq)
			r.Cases("default", r.N(48, 500), limitDefaults)
			r.Cases("limit-repeat", 8, overflowRepeat)
			r.Cases("limit-async", r.N(8000, 100000), limitAsync)
		}
		conc(r, "limit-conc", 3000, 40000, limitConc)
	}
	// M09: reclamation.
	checks["M09"] = func(r *hz.Run) {
		r.Rule("attribute sets come and go; idle sets must give their slots and memory back while no measurement is lost; distinct = distinct collected shapes")
		if !r.Race() {
			r.Cases("slots", r.N(6000, 60000), reclaimSlots)
			r.Cases("heap", r.N(30, 200), reclaimHeap)
		}
		conc(r, "sum", 600, 12000, sums)
		conc(r, "sum-shared", 300, 6000, sumsShared)
		conc(r, "idle-return", 2500, 40000, idleReturn)
		seq(r, "history", 1500, 30000, profile{kinds: syncKinds, ops: 160})
	}
	// M10: input handling.
	checks["M10"] = func(r *hz.Run) {
		r.Rule(ruleSeq)
		seq(r, "history", 3000, 60000, profile{invalid: true, empty: true, attrLimit: true})
		seq(r, "history-process", 2000, 40000, profile{kinds: syncKinds, invalid: true, empty: true, process: true, attrLimit: true})
		seq(r, "history-async", 1500, 40000, profile{kinds: asyncKinds, invalid: true, empty: true, callbacks: true})
		seq(r, "history-agg", 1500, 30000, profile{invalid: true, empty: true, aggDefault: true, maxClauses: 2})
	}
	// M11: views.
	checks["M11"] = func(r *hz.Run) {
		r.Rule(ruleSeq)
		seq(r, "history", 4000, 80000, profile{maxClauses: 4, aggDefault: true, conflicts: true})
		seq(r, "history-dup", 3000, 60000, profile{maxClauses: 3, aggDefault: true, conflicts: true, dupInst: true})
		seq(r, "history-all", 600, 20000, everything)
	}
	// M12: instrument identity.
	checks["M12"] = func(r *hz.Run) {
		r.Rule("the same and conflicting instruments are created by several goroutines and used through every handle; metrics, totals, descriptions and reported conflicts are compared with what was created; distinct = distinct variant sets | " + ruleSeq)
		conc(r, "create", 3000, 40000, createConc)
		seq(r, "history", 3000, 60000, profile{conflicts: true, dupInst: true})
		seq(r, "history-views", 3000, 60000, profile{maxClauses: 2, conflicts: true, dupInst: true, hints: true})
	}
	// M13: hints.
	checks["M13"] = func(r *hz.Run) {
		r.Rule(ruleSeq)
		seq(r, "history", 4000, 80000, profile{hints: true, conflicts: true})
		seq(r, "history-views", 4000, 80000, profile{hints: true, maxClauses: 2, aggDefault: true, conflicts: true, dupInst: true})
		if !r.Race() {
			r.Cases("limits", r.N(4000, 80000), limitSeq)
		}
	}
	// M14: readers do not influence each other.
	checks["M14"] = func(r *hz.Run) {
		r.Rule("one history drives a provider with a single reader and a provider with additional readers collecting at random times; the first reader's output must be the same; distinct = distinct outputs | " + ruleConc)
		if !r.Race() {
			r.Cases("independence", r.N(3000, 60000), independence)
		}
		conc(r, "sum", 500, 10000, sums)
		conc(r, "hist", 300, 6000, hists)
		conc(r, "async-views", 300, 6000, func(c *hz.Case) { asyncConc(c, 2) })
		seq(r, "history", 1500, 30000, profile{maxReaders: 4, maxClauses: 2, aggDefault: true})
	}
	// M15: provider lifecycle; M16: periodic reader.
	checks["M15"] = func(r *hz.Run) {
		r.Rule("flushes, shutdowns and measurements run concurrently on a provider with recording push exporters; the exporter call log is checked; distinct = distinct (readers, calls, failures, totals)")
		conc(r, "lifecycle", 3000, 40000, func(c *hz.Case) { lifecycle(c, false) })
		conc(r, "periodic", 1200, 20000, func(c *hz.Case) { lifecycle(c, true) })
		conc(r, "deadline", 60, 1000, flushContext)
		conc(r, "stuck", 300, 6000, stuckExport)
	}
	checks["M16"] = func(r *hz.Run) {
		r.Rule("periodic readers with very short intervals drive recording push exporters that fail, block until their deadline or are slow, during flushes and shutdowns; the exporter call log is checked; distinct = distinct (readers, calls, failures, totals)")
		conc(r, "periodic", 3000, 40000, func(c *hz.Case) { lifecycle(c, true) })
		conc(r, "lifecycle", 600, 10000, func(c *hz.Case) { lifecycle(c, false) })
		r.Cases("defaults", r.N(12, 60), readerDefaults)
		conc(r, "steady", 60, 600, steadyInterval)
		conc(r, "stuck", 300, 6000, stuckExport)
	}
	// M17: memory re-use.
	checks["M17"] = func(r *hz.Run) {
		r.Rule("twin providers run one history, one re-using output memory; outputs are compared and outputs obtained without re-use must never change; distinct = distinct outputs")
		if !r.Race() {
			r.Cases("twins", r.N(3000, 60000), reuseTwins)
		}
		conc(r, "reuse-conc", 60, 2000, reuseConc)
		seq(r, "history", 1000, 20000, profile{maxClauses: 2})
	}
	// M18: no data race, crash or hang.
	checks["M18"] = func(r *hz.Run) {
		r.Rule("every public operation of the SDK runs concurrently with every other; distinct = distinct collected states")
		conc(r, "chaos", 900, 20000, chaos)
		conc(r, "create", 600, 10000, createConc)
		conc(r, "lifecycle", 200, 4000, func(c *hz.Case) { lifecycle(c, true) })
		conc(r, "callback", 200, 4000, callbackConc)
		conc(r, "async-shared", 200, 4000, asyncShared)
		conc(r, "async-fan", 200, 4000, asyncFan)
		conc(r, "reuse", 40, 400, reuseConc)
		conc(r, "gauge", 200, 4000, func(c *hz.Case) { gaugeConc(c, true, false) })
		conc(r, "hist", 100, 4000, hists)
		conc(r, "limit", 200, 4000, limitConc)
	}
}
