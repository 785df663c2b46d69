"""Properties M01-M19: the metrics SDK (lightstep/sdk/metric)."""
S = "lightstep/sdk/metric/internal/syncstate/sync.go"
A = "lightstep/sdk/metric/internal/asyncstate/async.go"
V = "lightstep/sdk/metric/internal/viewstate/"
AG = "lightstep/sdk/metric/aggregator/"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe="the data.Metrics produced by a reader's collection"):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=None)))


P("M01", "Synchronous sum measurements are counted exactly once",
  "Every accepted measurement made on a synchronous counter or up-down counter is included exactly once in what each reader collects: in exactly one delta collection, or in every cumulative collection that begins after the measurement returned. "
  "This holds for every attribute set, however measurements, collections by any number of readers, provider flushes and the reclamation of idle attribute sets interleave. "
  "A collection never contains a measurement that had not begun when the collection ended, and cumulative sums of monotonic counters never decrease.",
  ["schedules", "histories", "configurations"], "all interleavings of recording goroutines, collections and reclamation; all reader/view configurations",
  "The unit tests run a handful of fixed concurrent loops and compare only the final totals; lost or doubled updates appear only when a record is reclaimed, snapshotted or merged at a particular instant.",
  [S, V + "accumulators.go", V + "collectors.go", AG + "sum/sum.go"],
  [("lock-free record acquisition, reference counts and unmapping", S), ("snapshot-and-reset of current state", V + "accumulators.go"), ("delta/cumulative merge", V + "collectors.go")])
P("M02", "Histogram and min-max-sum-count points summarize exactly what was measured",
  "For every collected distribution point, the count, sum, minimum and maximum are those of exactly the accepted measurements the point covers, and bucket plus zero counts add up to the count. "
  "Every measured value is counted in the histogram bucket whose boundaries, at the reported scale, contain it; the number of buckets never exceeds the configured maximum size and the scale is as fine as that size permits. "
  "Each measurement is covered exactly once per reader, under any interleaving of measurements and collections.",
  ["inputs", "schedules", "histories"], "all values (including zero, subnormal and extreme ones), sizes, merges and interleavings",
  "Tests check a few fixed value lists on single-threaded aggregators; the merge, downscale and concurrent snapshot paths depend on value ranges and timing.",
  [AG + "histogram/histogram.go", AG + "minmaxsumcount/minmaxsumcount.go", V + "accumulators.go"],
  [("histogram update/merge/move", AG + "histogram/histogram.go"), ("min-max-sum-count update/merge/move", AG + "minmaxsumcount/minmaxsumcount.go")])
P("M03", "Temporality is as configured and time ranges are contiguous",
  "Every collected point carries the temporality its reader is configured to use for that instrument kind and view, with its start never after its end. "
  "Successive delta collections by one reader cover adjacent, non-overlapping intervals that tile the time since the reader began; cumulative points keep the provider's start time and their end never goes backwards. "
  "All points of one collection share one end time, which lies within that collection call.",
  ["histories", "schedules", "configurations"], "all sequences of collections by all readers with all temporality configurations, concurrent with recording",
  "Tests use one or two collections with fixed configurations; gaps and overlaps depend on which reader collected when.",
  ["lightstep/sdk/metric/producer.go", V + "collectors.go", "lightstep/sdk/metric/provider.go"],
  [("sequence of collection times per reader", "lightstep/sdk/metric/producer.go"), ("point start/end/temporality", V + "collectors.go")])
P("M04", "A synchronous gauge reports the last value recorded",
  "The value collected for a synchronous gauge's attribute set is that of a measurement that could be the last one recorded for that set before the collection: never an overwritten older value, an invented zero or a value of another set. "
  "Where a view merges attribute sets, the reported value is the most recently recorded one over all merged sets. "
  "A delta reader reports only sets recorded since its previous collection; a cumulative reader keeps reporting the last value.",
  ["schedules", "histories"], "all interleavings of recording goroutines and collecting readers, all attribute filters",
  "Last-value order between concurrent recorders and merged sets is a linearizability question; tests are sequential with one set.",
  [AG + "gauge/gauge.go", S, V + "accumulators.go"],
  [("sequence-numbered last value", AG + "gauge/gauge.go"), ("merge by sequence", AG + "gauge/gauge.go")])
P("M05", "Asynchronous points are exactly what callbacks observed in that collection",
  "A collection's points for an asynchronous instrument are exactly the attribute sets observed by the callbacks run for that collection, each with the last value observed for the set (summed where a view merges several sets of a counter). "
  "A cumulative reader reports the observed value; a delta reader reports the difference from its own previous observation of that set. "
  "Concurrent collections by other readers or with other observations never leak values into it.",
  ["histories", "schedules", "configurations"], "all histories of observations and collections by any number of readers, concurrently",
  "Tests use single readers and constant callbacks; state is kept per reader across collections and shared between concurrent collections.",
  [A, V + "accumulators.go", V + "collectors.go", "lightstep/sdk/metric/asyncinst.go"],
  [("per-reader asynchronous state", A), ("delta conversion by subtraction", V + "collectors.go")])
P("M06", "Registered callbacks run exactly once per collection, only while registered",
  "Each collection runs every callback that was registered before it began and stays registered exactly once, and runs no callback whose unregistration completed before the collection began. "
  "Observations made through an instrument the callback was not registered for, by a callback outside of a collection, or through an instrument of another provider have no effect. "
  "Registration and unregistration are safe at any time, concurrently with collections.",
  ["schedules", "histories"], "all interleavings of registration, unregistration and collection",
  "Tests register callbacks up front and collect from one goroutine.",
  [A, "lightstep/sdk/metric/meter.go", "lightstep/sdk/metric/producer.go"],
  [("callback registration and lookup", "lightstep/sdk/metric/meter.go"), ("callback execution with a scoped state", A)])
P("M07", "Measurements are grouped by attribute set, whatever the order or call path",
  "Two measurements of an instrument contribute to the same point exactly when their attribute sets are equal after de-duplication (the last value for a key wins), independent of argument order, duplicates, hash collisions, value types that print alike, or the API path used to pass them. "
  "Attributes removed by a view's key filter do not distinguish points. "
  "The caller's attribute slices are never modified nor retained.",
  ["inputs", "histories"], "all lists of attributes of all value types, via every measurement option and callback path",
  "Tests use a few string and int attributes; fingerprint collisions and slice aliasing need adversarial inputs.",
  [S, A, "lightstep/sdk/metric/internal/viewstate/viewstate.go"],
  [("attribute fingerprinting and comparison on collision", S), ("attribute filter of a view", V + "viewstate.go")])
P("M08", "Cardinality limits bound output without losing measurements",
  "A collection never yields more points per metric than the configured aggregator cardinality limit, and an instrument never tracks more attribute sets at once than its instrument limit. "
  "Measurements beyond a limit are combined under the single designated overflow attribute set, while sets already tracked keep reporting under their own identity, so sums and counts are conserved. "
  "Below the limit no overflow set appears.",
  ["histories", "schedules", "configurations"], "all sequences and interleavings of new attribute sets, collections and limits",
  "Tests fill one limit sequentially; the bound must hold when several goroutines insert at the boundary and when slots are being given back.",
  [S, V + "accumulators.go", "lightstep/sdk/metric/sdkinstrument/performance.go"],
  [("instrument limit at insertion", S), ("aggregator limit when mapping to output", V + "viewstate.go")])
P("M09", "Idle attribute sets are reclaimed and can come back",
  "An attribute set not measured for the configured number of collections gives back its slot and memory, so an application that keeps using new attribute sets, never more than the limits at once, runs indefinitely without overflow or growth for delta readers. "
  "Reclaiming a set never loses or duplicates a measurement, and a set that returns after being reclaimed is counted under its own identity.",
  ["histories", "schedules"], "all histories of sets going idle and returning, concurrent with collections",
  "It is a property of long histories; tests make a few collections.",
  [S, V + "accumulators.go", V + "collectors.go"],
  [("inactivity counting and unmapping", S), ("output reference counting", V + "accumulators.go")])
P("M10", "Invalid input never corrupts data",
  "Measurements that are not valid for their instrument (NaN and infinite values, negative increments of monotonic instruments) are dropped and change no collected data, while valid measurements around them still count. "
  "Oversized attribute keys and string values are cut to the configured size before they identify a point, and a configured measurement processor decides each synchronous measurement's attributes. "
  "No input makes the SDK panic.",
  ["inputs", "configurations"], "all numeric values, attribute lists and limit configurations",
  "Tests cover a handful of invalid values on single instruments.",
  [AG + "aggregator.go", S, "lightstep/sdk/metric/sdkinstrument/performance.go"],
  [("range test", AG + "aggregator.go"), ("attribute size limits", S)])
P("M11", "Views decide each metric's name, aggregation, attributes and presence",
  "For each reader, an instrument yields exactly one metric per matching view (or one default metric when none matches), with the view's name, description, aggregation, temporality and retained attribute keys, and nothing where the aggregation is drop; what the view leaves unset is as the reader's defaults or the instrument's hint say. "
  "Every measurement contributes once to each of those metrics, even when several views have the same effect, and two differently named views of one instrument never affect each other.",
  ["configurations", "histories"], "all combinations of view clauses, defaults, instruments and readers",
  "Tests enumerate about thirty fixed view configurations with one or two instruments.",
  [V + "viewstate.go", "lightstep/sdk/metric/view/views.go", "lightstep/sdk/metric/view/clause.go"],
  [("view matching and instrument compilation", V + "viewstate.go"), ("clause matching", "lightstep/sdk/metric/view/clause.go")])
P("M12", "Equal instruments share one metric; conflicting ones are reported, not merged",
  "Creating an instrument again with an equal definition in the same scope, from any goroutine, yields the same metric: all handles contribute to one stream, and no stream is emitted twice. "
  "Definitions of one name that conflict in kind, number type, unit or aggregation are reported as a conflict to the caller and still collected separately; scopes differing in name, version or schema never share data.",
  ["schedules", "configurations", "histories"], "all orders and interleavings of instrument creation across scopes",
  "Tests create pairs of instruments sequentially.",
  ["lightstep/sdk/metric/meter.go", "lightstep/sdk/metric/provider.go", V + "viewstate.go", V + "errors.go"],
  [("meter and instrument lookup", "lightstep/sdk/metric/meter.go"), ("duplicate detection and conflict errors", V + "viewstate.go")])
P("M13", "Instrument hints change exactly what they say",
  "A valid hint embedded in an instrument's description replaces the description and sets the aggregation, aggregator configuration and temporality it names, for every reader, wherever a matching view does not itself set them. "
  "A field the hint leaves out, or an unusable hint, changes nothing; an aggregation set explicitly by a view wins over the hint.",
  ["inputs", "configurations"], "all hint contents combined with all view and default configurations",
  "Tests cover a few hints without views.",
  ["lightstep/sdk/metric/view/hint.go", V + "viewstate.go", "lightstep/sdk/metric/aggregator/aggregator.go"],
  [("hint parsing and application", V + "viewstate.go")])
P("M14", "Readers of one provider are independent",
  "What one reader collects depends only on the measurements made and its own collection history: adding other readers, or their collecting, flushing or using other views at any time, changes nothing in its output.",
  ["schedules", "histories", "configurations"], "all sets of readers, configurations and interleavings of their collections",
  "Tests use at most two readers in lock step.",
  ["lightstep/sdk/metric/producer.go", S, V + "viewstate.go"],
  [("per-pipeline state", V + "viewstate.go"), ("shared records with per-reader accumulators", S)])
P("M15", "Provider flush and shutdown deliver all data once and end cleanly",
  "A successful provider flush has exported, on every reader, all measurements that returned before it; the first shutdown makes one final export of everything still unreported and shuts every exporter down exactly once. "
  "An export in progress is waited for by a flush and canceled by a shutdown, and nothing is collected for an export already canceled. After shutdown nothing is collected or exported, instruments and meters stay safe to use with no effect, and a later shutdown reports that it already happened. "
  "Errors of one reader are returned and do not keep the others from being flushed or shut down.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of measurement, flush and shutdown calls with any exporter failures",
  "Tests call shutdown once from one goroutine with a mock.",
  ["lightstep/sdk/metric/provider.go", "lightstep/sdk/metric/periodic.go", "lightstep/sdk/metric/manual.go"],
  [("provider shutdown/flush fan-out", "lightstep/sdk/metric/provider.go"), ("reader shutdown", "lightstep/sdk/metric/periodic.go")],
  "calls received by push exporters and errors returned to the application")
P("M16", "Periodic readers export every interval without overlap and survive failures",
  "A periodic reader keeps exporting at its configured interval with its configured timeout as deadline until shut down, whatever the exporter returns; failures are reported to the global error handler and the next interval is exported as usual. "
  "Exports of one reader never overlap, and between them all measurements are delivered exactly once. "
  "Non-positive or missing interval and timeout settings fall back to the defaults.",
  ["schedules", "fault_sequences"], "all interleavings of ticks, flushes and shutdown with failing, slow or blocking exporters",
  "Tests drive a mock clock with a well-behaved exporter.",
  ["lightstep/sdk/metric/periodic.go"], [("ticker loop and export lock", "lightstep/sdk/metric/periodic.go")],
  "calls received by push exporters, their contexts, and the global error handler")
P("M17", "Re-using collection memory never changes what is reported",
  "Passing a previous result to be re-used by a collection yields the same data as collecting into fresh memory, with no stale scopes, instruments, points or values, for any shape of the previous result. "
  "Results obtained without re-use are never changed by later measurements or collections.",
  ["histories", "schedules"], "all histories of shapes of collected data and of re-use",
  "Tests collect the same shape twice.",
  ["lightstep/sdk/metric/producer.go", V + "collectors.go", "lightstep/sdk/metric/data/data.go"],
  [("slice re-use", "lightstep/sdk/metric/data/data.go"), ("aggregation re-use in appended points", V + "collectors.go")])
P("M18", "The metrics SDK has no data race, crash or deadlock under concurrent use",
  "Any mix of concurrent calls to the public metrics API (creating meters and instruments, measuring, registering and unregistering callbacks, collecting, flushing, shutting down) runs without data race, panic, deadlock or livelock.",
  ["schedules", "programs"], "all interleavings of all public operations",
  "Tests are not run under the race detector with mixed operations.",
  ["lightstep/sdk/metric/", S, A, V + "viewstate.go"],
  [("locks and atomics of the SDK", "lightstep/sdk/metric/")],
  "race detector reports, panics, and completion of every operation within a watchdog limit")
P("M19", "Detected misuse is reported, has no other effect, and never floods the handler",
  "Every misuse the metrics SDK detects reaches the global OpenTelemetry error handler (and, for conflicting definitions, also the caller), and the rest of the program is unaffected: a reader given to a second provider, inconsistent view settings (reported once; the nearest consistent setting is used), unusable instrument hints, conflicting instrument definitions, observations made outside a callback, of undeclared or of foreign instruments. Correct use reports nothing. Repeated invalid measurements (NaN, infinities, negative increments, empty attribute keys) are each reported at least once and then at most once per half minute and kind, however many goroutines make them.",
  ["programs", "schedules", "inputs"], "all programs that misuse the API, any number of goroutines making invalid measurements at once",
  "Existing tests check single messages one at a time; none counts reports under concurrent invalid measurements or checks that correct use reports nothing.",
  ["lightstep/sdk/metric/internal/doevery/", "lightstep/sdk/metric/provider.go", "lightstep/sdk/metric/aggregator/", "lightstep/sdk/metric/view/", A],
  [("one report per period and call site", "lightstep/sdk/metric/internal/doevery/doevery.go")],
  "every report reaching the global error handler, counted per kind against the number of misuses made, and the collected data against the model")
