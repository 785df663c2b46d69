"""Properties E01-: the exporters."""
import core
PROPS = []
OC = "lightstep/sdk/metric/exporters/otlp/otelcol/"
TC = "lightstep/sdk/trace/exporters/otlp/otelcol/"
X = "lightstep/sdk/metric/internal/export/export.go"


def P(*a, **k):
    core.P(*a, **k)
    PROPS.append(core.PROPS.pop())


P("E01", "OTLP metric export delivers every collected point once and unaltered",
  "A successful OTLP export of a collection has delivered to the endpoint exactly the collected points, none lost, duplicated or invented, however large the collection and however many exports overlap. "
  "Each received point carries the collected resource, scope, metric name, unit, description, kind, monotonicity, temporality, times, attributes of every type and values (integers as integers, distributions with count, sum, extrema, scale and buckets). "
  "Exporting does not modify the collection.",
  ["inputs", "histories", "configurations"], "all collections: all attribute types, value ranges, aggregations, sizes (including those split over several requests) and resources, exported sequentially or concurrently",
  "Tests export a few fixed metrics with string and int attributes.",
  [X, OC + "client.go", "lightstep/sdk/internal/common.go", "lightstep/sdk/metric/number/number.go"],
  [("conversion of collected data", X), ("attribute conversion and resource caching", "lightstep/sdk/internal/common.go")],
  "OTLP requests received by a loopback endpoint compared with the data handed to the exporter")
P("E02", "OTLP trace export delivers every ended span once, unaltered, in its context",
  "A successful OTLP export of a batch of spans has delivered exactly those spans, each once, however large the batch, however resources and instrumentation scopes alternate in it and however many exports overlap. "
  "Each received span carries its own resource and scope (name, version, schema), identifiers, parent, trace state, name, kind, times, status, attributes of every type, events and links in order, and dropped counts. "
  "Exporting does not modify the spans.",
  ["inputs", "histories", "schedules"], "all batches of spans and all mixes of resources and scopes, exported by one or several exporters at once or through tracer providers",
  "Tests export a few spans of one tracer.",
  [TC + "otlp.go", TC + "client.go", "lightstep/sdk/internal/common.go"],
  [("conversion of spans", TC + "otlp.go"), ("attribute conversion and resource caching", "lightstep/sdk/internal/common.go")],
  "OTLP requests received by a loopback endpoint compared with the spans handed to the exporter")
P("E03", "The Prometheus exporter serves exactly what was measured",
  "A scrape of the Prometheus endpoint after a collection shows one series per collected attribute set, with the collected value, type and sanitized name and labels; counters and gauges equal the collected numbers. "
  "A histogram's sum and count equal the measurements', and each bucket counts every measurement at or below its bound and none above it up to the histogram's resolution, for every scale, sign and magnitude. "
  "Scrapes concurrent with exports never see a torn or decreasing cumulative series, and the endpoint stops being served after Shutdown.",
  ["inputs", "schedules"], "all instruments, attribute sets, values of either sign and any magnitude, with scrapes before, after and during exports",
  "Tests scrape a few fixed series with positive histogram values of one scale.",
  [X, "lightstep/sdk/metric/exporters/prom/client.go"],
  [("conversion of exponential histograms to explicit buckets", X), ("registry and server", "lightstep/sdk/metric/exporters/prom/client.go")],
  "scraped text compared with the recorded measurements and with bucket counts recomputed from them")
P("E04", "Exporters report each export's outcome and their own telemetry truthfully",
  "An export returns nil exactly when the endpoint accepted all of it, and an error when the endpoint rejected it, the deadline passed or the context was canceled; it returns by its deadline. "
  "The exporter's own counters account for every item exactly once as a success or a failure, matching the returned results, and its own span around an export ends with the same outcome. "
  "Self-telemetry that is disabled is not produced, and enabled self-telemetry appears under the SDK's own (otelsdk) names only.",
  ["histories", "fault_sequences", "schedules"], "all mixes of accepting, rejecting, delaying and blocking endpoints, deadlines and cancellations, with overlapping exports",
  "Tests have one endpoint that accepts everything.",
  [OC + "client.go", TC + "client.go", "lightstep/sdk/internal/common.go", "lightstep/sdk/metric/exporters/prom/client.go"],
  [("metric export self-telemetry", OC + "client.go"), ("trace export self-telemetry", TC + "client.go")],
  "results, arrivals at a fault-injecting endpoint and the exporter's own counters and spans reconciled against each other")
P("E05", "Exports across endpoint failures are never acknowledged falsely or repeated",
  "When the endpoint stops, restarts or fails at random, every export that returned success has arrived exactly once and every other at most once; exporting resumes when the endpoint returns, without a restart of the application. "
  "With a periodic reader, delta metrics lost to a failed export are the only ones missing, and cumulative totals recover in full. "
  "Flush and shutdown during an outage end by their deadline.",
  ["fault_sequences", "histories", "schedules"], "all patterns of endpoint failure and recovery around exports, flushes and shutdowns",
  "Tests never interrupt the endpoint.",
  [OC + "client.go", TC + "client.go"],
  [("metric client", OC + "client.go"), ("trace client", TC + "client.go")],
  "conservation of items across outages injected at a loopback endpoint")
P("E06", "Exporters made directly honour every option, each exporter by itself",
  "An OTLP exporter made from a list of options, in any order and with nil options among them, sends every export to the endpoint given last, with the union of all headers given (the last value for a key), with the compression given last (zstd when none is given; none for none or empty), over the transport given last. "
  "Exporters made side by side, of either signal, never share a setting, the caller's maps are neither modified nor looked at again, and a trace exporter that is given tracer and meter providers reports about itself to those and not to the global ones.",
  ["configurations", "inputs"], "all lists of options and all combinations of exporters in one process",
  "Tests make one exporter at a time with one of each option.",
  [OC + "client.go", TC + "client.go"], [("metrics options", OC + "client.go"), ("trace options", TC + "client.go")],
  "each loopback server's log of requests: signal, compression, headers and items, compared with what the options ask for")
