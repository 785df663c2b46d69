"""Properties L01-: the launcher, its pipelines and the built-in instrumentation."""
import core
PROPS = []
L = "launcher/config.go"
PM = "pipelines/metrics.go"
PT = "pipelines/trace.go"
PC = "pipelines/common.go"
I = "lightstep/instrumentation/"


def P(*a, **k):
    core.P(*a, **k)
    PROPS.append(core.PROPS.pop())


P("L01", "Code overrides environment overrides default, for every setting, alone",
  "Each launcher setting takes the value of the last option given in code, else of its environment variable, else its documented default, independently of every other setting and of the order of options. "
  "The effective endpoint, transport security, headers and access token, service name and version, log level, propagators, reporting period, temporality preference, metrics switch and built-in libraries are what is seen on the wire and in the process, for both signals. "
  "Headers from several sources are merged key by key, and the caller's maps are not modified.",
  ["configurations"], "all combinations of sources for all settings",
  "Tests set a few settings at a time and inspect the configuration, not what it does.",
  [L, PM, PT, PC], [("configuration and options", L), ("metrics pipeline", PM), ("trace pipeline", PT)],
  "what loopback endpoints receive compared with an independent model of precedence")
P("L02", "Every invalid configuration is reported, every valid one accepted",
  "A missing service name, a missing access token for the default endpoint, an unparsable environment value, a bad reporting period, temporality preference or list of propagators each produce exactly one fatal message naming that mistake; a valid configuration produces none. "
  "A mistake in one signal's settings does not stop the other signal, and a bad environment value that code overrides is no mistake.",
  ["configurations", "inputs"], "all configurations with one mistake or none, from every source",
  "Tests try one example of some mistakes.",
  [L, PM, PT], [("validation", L), ("reporting period and temporality", PM), ("propagators", PT)],
  "messages and arrivals compared with the mistake that was planted in the configuration")
P("L03", "Spans and metrics carry the same, correctly merged resource",
  "All spans and metrics of a launcher arrive with one and the same resource: environment attributes, overridden by the launcher's own telemetry attributes and the configured service name and version, overridden by the attributes given in code, with empty ones ignored, and the host name added only when no source set one. "
  "Every request of both signals carries the configured headers.",
  ["configurations", "inputs"], "all resource attributes from all sources, with overlaps, empty values and escaped characters",
  "Tests compare the configuration's resource for a few inputs, not what arrives.",
  [L, PM, PT, "lightstep/sdk/internal/common.go"], [("resource construction", L), ("resource export", "lightstep/sdk/internal/common.go")],
  "resources received at a loopback endpoint compared with an independent merge of the sources")
P("L04", "The temporality preference decides the temporality of every instrument kind",
  "Under every preference, in any letter case, each instrument kind is exported with its documented temporality: up-down counters always cumulative, counters and histograms delta under delta, lowmemory and stateless, observable counters delta under delta only. "
  "The exported values are the corresponding deltas or running totals over any number of collections, ended by Shutdown.",
  ["configurations", "histories"], "all preferences, instrument kinds, number types and sequences of collections",
  "Tests check the selector's answer for some kinds.",
  [PM, "lightstep/sdk/metric/view/views.go"], [("preference to temporality", PM)],
  "received points compared with a model over several collections")
P("L05", "Propagators are exactly the configured ones, in the configured order",
  "The global propagator injects and extracts exactly the configured formats in the configured order, ignoring unsupported names, and reports their fields. "
  "A span started from an extracted context belongs to the remote trace, names the remote parent, and is exported whether or not the parent was sampled.",
  ["configurations", "inputs"], "all lists of formats, and all span contexts, baggage and mixtures of headers",
  "Tests inject one context per format.",
  [PT, L], [("propagator configuration", PT)],
  "differential monitoring against a reference composite of the configured formats")
P("L06", "Disabled signals stay silent; Shutdown delivers everything and ends both",
  "A signal that is disabled, or has an empty endpoint, sends nothing and is no error, and the other works as configured. "
  "When Shutdown returns, every span ended and every measurement made before it has been delivered exactly once to its endpoint, even when the other signal's endpoint fails, and nothing is sent afterwards. "
  "Metrics are sent every reporting period without a flush.",
  ["configurations", "schedules", "histories"], "all combinations of enabled signals and all concurrent workloads before Shutdown, up to the span queue's capacity",
  "Tests shut down with one span or none.",
  [L, PM, PT, "lightstep/sdk/metric/periodic.go"], [("setup and Shutdown", L), ("pipelines", PM)],
  "conservation of spans and measurements between the process and loopback endpoints")
P("L07", "Pipelines made directly honour every field of their configuration",
  "A trace or metrics pipeline made from a pipeline configuration sends what was recorded, once, to its endpoint, with its headers and resource, over exactly the transport the configuration asks for: in the clear, or by TLS to servers that the configured authority, server name and verification switch accept, presenting the configured client certificate; nothing reaches any other server. "
  "An invalid reporting period, temporality preference, list of propagators or TLS setting returns an error, changes no global provider or propagator, and leaves nothing running. "
  "Each pipeline sets only its own signal's global provider, and the function it returns delivers what was recorded before it.",
  ["configurations", "inputs"], "all pipeline configurations and server identities",
  "Tests make one secure and one insecure pipeline of each signal.",
  ["pipelines/common.go", PM, PT], [("transport options", "pipelines/common.go"), ("pipelines", PM)],
  "what loopback servers with different certificates receive, the global providers, and the goroutines left after a refusal")
P("L08", "What was obtained from the global API before configuration works after it",
  "Tracers, meters, instruments, callback registrations and the propagator that an application obtained from the global OpenTelemetry API before it configured OpenTelemetry work after that like those obtained later: a handle obtained early and one obtained late for the same scope and instrument feed one stream, every span and measurement made after the configuration is exported once, callbacks registered early are run, and callbacks unregistered, early or late, are not. "
  "What was measured before the configuration is not exported.",
  ["programs", "configurations"], "all orders of obtaining, registering, unregistering and using handles before and after configuration",
  "Tests configure OpenTelemetry first, once per process, and record little; the global API delegates only once per process.",
  [L, PM, PT, "lightstep/sdk/metric/meter.go", "lightstep/sdk/metric/internal/asyncstate/callback.go"], [("configuration", L), ("callbacks", "lightstep/sdk/metric/internal/asyncstate/callback.go")],
  "an exact model of what each child application recorded, against what a loopback server received from it")
P("I01", "Runtime metrics report the Go runtime's own numbers once each",
  "Every scalar runtime metric other than subtotals and debug settings is exported as exactly one series, under its documented name, unit, kind (monotonic exactly if the runtime's is cumulative) and class attributes. "
  "Each collection reports the runtime's values at that collection, not older ones, and one consistent reading of them, so memory classes add up to the runtime's total, also when several readers collect at once.",
  ["schedules", "histories"], "all moments of a running program and all schedules of concurrent readers",
  "Tests use a fake list of metrics and one reader.",
  [I + "runtime/builtin.go", I + "runtime/descriptor.go", I + "runtime/defs.go"], [("registration and callback", I + "runtime/builtin.go"), ("naming", I + "runtime/descriptor.go")],
  "values bracketed by readings of runtime/metrics before and after each collection")
P("I02", "Process CPU time and uptime metrics report the process's true times",
  "Each collection reports the user and system CPU time the process has consumed at that moment, each under its own state and in seconds, and an uptime that advances with the clock from the process's start, to every reader, also when several collect at once.",
  ["schedules", "histories"], "all moments of a running program and all schedules of concurrent readers",
  "Tests allow large tolerances and one reader.",
  [I + "cputime/cputime.go", I + "cputime/cputime_unix.go"], [("process times", I + "cputime/cputime_unix.go")],
  "values bracketed by getrusage and the clock before and after each collection")
P("I03", "Host metrics report the host's true counters, each unit of time once",
  "Each collection reports the host's CPU time by state (every tick in exactly one state, in seconds), memory usage and utilization by state, and network bytes by direction summed over interfaces, exactly as the operating system states them at that moment, to every reader. "
  "When a source cannot be read nothing false is reported, and values are right again once it can be.",
  ["inputs", "schedules", "fault_sequences"], "all host counter values and changes between collections, with concurrent readers",
  "Tests run on one machine whose guest, steal and network counters are what they are.",
  [I + "host/host.go"], [("host callback", I + "host/host.go")],
  "exported values compared with a generated proc directory that the operating-system library reads")
