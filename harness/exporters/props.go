package main

import "github.com/lightstep/otel-launcher-go/zzverif/hz"

func init() {
	checks["E01"] = func(r *hz.Run) {
		r.Rule("random instruments, attributes, resources and values are collected and exported over loopback OTLP/gRPC by the real exporter; the multiset of received points must equal what was handed to it; distinct = distinct point encodings")
		f, g := metricFidelity(), directFidelity()
		if r.Race() {
			r.Concurrent("metrics", r.N(100, 2000), f)
			r.Concurrent("direct", r.N(30, 500), g)
		} else {
			r.Cases("metrics", r.N(1500, 30000), f)
			r.Cases("direct", r.N(300, 20000), g)
		}
	}
}

func init() {
	checks["E02"] = func(r *hz.Run) {
		r.Rule("batches of spans of mixed resources, scopes and shapes go through one or several exporters at once to a loopback endpoint, and real tracer providers with real processors export concurrently ended spans; the multiset of received spans must equal what was handed over and the spans must not be modified; distinct = distinct spans")
		f, g := spanFidelity(), spanPipeline()
		if r.Race() {
			r.Concurrent("spans", r.N(150, 2000), f)
			r.Concurrent("pipeline", r.N(60, 500), g)
		} else {
			r.Cases("spans", r.N(1000, 30000), f)
			r.Cases("pipeline", r.N(300, 8000), g)
		}
	}
}

func init() {
	checks["E03"] = func(r *hz.Run) {
		r.Rule("instruments of every kind are measured and exported to the Prometheus exporter; after each export (and during exports) the endpoint is scraped over loopback HTTP and every series compared with the measurements, every bucket bound with the count of values below it; distinct = distinct (buckets, count, sum) or values")
		f := promFidelity()
		if r.Race() {
			r.Concurrent("scrape", r.N(60, 500), f)
		} else {
			r.Cases("scrape", r.N(800, 20000), f)
			r.Cases("shutdown", r.N(12, 100), promShutdown)
		}
	}
}

func init() {
	checks["E04"] = func(r *hz.Run) {
		r.Rule("an endpoint accepts, rejects with every kind of code, delays or blocks requests while exports run with and without deadlines and cancellation; results, arrived items and the exporter's own spans and counters are compared; distinct = distinct (signal, answer, context, size, outcome)")
		f := selfTelemetry()
		if r.Race() {
			r.Concurrent("self", r.N(100, 1000), f)
		} else {
			r.Cases("self", r.N(400, 8000), f)
		}
	}
	checks["E05"] = func(r *hz.Run) {
		r.Rule("the endpoint is stopped and restarted around exports, flushes and shutdowns, or fails at random under a periodic reader; exports that return nil must have arrived once, others at most once, and exporting must resume; distinct = distinct fault patterns and outcomes")
		f, g, h := outage(), pipelineFaults(), lostReplies()
		if r.Race() {
			r.Concurrent("outage", r.N(6, 100), f)
			r.Concurrent("faults", r.N(60, 1000), g)
		} else {
			r.Cases("lost-replies", r.N(200, 4000), h)
			r.Cases("outage", r.N(48, 1000), f)
			r.Cases("faults", r.N(400, 8000), g)
		}
	}
}

func init() {
	checks["E06"] = func(r *hz.Run) {
		r.Rule("exporters of both signals are made from random lists of options and used side by side; every server's log of requests (signal, compression, headers) and the items that arrived must be exactly what the options ask for; distinct = distinct request logs")
		r.Cases("options", r.N(1500, 20000), exporterOptions())
	}
}
