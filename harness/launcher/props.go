package main

import "github.com/lightstep/otel-launcher-go/zzverif/hz"

func init() {
	checks["L01"] = func(r *hz.Run) {
		r.Rule("each setting comes from the default, the environment, one or two options or both, independently; endpoints, headers, resource, temporality, builtins, period, propagators, transport security and logging show the effective value; distinct = distinct configurations")
		r.Cases("precedence", r.N(1200, 20000), precedence())
		r.Cases("transport", r.N(48, 200), transport)
		r.Cases("distrust", r.N(24, 200), distrust())
	}
	checks["L02"] = func(r *hz.Run) {
		r.Rule("configurations with one mistake or none, given through the environment or options; the messages, and whether the other signal works, are checked; distinct = distinct configurations")
		r.Cases("validation", r.N(2500, 20000), validation())
		r.Cases("several", r.N(400, 4000), severals())
		r.Cases("application", r.N(96, 1000), applications())
	}
	checks["L03"] = func(r *hz.Run) {
		r.Rule("resource attributes and headers from every source; the resource received with spans and with metrics is compared with the merge of the sources; distinct = distinct resources")
		r.Cases("resource", r.N(2500, 20000), resourceCase())
	}
	checks["L04"] = func(r *hz.Run) {
		r.Rule("instruments of every kind and number type are measured over several flushes under every preference; kind, monotonicity, temporality and value of each received point are compared with the model; distinct = distinct (preference, instruments, rounds)")
		r.Cases("temporality", r.N(2500, 20000), temporality())
	}
	checks["L05"] = func(r *hz.Run) {
		r.Rule("formats in every order with unsupported names mixed in; contexts injected and extracted by the global propagator are compared with a reference of the same formats; distinct = distinct contexts")
		r.Cases("propagators", r.N(2500, 20000), propagators())
	}
	checks["L06"] = func(r *hz.Run) {
		r.Rule("signals enabled and disabled in every way; goroutines end spans and record until Shutdown; everything recorded before must have arrived once when it returns and nothing after; distinct = distinct (configuration, requests)")
		f := signals()
		if r.Race() {
			r.Concurrent("signals", r.N(60, 1000), f)
		} else {
			r.Cases("signals", r.N(1500, 20000), f)
		}
	}
	checks["L08"] = func(r *hz.Run) {
		r.Rule("child processes run random programs that create tracers, instruments and callbacks before and after configuring OpenTelemetry and use them afterwards; what arrives is compared with what was recorded; distinct = distinct programs")
		r.Cases("early", r.N(500, 6000), earlyUse())
	}
	checks["L07"] = func(r *hz.Run) {
		r.Rule("pipelines made directly from random configurations, with servers in the clear, of the system's and of a private authority, and asking for client certificates; what arrives where, with which headers and resource, what is refused, and what refused configurations leave behind; distinct = distinct configurations")
		r.Cases("refused", r.N(300, 3000), refusedCase())
		r.Cases("pipelines", r.N(900, 10000), pipelineCase())
	}
}
