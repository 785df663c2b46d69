package main

import (
	"context"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/metric"
	"google.golang.org/grpc/metadata"
)

const tokenKey = "lightstep-access-token"

func joinMap(m map[string]string, sep string) string {
	var p []string
	for k, v := range m {
		p = append(p, k+sep+v)
	}
	sort.Strings(p)
	return strings.Join(p, ",")
}

func copyMap(m map[string]string) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

// headers chooses headers and the access token, and returns the effective ones.
func (k *conf) headers() map[string]string {
	r := k.r
	gen := func(tok bool) map[string]string {
		m := map[string]string{}
		for _, h := range []string{"x-a", "x-b", "x-c"} {
			if r.IntN(2) == 0 {
				m[h] = pickStr(r, "1", "two words", "v-"+fmt.Sprint(r.IntN(100)))
			}
		}
		if tok && r.IntN(3) == 0 {
			m[tokenKey] = "token" + fmt.Sprint(r.IntN(100))
		}
		return m
	}
	eff := map[string]string{}
	if r.IntN(2) == 0 {
		if m := gen(true); len(m) > 0 {
			k.setEnv("OTEL_EXPORTER_OTLP_HEADERS", joinMap(m, ":"))
			for a, b := range m {
				eff[a] = b
			}
		}
	}
	var os []launcher.Option
	var shown []string
	var given, kept []map[string]string
	for i, n := 0, r.IntN(3); i < n; i++ {
		if r.IntN(2) == 0 {
			t := "opttoken" + fmt.Sprint(r.IntN(100))
			os = append(os, launcher.WithAccessToken(t))
			eff[tokenKey] = t
			shown = append(shown, "token "+t)
		} else {
			m := gen(true)
			given, kept = append(given, m), append(kept, copyMap(m))
			os = append(os, launcher.WithHeaders(m))
			for a, b := range m {
				eff[a] = b
			}
			shown = append(shown, joinMap(m, "="))
		}
	}
	if len(os) > 0 {
		k.opt("Headers/Token", shown, os...)
	}
	if r.IntN(2) == 0 {
		t := "lstoken" + fmt.Sprint(r.IntN(100))
		k.setEnv("LS_ACCESS_TOKEN", t)
		if eff[tokenKey] == "" {
			eff[tokenKey] = t
		}
	}
	k.after = append(k.after, func() {
		if !reflect.DeepEqual(given, kept) && len(given) > 0 {
			k.bad("the maps given to WithHeaders were modified: %v, were %v", given, kept)
		}
	})
	return eff
}

func (k *conf) checkHeaders(what string, mds []metadata.MD, want map[string]string) {
	for _, md := range mds {
		k.c.Eval(1)
		for _, h := range []string{"x-a", "x-b", "x-c", tokenKey} {
			v := md.Get(h)
			w, ok := want[h]
			if ok != (len(v) > 0) || len(v) > 1 || (ok && v[0] != w) {
				k.bad("%s request carries header %s=%q, configured %q (set: %v)", what, h, v, w, ok)
				return
			}
		}
	}
}

var builtinScopes = map[string]string{"runtime": "otel-launcher-go/runtime", "cputime": "otel_launcher_go/cputime", "host": "otel_launcher_go/host"}

// precedence: every setting comes from the default, the environment, options
// or several of them at once, and what reaches the endpoints shows which won.
func precedence() func(c *hz.Case) {
	eps := append(newEndpoints(3), newCollectorWith(trusted), newCollectorWith(trusted))
	return func(c *hz.Case) {
		k := newConf(c)
		r := k.r
		eps.clear()
		spanAddrs, metAddrs := eps[:3].addrs(), eps[:3].addrs()
		if k.secured("OTEL_EXPORTER_OTLP_SPAN_INSECURE", launcher.WithSpanExporterInsecure) {
			spanAddrs = eps[3:].addrs()
		}
		if k.secured("OTEL_EXPORTER_OTLP_METRIC_INSECURE", launcher.WithMetricExporterInsecure) {
			metAddrs = eps[3:].addrs()
		}
		spanEP := setting(k, "SpanExporterEndpoint", "OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", ident, launcher.WithSpanExporterEndpoint, spanAddrs, "", true)
		metEP := setting(k, "MetricExporterEndpoint", "OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", ident, launcher.WithMetricExporterEndpoint, metAddrs, "", true)
		names := []string{"svc-a", "svc b", "svc/c"}
		svc := setting(k, "ServiceName", "LS_SERVICE_NAME", ident, launcher.WithServiceName, names, "", true)
		ver := setting(k, "ServiceVersion", "LS_SERVICE_VERSION", ident, launcher.WithServiceVersion, []string{"1.0", "2.0-rc", "v3"}, "unknown", false)
		level := setting(k, "LogLevel", "OTEL_LOG_LEVEL", ident, launcher.WithLogLevel, []string{"debug", "info", "warn"}, "info", false)
		pref := setting(k, "MetricExporterTemporalityPreference", "OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", ident,
			launcher.WithMetricExporterTemporalityPreference, []string{"cumulative", "delta", "Delta", "lowmemory", "stateless", "CUMULATIVE"}, "cumulative", false)
		enabled := setting(k, "MetricsEnabled", "LS_METRICS_ENABLED", func(b bool) string { return fmt.Sprint(b) }, launcher.WithMetricsEnabled, []bool{true, true, true, false}, true, false)
		builtin := setting(k, "MetricsBuiltinsEnabled", "LS_METRICS_BUILTINS_ENABLED", func(b bool) string { return fmt.Sprint(b) }, launcher.WithMetricsBuiltinsEnabled, []bool{true, false}, true, false)
		libs := setting(k, "MetricsBuiltinLibraries", "LS_METRICS_BUILTIN_LIBRARIES", func(s []string) string { return strings.Join(s, ",") }, launcher.WithMetricsBuiltinLibraries,
			[][]string{{"all"}, {"all:stable"}, {"runtime"}, {"cputime:stable"}, {"host"}, {"cputime", "runtime:stable"}, {"runtime:v9", "cputime"}, {"nope", "host:stable"}}, []string{"all:stable"}, false)
		props := setting(k, "Propagators", "OTEL_PROPAGATORS", func(s []string) string { return strings.Join(s, ",") }, launcher.WithPropagators,
			[][]string{{"b3"}, {"tracecontext"}, {"ottrace"}, {"baggage", "tracecontext"}, {"b3", "ottrace", "baggage"}}, []string{"b3"}, false)
		period := setting(k, "MetricReportingPeriod", "OTEL_EXPORTER_OTLP_METRIC_PERIOD", func(d time.Duration) string { return d.String() }, launcher.WithMetricReportingPeriod,
			[]time.Duration{50 * time.Millisecond, time.Hour, 2 * time.Hour}, 30*time.Second, false)
		hdr := k.headers()

		l := k.launch()
		for _, f := range k.after {
			f()
		}
		if !k.noFatal("configuration") {
			k.shutdown(l)
			return
		}
		c.Eval(1)
		if got := k.log.said("debug logging enabled"); got != (level == "debug") {
			k.bad("log level %q but debug logging is %v", level, got)
		}
		_, span := otel.Tracer("t").Start(context.Background(), "the-span")
		span.End()
		ctr, _ := otel.Meter("t").Int64Counter("the-counter")
		n := int64(1 + r.IntN(1000))
		ctr.Add(context.Background(), n)
		ud, _ := otel.Meter("t").Int64UpDownCounter("the-updown")
		ud.Add(context.Background(), -n)
		obs, _ := otel.Meter("t").Int64ObservableCounter("the-observable", metric.WithInt64Callback(func(_ context.Context, o metric.Int64Observer) error {
			o.Observe(n)
			return nil
		}))
		_ = obs
		// The reporting period.
		if enabled {
			mc := eps.at(metEP)
			seen := func() bool { mc.mu.Lock(); defer mc.mu.Unlock(); return len(mc.metrics) > 0 }
			c.Eval(1)
			if period < time.Second {
				deadline := time.Now().Add(20 * time.Second)
				for !seen() && time.Now().Before(deadline) {
					time.Sleep(2 * time.Millisecond)
					c.Tick()
				}
				if !seen() {
					k.bad("no metrics exported in 20 s with reporting period %v", period)
				}
			} else {
				if r.IntN(4) == 0 {
					time.Sleep(60 * time.Millisecond)
				}
				if seen() {
					k.bad("metrics exported without a flush although the reporting period is %v", period)
				}
			}
		}
		if !k.shutdown(l) {
			return
		}
		k.noFatal("shutdown")

		// Where did it go?
		c.Eval(2)
		for _, ep := range eps {
			a := ep.take()
			if len(a.traces) > 0 != (ep.addr == spanEP) {
				k.bad("span endpoint %s, spans arrived at %s: %v", spanEP, ep.addr, len(a.traces) > 0)
			}
			if len(a.metrics) > 0 != (enabled && ep.addr == metEP) {
				k.bad("metric endpoint %s (enabled %v), metrics arrived at %s: %v", metEP, enabled, ep.addr, len(a.metrics) > 0)
			}
			k.checkHeaders("OTLP", a.mds, hdr)
			if len(a.traces) > 0 {
				names, res := spansOf(a.traces)
				if len(names) != 1 || names["t/the-span"] != 1 {
					k.bad("received spans %v", names)
				}
				k.checkService("spans", res, svc, ver)
			}
			if len(a.metrics) > 0 {
				k.precMetrics(a, svc, ver, pref, n, builtin, libs)
			}
		}
		k.checkPropagators(props)
		if enabled && builtin {
			k.checkLibErrors(libs)
		}
		c.Distinct(k.desc)
	}
}

func (k *conf) checkService(what string, res mset, svc, ver string) {
	k.c.Eval(1)
	for s := range res {
		if !strings.Contains(","+s+",", fmt.Sprintf(",%q=s:%q,", "service.name", svc)) {
			k.bad("%s arrive without service.name %q: %s", what, svc, s)
		}
		if !strings.Contains(","+s+",", fmt.Sprintf(",%q=s:%q,", "service.version", ver)) {
			k.bad("%s arrive without service.version %q: %s", what, ver, s)
		}
	}
}

func (k *conf) precMetrics(a arrival, svc, ver, pref string, n int64, builtin bool, libs []string) {
	res, scopes := mset{}, map[string]bool{}
	var sum, ud, last int64
	var sawCtr, sawUD, sawObs bool
	pref = strings.ToLower(pref)
	wantSync := pref == "delta" || pref == "lowmemory" || pref == "stateless"
	wantAsync := pref == "delta"
	k.c.Eval(5)
	for _, p := range pointsOf(a.metrics) {
		res.add(p.res)
		scopes[p.scope] = true
		switch p.name {
		case "the-counter":
			sawCtr = true
			if p.delta != wantSync {
				k.bad("preference %q: counter arrives with delta=%v", pref, p.delta)
			}
			if p.delta {
				sum += p.i
			} else {
				sum = p.i
			}
		case "the-updown":
			sawUD = true
			if p.delta {
				k.bad("preference %q: up-down counter arrives as delta", pref)
			}
			ud = p.i
		case "the-observable":
			sawObs = true
			if p.delta != wantAsync {
				k.bad("preference %q: observable counter arrives with delta=%v", pref, p.delta)
			}
			if p.delta {
				last += p.i
			} else {
				last = p.i
			}
		}
	}
	if k.lossy() && wantSync {
		return
	}
	if !sawCtr || !sawUD || !sawObs || sum != n || ud != -n || last != n {
		k.bad("counter %d (seen %v), up-down %d (seen %v), observable %d (seen %v); recorded %d, %d, %d", sum, sawCtr, ud, sawUD, last, sawObs, n, -n, n)
	}
	k.checkService("metrics", res, svc, ver)
	want := map[string]bool{}
	if builtin {
		for _, lib := range libs {
			name, v, ok := strings.Cut(lib, ":")
			if ok && v != "stable" {
				continue
			}
			for b, s := range builtinScopes {
				if name == b || name == "all" {
					want[s] = true
				}
			}
		}
	}
	for _, s := range builtinScopes {
		k.c.Eval(1)
		if want[s] != scopes[s] {
			k.bad("builtins enabled %v, libraries %v: scope %s exported: %v", builtin, libs, s, scopes[s])
		}
	}
}

// checkLibErrors: every unknown builtin is reported, and nothing else.
func (k *conf) checkLibErrors(libs []string) {
	k.c.Eval(1)
	want := 0
	for _, l := range libs {
		if l == "runtime:v9" || l == "nope" {
			want++
		}
	}
	n := 0
	for _, e := range k.errors() {
		if strings.Contains(e, "unrecognized builtin") {
			n++
		}
	}
	if n != want {
		k.bad("libraries %v: %d errors about unknown builtins, want %d", libs, n, want)
	}
}

// resourceCase: the resource of both signals.
func resourceCase() func(c *hz.Case) {
	eps := newEndpoints(1)
	host, herr := os.Hostname()
	return func(c *hz.Case) {
		k := newConf(c)
		r := k.r
		eps.clear()
		k.opt("endpoints", eps[0].addr, launcher.WithSpanExporterEndpoint(eps[0].addr), launcher.WithMetricExporterEndpoint(eps[0].addr),
			launcher.WithSpanExporterInsecure(true), launcher.WithMetricExporterInsecure(true), launcher.WithMetricsBuiltinsEnabled(false))
		vals := []string{"x", "a b", "ünï", "k=v", "100%", "a,b", ""}
		want := map[string]string{}
		// The environment.
		if r.IntN(3) != 0 {
			var parts []string
			for _, key := range []string{"service.name", "host.name", "deployment.environment", "team", "region", "extra.key", "service.version", "telemetry.sdk.name", "telemetry.sdk.version", "telemetry.distro.name"} {
				if r.IntN(3) == 0 {
					v := vals[r.IntN(len(vals))]
					esc := strings.NewReplacer("%", "%25", ",", "%2C", "=", "%3D", " ", "%20", "ü", "%C3%BC", "ï", "%C3%AF").Replace(v)
					parts = append(parts, key+"="+esc)
					want[key] = v
				}
			}
			if len(parts) > 0 {
				k.setEnv("OTEL_RESOURCE_ATTRIBUTES", strings.Join(parts, ","))
			}
		}
		if r.IntN(3) == 0 {
			want["service.name"] = "otel-service"
			k.setEnv("OTEL_SERVICE_NAME", "otel-service")
		}
		// The launcher.
		must := want["service.name"] == ""
		if svc := setting(k, "ServiceName", "LS_SERVICE_NAME", ident, launcher.WithServiceName, []string{"svc-a", "svc b"}, "", must); svc != "" {
			want["service.name"] = svc
		}
		if r.IntN(5) == 0 { // no version at all
			k.opt("WithServiceVersion", "", launcher.WithServiceVersion(""))
		} else {
			want["service.version"] = setting(k, "ServiceVersion", "LS_SERVICE_VERSION", ident, launcher.WithServiceVersion, []string{"1.0", "2.0"}, "unknown", false)
		}
		want["telemetry.sdk.name"] = "launcher"
		want["telemetry.sdk.language"] = "go"
		want["telemetry.distro.name"] = "lightstep"
		delete(want, "telemetry.sdk.version")
		// Options: they have the last word.
		var given, kept map[string]string
		if r.IntN(3) != 0 {
			given = map[string]string{}
			for _, key := range []string{"host.name", "deployment.environment", "team", "custom", "region", "service.name", "service.version", "telemetry.sdk.name", "telemetry.sdk.version", "telemetry.distro.name"} {
				if r.IntN(2+r.IntN(2)) == 0 {
					given[key] = vals[r.IntN(len(vals))]
				}
			}
			kept = copyMap(given)
			k.opt("WithResourceAttributes", given, launcher.WithResourceAttributes(given))
			for a, b := range given {
				if b != "" {
					want[a] = b
				}
			}
		}
		if want["host.name"] == "" && herr == nil {
			want["host.name"] = host
		}
		hdr := k.headers()
		l := k.launch()
		for _, f := range k.after {
			f()
		}
		if !k.noFatal("configuration") {
			k.shutdown(l)
			return
		}
		nm := 1 + r.IntN(3)
		for i := 0; i < nm; i++ {
			_, span := otel.Tracer(fmt.Sprint("t", i)).Start(context.Background(), "s")
			span.End()
			ctr, _ := otel.Meter(fmt.Sprint("t", i)).Int64Counter("c")
			ctr.Add(context.Background(), 1)
		}
		if !k.shutdown(l) {
			return
		}
		k.noFatal("shutdown")
		c.Eval(2)
		if given != nil && !reflect.DeepEqual(given, kept) {
			k.bad("the map given to WithResourceAttributes was modified")
		}
		a := eps[0].take()
		_, res := spansOf(a.traces)
		mres := mset{}
		for _, p := range pointsOf(a.metrics) {
			mres.add(p.res)
		}
		if len(res) != 1 || len(mres) != 1 {
			k.bad("resources of spans %v, of metrics %v: want one each", res, mres)
			return
		}
		k.checkHeaders("OTLP", a.mds, hdr)
		if len(a.mds) < 2 {
			k.bad("%d requests", len(a.mds))
		}
		var got string
		for s := range res {
			got = s
			if mres[s] == 0 {
				k.bad("the resource of spans is %s, of metrics %v", s, mres)
			}
		}
		// The version is the launcher's own, wherever it appears.
		version := ""
		for _, t := range a.traces {
			v, _ := t.ResourceSpans().At(0).Resource().Attributes().Get("telemetry.distro.version")
			version = v.Str()
		}
		if version == "" {
			k.bad("no telemetry.distro.version: %s", got)
		}
		want["telemetry.distro.version"] = version
		if want["telemetry.sdk.version"] == "" {
			want["telemetry.sdk.version"] = version
		}
		var parts []string
		for a, b := range want {
			parts = append(parts, fmt.Sprintf("%q=s:%q", a, b))
		}
		sort.Strings(parts)
		if w := strings.Join(parts, ","); w != got {
			k.bad("resource is {%s}, want {%s}", got, w)
		}
		c.Distinct(got)
	}
}
