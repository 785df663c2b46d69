package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/lightstep/otel-launcher-go/launcher"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel"
)

// A child process is an application that sets nothing but its environment.
func init() {
	if os.Getenv("ZZCHILD") == "" {
		return
	}
	if os.Getenv("ZZCHILD") == "early" {
		var seed uint64
		fmt.Sscan(os.Getenv("ZZSEED"), &seed)
		os.Unsetenv("ZZCHILD")
		earlyProgram(seed)
	}
	l := launcher.ConfigureOpentelemetry()
	_, s := otel.Tracer("t").Start(context.Background(), "s")
	s.End()
	ctr, _ := otel.Meter("t").Int64Counter("c")
	ctr.Add(context.Background(), 5)
	l.Shutdown()
	fmt.Println("child finished")
	os.Exit(0)
}

// applications: without a logger of its own, an application with a mistake in
// its configuration exits with the message that names it, and others run.
func applications() func(c *hz.Case) {
	eps := newEndpoints(1)
	return func(c *hz.Case) {
		k := newConf(c)
		r := k.r
		eps.clear()
		env := []string{"ZZCHILD=1", "PATH=" + os.Getenv("PATH"), "HOME=" + os.Getenv("HOME"), "TMPDIR=" + os.Getenv("TMPDIR")}
		set := func(n, v string) { k.setEnv(n, v); env = append(env, n+"="+v) }
		set("OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", eps[0].addr)
		set("OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", eps[0].addr)
		set("OTEL_EXPORTER_OTLP_SPAN_INSECURE", "true")
		set("OTEL_EXPORTER_OTLP_METRIC_INSECURE", "true")
		level := pickStr(r, "info", "debug", "error")
		set("OTEL_LOG_LEVEL", level)
		want := ""
		mistake := r.IntN(10)
		if mistake != 0 {
			set("LS_SERVICE_NAME", "svc")
		}
		switch mistake {
		case 0:
			want = "service name missing"
		case 1:
			set("OTEL_EXPORTER_OTLP_METRIC_PERIOD", "soon")
			want = "invalid metric reporting period"
		case 2:
			set("OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", "both")
			want = "invalid temporality preference"
		case 3:
			set("OTEL_PROPAGATORS", "b4")
			want = "unsupported propagators"
		case 4:
			set("LS_METRICS_ENABLED", "maybe")
			want = "environment error"
		}
		if r.IntN(2) == 0 {
			set("LS_ACCESS_TOKEN", "tok")
		}
		ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Args[0])
		cmd.Env = env
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		c.Tick()
		a := eps[0].take()
		text := out.String()
		bad := func(f string, a ...any) {
			d := k.detail()
			d["output"] = text[max(0, len(text)-2000):]
			c.Violate(d, f, a...)
		}
		c.Eval(4)
		switch {
		case ctx.Err() != nil:
			bad("the application did not end in 100 s")
		case want == "" && err != nil:
			bad("an application with a valid configuration ended with %v", err)
		case want != "" && (err == nil || strings.Contains(text, "child finished")):
			bad("an application that should have been stopped with %q ran on: %v", want, err)
		case want != "" && strings.Count(text, want) != 1:
			bad("%d messages with %q", strings.Count(text, want), want)
		}
		if want == "" {
			if n, _ := spansOf(a.traces); n["t/s"] != 1 {
				bad("received spans %v", n)
			}
			var sum int64
			builtin := false
			for _, p := range pointsOf(a.metrics) {
				if p.name == "c" {
					sum += p.i
				}
				if p.scope == builtinScopes["cputime"] {
					builtin = true
				}
			}
			if sum != 5 || !builtin {
				bad("counter arrives as %d, recorded 5; builtin metrics: %v", sum, builtin)
			}
			if got := strings.Contains(text, "debug logging enabled"); got != (level == "debug") {
				bad("log level %q but debug logging is %v", level, got)
			}
		}
		c.Distinct(k.desc)
	}
}

// severals: independent mistakes are each reported, once.
func severals() func(c *hz.Case) {
	eps := newEndpoints(1)
	return func(c *hz.Case) {
		k := newConf(c)
		r := k.r
		eps.clear()
		k.opt("endpoints", eps[0].addr, launcher.WithSpanExporterEndpoint(eps[0].addr), launcher.WithMetricExporterEndpoint(eps[0].addr),
			launcher.WithSpanExporterInsecure(true), launcher.WithMetricExporterInsecure(true), launcher.WithMetricsBuiltinsEnabled(false))
		want := map[string]int{"service name missing": 0, "metric": 0, "unsupported propagators": 0}
		if r.IntN(2) == 0 {
			want["service name missing"] = 1
		} else {
			k.opt("WithServiceName", "svc", launcher.WithServiceName("svc"))
		}
		switch r.IntN(4) {
		case 0:
			k.opt("period", "often", func(c *launcher.Config) { c.MetricReportingPeriod = "often" })
			want["metric"] = 1
		case 1:
			k.setEnv("OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", "sometimes")
			want["metric"] = 1
		}
		if r.IntN(2) == 0 {
			k.opt("WithPropagators", "none", launcher.WithPropagators([]string{"none"}))
			want["unsupported propagators"] = 1
		}
		l := k.launch()
		f := k.log.fatal()
		c.Eval(3)
		got := map[string]int{}
		for _, m := range f {
			switch {
			case strings.Contains(m, "service name missing"):
				got["service name missing"]++
			case strings.Contains(m, "invalid metric reporting period"), strings.Contains(m, "invalid temporality preference"):
				got["metric"]++
			case strings.Contains(m, "unsupported propagators"):
				got["unsupported propagators"]++
			default:
				k.bad("unexpected fatal message %q", m)
			}
		}
		for w, n := range want {
			if got[w] != n {
				k.bad("%d fatal messages about %s, want %d: %q", got[w], w, n, f)
			}
		}
		k.shutdown(l)
		c.Distinct(k.desc)
	}
}
