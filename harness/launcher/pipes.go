package main

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/lightstep/otel-launcher-go/pipelines"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/collector/config/configopaque"
	"go.opentelemetry.io/collector/config/configtls"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/resource"
)

// The servers of the pipeline cases.
const (
	plain   = iota // speaks in the clear
	public         // has a certificate of the system's root
	inhouse        // has a certificate of the private authority
	mutual         // like inhouse, and wants to see the client's certificate
	numServers
)

var serverNames = [numServers]string{"the server without TLS", "the server of the public authority", "the server of the private authority", "the server that authenticates clients"}

// pipeTLS chooses transport settings and returns the servers they reach.
func pipeTLS(k *conf, pc *pipelines.PipelineConfig) (reach [numServers]bool, invalid bool) {
	r := k.r
	t := &configtls.ClientConfig{}
	ca := func() {
		t.CAPem = configopaque.String(private.ca)
	}
	what := r.IntN(11)
	switch what {
	case 0: // in the clear, whatever the TLS settings are
		pc.Insecure = true
		reach[plain] = true
		if r.IntN(2) == 0 {
			t = nil
		} else {
			ca()
		}
	case 1, 2:
		t = nil
		reach[public] = true
	case 3:
		reach[public] = true
	case 4:
		ca()
		reach[inhouse] = true
	case 5:
		ca()
		t.IncludeSystemCACertsPool = true
		reach[public], reach[inhouse] = true, true
	case 6:
		ca()
		t.CertPem, t.KeyPem = configopaque.String(private.cert), configopaque.String(private.key)
		reach[inhouse], reach[mutual] = true, true
	case 7:
		t.InsecureSkipVerify = true
		reach[public], reach[inhouse] = true, true
	case 8:
		ca()
		t.ServerName = "private.test"
		reach[inhouse] = true
	case 9:
		ca()
		t.ServerName = "other.test"
	case 10:
		t.Insecure = true
		reach[plain] = true
	}
	if r.IntN(12) == 0 && !pc.Insecure && what != 10 {
		if t == nil {
			t = &configtls.ClientConfig{}
		}
		reach = [numServers]bool{}
		switch r.IntN(3) {
		case 0:
			t.CAPem, t.CAFile = "", "/nonexistent/ca.pem"
		case 1:
			t.CAPem = "no certificate"
		case 2:
			t.KeyPem, t.CertPem = "no key", configopaque.String(private.cert)
		}
		invalid = true
	}
	pc.TLSSetting = t
	k.desc = append(k.desc, fmt.Sprintf("transport %d", what))
	return
}

// globals are the process's providers.
type globals struct {
	tp, mp any
	fields []string
}

func currentGlobals() globals {
	g := globals{otel.GetTracerProvider(), otel.GetMeterProvider(), otel.GetTextMapPropagator().Fields()}
	sort.Strings(g.fields)
	return g
}

// pipelineCase: pipelines made directly from their configurations.
func pipelineCase() func(c *hz.Case) {
	servers := endpoints{newCollector(""), newCollectorWith(trusted), newCollectorWith(untrusted), newCollectorWith(private.mutual)}
	return func(c *hz.Case) {
		k := newConf(c)
		r := c.R
		reset()
		otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) {
			k.emu.Lock()
			k.errs = append(k.errs, err)
			k.emu.Unlock()
		}))
		servers.clear()

		type pipe struct {
			metrics bool
			stop    func() error
			target  int
			reach   bool
			head    map[string]string
			res     string
			record  func()
		}
		var pipes []*pipe
		for _, metrics := range []bool{false, true} {
			if r.IntN(6) == 0 {
				continue
			}
			p := &pipe{metrics: metrics, target: r.IntN(numServers), head: map[string]string{}, res: fmt.Sprint("res", r.IntN(3))}
			pc := pipelines.PipelineConfig{Endpoint: servers[p.target].addr, Headers: p.head, Propagators: []string{"b3"},
				Resource: resource.NewSchemaless(attribute.String("service.name", p.res))}
			for i := r.IntN(3); i > 0; i-- {
				p.head[fmt.Sprint("h", i)] = fmt.Sprint(metrics, r.IntN(10))
			}
			reach, invalid := pipeTLS(k, &pc)
			if n := r.IntN(4); n > 0 && !reach[p.target] && !invalid { // mostly servers within reach
				for i, ok := range reach {
					if ok {
						p.target = i
					}
				}
				pc.Endpoint = servers[p.target].addr
			}
			p.reach = reach[p.target]
			if r.IntN(8) == 0 {
				invalid = true
				switch n := r.IntN(2); {
				case !metrics:
					pc.Propagators = [][]string{nil, {"unheard-of"}}[n]
				case n == 0:
					pc.ReportingPeriod = pickStr(r, "soon", "10", "0s", "-1s")
				default:
					pc.TemporalityPreference = "sometimes"
				}
			} else if metrics {
				pc.ReportingPeriod = pickStr(r, "", "20s", "1h")
				pc.TemporalityPreference = pickStr(r, "", "delta", "cumulative", "lowmemory")
			}
			k.desc = append(k.desc, fmt.Sprintf("metrics=%v target=%d reach=%v invalid=%v period=%q propagators=%v", metrics, p.target, p.reach, invalid, pc.ReportingPeriod, pc.Propagators))

			before := currentGlobals()
			var err error
			if metrics {
				p.stop, err = pipelines.NewMetricsPipeline(pc)
			} else {
				p.stop, err = pipelines.NewTracePipeline(pc)
			}
			c.Eval(1)
			if (err != nil) != invalid {
				k.bad("metrics %v: configuration invalid: %v, error: %v", metrics, invalid, err)
				return
			}
			after := currentGlobals()
			if err != nil {
				if !reflect.DeepEqual(before.fields, after.fields) || before.tp != after.tp || before.mp != after.mp {
					k.bad("a pipeline that failed with %q has changed the global providers", err)
				}
				if p.stop != nil {
					k.bad("a failed pipeline has a function to stop it")
				}
				continue
			}
			if metrics && (after.mp == before.mp || after.tp != before.tp) || !metrics && (after.tp == before.tp || after.mp != before.mp) {
				k.bad("metrics %v: the wrong global provider was set", metrics)
			}
			if metrics {
				ctr, _ := otel.Meter("t0").Int64Counter("c")
				p.record = func() { ctr.Add(context.Background(), 7) }
			} else {
				tr := otel.Tracer("t0")
				p.record = func() {
					_, s := tr.Start(context.Background(), "s")
					s.End()
				}
			}
			pipes = append(pipes, p)
		}
		for _, p := range pipes {
			p.record()
		}
		for _, p := range pipes {
			done := make(chan error, 1)
			go func() { done <- p.stop() }()
			wait := 60 * time.Second
			if !p.reach {
				wait = 400 * time.Millisecond
			}
			select {
			case err := <-done:
				if err != nil && p.reach {
					k.bad("stopping: %v", err)
				}
			case <-time.After(wait):
				if p.reach {
					k.bad("stopping took longer than %v", wait)
				}
			}
			c.Eval(1)
		}
		for i, s := range servers {
			a := s.take()
			names, sres := spansOf(a.traces)
			pts := pointsOf(a.metrics)
			var wantSpans, wantPoints int
			var heads []map[string]string
			for _, p := range pipes {
				if !p.reach || p.target != i {
					continue
				}
				heads = append(heads, p.head)
				res := canonKV(attribute.String("service.name", p.res))
				if p.metrics {
					wantPoints++
					for _, pt := range pts {
						if pt.value() != 7 || pt.res != res || pt.scope != "t0" {
							k.bad("server %d received %+v, want 7 from %s", i, pt, res)
						}
					}
				} else {
					wantSpans++
					if sres[res] != 1 {
						k.bad("server %d received spans from %v, want %s", i, sres, res)
					}
				}
			}
			c.Eval(3)
			if names["t0/s"] != wantSpans || len(pts) != wantPoints {
				k.bad("%s received %d spans and %d points, want %d and %d", serverNames[i], names["t0/s"], len(pts), wantSpans, wantPoints)
			}
			for _, md := range a.mds {
				ok := false
				for _, h := range heads {
					same := true
					for _, key := range []string{"h1", "h2"} {
						v, has := h[key]
						same = same && (has && len(md.Get(key)) == 1 && md.Get(key)[0] == v || !has && len(md.Get(key)) == 0)
					}
					ok = ok || same
				}
				if !ok {
					k.bad("%s received the headers %v, want one of %v", serverNames[i], md, heads)
				}
			}
		}
		c.Distinct(k.desc)
	}
}

// refusedCase: a refused configuration leaves nothing running.
func refusedCase() func(c *hz.Case) {
	server := newCollector("")
	return func(c *hz.Case) {
		k := newConf(c)
		r := c.R
		reset()
		base := runtime.NumGoroutine()
		for i := 1 + r.IntN(3); i > 0; i-- {
			pc := pipelines.PipelineConfig{Endpoint: server.addr, Insecure: true, Propagators: []string{"b3"}}
			metrics := r.IntN(2) == 0
			switch n := r.IntN(3); {
			case n == 0:
				pc.Insecure = false
				pc.TLSSetting = &configtls.ClientConfig{Config: configtls.Config{CAPem: "no certificate"}}
			case !metrics:
				pc.Propagators = [][]string{nil, nil, {"unheard-of"}}[n]
			case n == 1:
				pc.ReportingPeriod = pickStr(r, "soon", "10", "0s", "-1s")
			default:
				pc.TemporalityPreference = "sometimes"
			}
			k.desc = append(k.desc, fmt.Sprintf("metrics=%v %+v", metrics, pc))
			before := currentGlobals()
			var err error
			if metrics {
				_, err = pipelines.NewMetricsPipeline(pc)
			} else {
				_, err = pipelines.NewTracePipeline(pc)
			}
			c.Eval(2)
			if err == nil {
				k.bad("no error")
				return
			}
			if after := currentGlobals(); before.tp != after.tp || before.mp != after.mp || !reflect.DeepEqual(before.fields, after.fields) {
				k.bad("a pipeline that failed with %q has changed the global providers", err)
			}
		}
		for i := 0; runtime.NumGoroutine() > base; i++ {
			if i == 500 {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				var left []string
				for _, g := range strings.Split(string(buf), "\n\n") {
					if !strings.Contains(g, "refusedCase.func") && (strings.Contains(g, "otel-launcher-go") || strings.Contains(g, "opentelemetry.io")) {
						left = append(left, g)
					}
				}
				k.bad("%d goroutines before the refused configurations, %d after: %.1500s", base, runtime.NumGoroutine(), strings.Join(left, "\n"))
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		c.Distinct(k.desc)
	}
}
