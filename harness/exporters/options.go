package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"maps"
	"math/big"
	"math/rand/v2"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	motelcol "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	totelcol "github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/collector/config/configopaque"
	"go.opentelemetry.io/collector/config/configtls"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/stats"
)

// serverCert is the certificate of the servers that require TLS.
var (
	serverCert string
	serverPair tls.Certificate
)

func init() {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		panic(err)
	}
	now := time.Now()
	ca := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "127.0.0.1"}, NotBefore: now.Add(-time.Hour), NotAfter: now.Add(240 * time.Hour),
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(crand.Reader, ca, ca, key.Public(), key)
	if err != nil {
		panic(err)
	}
	serverCert = string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
	serverPair = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

// wireLog records how each request to a server came.
type wireLog struct {
	mu  sync.Mutex
	got []string
}

func (w *wireLog) TagRPC(ctx context.Context, _ *stats.RPCTagInfo) context.Context   { return ctx }
func (w *wireLog) TagConn(ctx context.Context, _ *stats.ConnTagInfo) context.Context { return ctx }
func (w *wireLog) HandleConn(context.Context, stats.ConnStats)                       {}
func (w *wireLog) HandleRPC(_ context.Context, s stats.RPCStats) {
	h, ok := s.(*stats.InHeader)
	if !ok {
		return
	}
	var hs []string
	for k, v := range h.Header {
		if strings.HasPrefix(k, "x-") {
			hs = append(hs, fmt.Sprintf("%s=%q", k, v))
		}
	}
	sort.Strings(hs)
	signal := "metrics"
	if strings.Contains(h.FullMethod, "race") {
		signal = "traces"
	}
	comp := h.Compression
	if comp == "" {
		comp = "none"
	}
	w.mu.Lock()
	w.got = append(w.got, fmt.Sprintf("%s %s %v", signal, comp, hs))
	w.mu.Unlock()
}

func (w *wireLog) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	g := w.got
	w.got = nil
	sort.Strings(g)
	return g
}

// optionSet is a random list of options and what it amounts to.
type optionSet struct {
	endpoint int
	headers  map[string]string
	comp     string
	tls      bool // the transport chosen last
	list     []string
	given    []map[string]string // the caller's maps and copies of them
	copies   []map[string]string
}

// apply makes the options; f receives each in order, nil for a nil option.
func genOptions(r *rand.Rand, cols []*collector, f func(kind, arg string, m map[string]string, tls *configtls.ClientConfig)) *optionSet {
	o := &optionSet{headers: map[string]string{}, comp: "zstd"}
	must := []int{0, 3 + r.IntN(3)} // an endpoint and a transport, somewhere
	var kinds []int
	for i := r.IntN(7); i > 0; i-- {
		kinds = append(kinds, r.IntN(7))
	}
	for _, k := range must {
		i := r.IntN(len(kinds) + 1)
		kinds = append(kinds[:i], append([]int{k}, kinds[i:]...)...)
	}
	ca := false
	for i := 0; i < len(kinds); i++ {
		k := kinds[i]
		switch k {
		case 0:
			o.endpoint = r.IntN(len(cols))
			f("endpoint", cols[o.endpoint].addr, nil, nil)
			o.list = append(o.list, fmt.Sprint("endpoint ", o.endpoint))
		case 1:
			m := map[string]string{}
			for i := r.IntN(4); i > 0; i-- {
				m[fmt.Sprint("x-", r.IntN(4))] = fmt.Sprint("v", r.IntN(100))
			}
			if r.IntN(6) == 0 {
				m = nil
			}
			maps.Copy(o.headers, m)
			o.given, o.copies = append(o.given, m), append(o.copies, maps.Clone(m))
			f("headers", "", m, nil)
			o.list = append(o.list, fmt.Sprint("headers ", m))
		case 2:
			o.comp = []string{"gzip", "zstd", "snappy", "none", ""}[r.IntN(5)]
			f("compressor", o.comp, nil, nil)
			o.list = append(o.list, "compressor "+o.comp)
		case 3:
			// The setting has no effect on one that names an authority.
			o.tls = ca
			f("insecure", "", nil, nil)
			o.list = append(o.list, "insecure")
		case 4:
			o.tls, ca = false, false
			f("tls", "", nil, &configtls.ClientConfig{Insecure: true})
			o.list = append(o.list, "insecure tls setting")
		case 5:
			o.tls, ca = true, false
			t := &configtls.ClientConfig{InsecureSkipVerify: true}
			if r.IntN(2) == 0 {
				ca = true
				t = &configtls.ClientConfig{Config: configtls.Config{CAPem: configopaque.String(serverCert)}}
			}
			f("tls", "", nil, t)
			o.list = append(o.list, "tls setting")
		case 6:
			f("nil", "", nil, nil)
			o.list = append(o.list, "nil")
		}
		// The transport has to be the one of the endpoint in the end.
		if i == len(kinds)-1 && o.tls != cols[o.endpoint].tls {
			kinds = append(kinds, map[bool]int{true: 5, false: 3 + r.IntN(2)}[cols[o.endpoint].tls])
		}
	}
	if o.comp == "" {
		o.comp = "none"
	}
	return o
}

func (o *optionSet) want(signal string) string {
	var hs []string
	for k, v := range o.headers {
		hs = append(hs, fmt.Sprintf("%s=%q", k, []string{v}))
	}
	sort.Strings(hs)
	return fmt.Sprintf("%s %s %v", signal, o.comp, hs)
}

// exporterOptions: several exporters are made from random options and used;
// every server sees exactly the requests meant for it, made as configured.
func exporterOptions() func(c *hz.Case) {
	var cols []*collector
	var logs []*wireLog
	for i := 0; i < 4; i++ {
		l := &wireLog{}
		logs = append(logs, l)
		o := []grpc.ServerOption{grpc.StatsHandler(l)}
		if i%2 == 1 {
			o = append(o, grpc.Creds(credentials.NewServerTLSFromCert(&serverPair)))
		}
		cols = append(cols, newCollectorWith(o...))
		cols[i].tls = i%2 == 1
	}
	return func(c *hz.Case) {
		r := c.R
		for _, x := range cols {
			x.takeMetrics()
			x.takeTraces()
			x.takeMDs()
		}
		for _, l := range logs {
			l.take()
		}
		ctx := context.Background()
		want := make([][]string, len(cols))
		items := make([]mset, len(cols))
		for i := range items {
			items[i] = mset{}
		}
		var lists []any
		var sets []*optionSet
		var stop []func(context.Context) error
		var export []func() (error, mset)
		global := newSelfWatch()
		var own []*selfWatch
		var ownWant []int
		global.with(func() {
			for i, n := 0, 1+r.IntN(4); i < n; i++ {
				if r.IntN(2) == 0 {
					var opts []motelcol.Option
					o := genOptions(r, cols, func(kind, arg string, m map[string]string, tls *configtls.ClientConfig) {
						opts = append(opts, map[string]func() motelcol.Option{
							"endpoint":   func() motelcol.Option { return motelcol.WithEndpoint(arg) },
							"headers":    func() motelcol.Option { return motelcol.WithHeaders(m) },
							"compressor": func() motelcol.Option { return motelcol.WithCompressor(arg) },
							"insecure":   func() motelcol.Option { return motelcol.WithInsecure() },
							"tls":        func() motelcol.Option { return motelcol.WithTLSSetting(*tls) },
							"nil":        func() motelcol.Option { return nil },
						}[kind]())
					})
					cfg := motelcol.NewConfig(opts...)
					cfg.SelfMetrics, cfg.SelfSpans = false, false
					exp, err := motelcol.NewExporter(ctx, cfg)
					lists, sets = append(lists, "metrics", o.list), append(sets, o)
					if err != nil {
						c.Violate(map[string]any{"options": o.list}, "metrics exporter: %v", err)
						return
					}
					k := len(sets) - 1
					export = append(export, func() (error, mset) {
						d := counterData(r, 1+r.IntN(5))
						w := mset{}
						expectedPoints(&d, w)
						want[o.endpoint] = append(want[o.endpoint], sets[k].want("metrics"))
						for x, n := range w {
							items[o.endpoint][x] += n
						}
						return exp.ExportMetrics(ctx, d), w
					})
					stop = append(stop, func(ctx context.Context) error {
						return exp.ShutdownMetrics(ctx, counterData(r, 0))
					})
					continue
				}
				var opts []totelcol.Option
				o := genOptions(r, cols, func(kind, arg string, m map[string]string, tls *configtls.ClientConfig) {
					opts = append(opts, map[string]func() totelcol.Option{
						"endpoint":   func() totelcol.Option { return totelcol.WithEndpoint(arg) },
						"headers":    func() totelcol.Option { return totelcol.WithHeaders(m) },
						"compressor": func() totelcol.Option { return totelcol.WithCompressor(arg) },
						"insecure":   func() totelcol.Option { return totelcol.WithInsecure() },
						"tls":        func() totelcol.Option { return totelcol.WithTLSSetting(*tls) },
						"nil":        func() totelcol.Option { return nil },
					}[kind]())
				})
				cfg := totelcol.NewConfig(opts...)
				cfg.Batcher.Timeout = 0
				w := newSelfWatch()
				given := r.IntN(3)
				var eo []func(*totelcol.ExporterOptions)
				cfg.SelfMetrics, cfg.SelfSpans = false, false
				if given > 0 {
					// The exporter reports about itself to the providers it is given.
					cfg.SelfMetrics, cfg.SelfSpans = true, true
					eo = append(eo, totelcol.WithMeterProvider(w.mp), totelcol.WithTracerProvider(w.tp))
				}
				exp, err := totelcol.NewExporter(ctx, cfg, eo...)
				lists, sets = append(lists, "traces", o.list), append(sets, o)
				if err != nil {
					c.Violate(map[string]any{"options": o.list}, "trace exporter: %v", err)
					return
				}
				own = append(own, w)
				ownWant = append(ownWant, 0)
				k, q := len(sets)-1, len(own)-1
				export = append(export, func() (error, mset) {
					p := &pool{res: []*resource.Resource{resource.Empty()}, scopes: []instrumentation.Scope{{Name: "a"}}}
					var st tracetest.SpanStubs
					for i := 1 + r.IntN(4); i > 0; i-- {
						st = append(st, genStub(r, p, nil))
					}
					w := mset{}
					ro := st.Snapshots()
					for _, s := range ro {
						w.add(wantSpan(s))
						items[o.endpoint].add(wantSpan(s))
					}
					if given > 0 {
						ownWant[q] += len(ro)
					}
					want[o.endpoint] = append(want[o.endpoint], sets[k].want("traces"))
					return exp.ExportSpans(ctx, ro), w
				})
				stop = append(stop, exp.Shutdown)
			}
		})
		d := map[string]any{"options": lists}
		// The caller's maps are the caller's.
		for _, o := range sets {
			for i, m := range o.given {
				if !maps.Equal(m, o.copies[i]) {
					c.Violate(d, "the caller's header map %v is now %v", o.copies[i], m)
				}
				if m != nil && r.IntN(2) == 0 {
					m["x-later"] = "added"
					delete(m, "x-0")
				}
			}
		}
		for n := 1 + r.IntN(2*len(export)+1); n > 0 && len(export) > 0 && !c.Failed(); n-- {
			c.Eval(1)
			if err, _ := export[r.IntN(len(export))](); err != nil {
				c.Violate(d, "export: %v", err)
			}
		}
		for _, f := range stop {
			if err := f(ctx); err != nil {
				c.Violate(d, "shutdown: %v", err)
			}
		}
		for i, x := range cols {
			got := logs[i].take()
			sort.Strings(want[i])
			c.Eval(1)
			if fmt.Sprint(got) != fmt.Sprint(want[i]) {
				c.Violate(d, "server %d got the requests %v, want %v", i, got, want[i])
			}
			arrived, _ := receivedPoints(x.takeMetrics())
			for k, v := range receivedSpans(x.takeTraces()) {
				arrived[k] += v
			}
			missing, extra := items[i].diff(arrived)
			if len(missing)+len(extra) > 0 {
				c.Violate(d, "server %d: missing %v, unexpected %v", i, head(missing, 2), head(extra, 2))
			}
			c.Distinct(got)
		}
		if n := len(global.spans.GetSpans()); n > 0 {
			c.Violate(d, "the global tracer provider received %d of the exporters' own spans", n)
		}
		if m, _ := global.items(); len(m) > 0 {
			c.Violate(d, "the global meter provider received the exporters' own counts %v", m)
		}
		for i, w := range own {
			m, _ := w.items()
			sum := 0
			for _, v := range m {
				sum += int(v)
			}
			c.Eval(1)
			if sum != ownWant[i] {
				c.Violate(d, "the meter provider given to the exporter counts %d spans, want %d", sum, ownWant[i])
			}
			if (len(w.spans.GetSpans()) > 0) != (ownWant[i] > 0) {
				c.Violate(d, "the tracer provider given to the exporter has %d spans after exports of %d", len(w.spans.GetSpans()), ownWant[i])
			}
		}
	}
}
