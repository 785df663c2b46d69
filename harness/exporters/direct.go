package main

import (
	"context"
	"fmt"
	"math/rand/v2"
	"strings"
	"time"

	lmetric "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/gauge"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/minmaxsumcount"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/zzverif/hz"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

// genData is a collection written by hand: unlike the SDK's own, its
// distributions may hold negative values and be empty.
func genData(r *rand.Rand) data.Metrics {
	d := data.Metrics{Resource: genResource(r)}
	t0 := time.Unix(1700000000+int64(r.IntN(1000)), int64(r.IntN(1e9)))
	for s, n := 0, r.IntN(3); s < n; s++ {
		sc := data.Scope{Library: instrumentation.Scope{Name: fmt.Sprintf("scope%d", s), Version: word(r), SchemaURL: []string{"", "http://schema"}[r.IntN(2)]}}
		for i, n := 0, r.IntN(4); i < n; i++ {
			nk := []number.Kind{number.Int64Kind, number.Float64Kind}[r.IntN(2)]
			in := data.Instrument{Descriptor: sdkinstrument.NewDescriptor(fmt.Sprintf("m%d", i), sdkinstrument.SyncUpDownCounter, nk, word(r), []string{"", "By"}[r.IntN(2)])}
			shape := r.IntN(5)
			tempo := []aggregation.Temporality{aggregation.DeltaTemporality, aggregation.CumulativeTemporality}[r.IntN(2)]
			for p, n := 0, r.IntN(5); p < n; p++ {
				pt := data.Point{
					Attributes:  attribute.NewSet(append(genKVs(r, 4, true), attribute.Int("point", p))...),
					Temporality: tempo, Start: t0.Add(time.Duration(r.IntN(1e9))), End: t0.Add(time.Duration(1e9 + r.IntN(1e9))),
				}
				var is []int64
				var fs []float64
				for k, m := 0, r.IntN(5); k < m; k++ {
					is = append(is, genValue(r, sdkinstrument.SyncUpDownCounter, number.Int64Kind).i)
					fs = append(fs, genValue(r, sdkinstrument.SyncUpDownCounter, number.Float64Kind).f)
				}
				iv := genValue(r, sdkinstrument.SyncUpDownCounter, number.Int64Kind).i
				fv := genValue(r, sdkinstrument.SyncUpDownCounter, number.Float64Kind).f
				cfg := histogram.NewConfig(histogram.WithMaxSize(int32([]int{2, 20, 160, 400}[r.IntN(4)])))
				isInt := nk == number.Int64Kind
				pick := func(a, b aggregation.Aggregation) aggregation.Aggregation {
					if isInt {
						return a
					}
					return b
				}
				switch shape {
				case 0:
					pt.Aggregation = pick(sum.NewMonotonicInt64(iv), sum.NewMonotonicFloat64(fv))
				case 1:
					pt.Aggregation = pick(sum.NewNonMonotonicInt64(iv), sum.NewNonMonotonicFloat64(fv))
				case 2:
					pt.Aggregation = pick(gauge.NewInt64(iv), gauge.NewFloat64(fv))
				case 3:
					pt.Aggregation = pick(histogram.NewInt64(cfg, is...), histogram.NewFloat64(cfg, fs...))
				case 4:
					pt.Aggregation = pick(minmaxsumcount.NewInt64(is...), minmaxsumcount.NewFloat64(fs...))
				}
				in.Points = append(in.Points, pt)
			}
			sc.Instruments = append(sc.Instruments, in)
		}
		d.Scopes = append(d.Scopes, sc)
	}
	return d
}

// directFidelity: hand-written collections arrive as they were written.
func directFidelity() func(c *hz.Case) {
	var col *collector
	var exp lmetric.PushExporter
	return func(c *hz.Case) {
		if col == nil {
			col = newCollector("")
			exp = newMetricExporter(col, false)
		}
		for k := 0; k < 10; k++ {
			d := genData(c.R)
			want := mset{}
			n := expectedPoints(&d, want)
			before := fmt.Sprint(want)
			f := exp.ExportMetrics
			if c.R.IntN(3) == 0 {
				f = exp.ForceFlushMetrics
			}
			if err := f(context.Background(), d); err != nil {
				c.Violate(nil, "export to a healthy endpoint failed: %v", err)
				return
			}
			again := mset{}
			expectedPoints(&d, again)
			if fmt.Sprint(again) != before {
				c.Violate(nil, "the exporter changed the data it was given")
			}
			got, bad := receivedPoints(col.takeMetrics())
			c.Eval(n + 1)
			c.Count("hand-written points compared", int64(n))
			for x := range want {
				c.Distinct(x[strings.LastIndex(x, "} ")+2:])
			}
			for _, b := range bad {
				c.Violate(nil, "%s", b)
			}
			missing, extra := want.diff(got)
			if len(missing)+len(extra) > 0 {
				c.Violate(map[string]any{"missing": head(missing, 5), "unexpected": head(extra, 5)}, "%d of %d points did not arrive as written; first missing: %s; first unexpected: %s", len(missing), n, strings.Join(head(missing, 1), ""), strings.Join(head(extra, 1), ""))
				return
			}
		}
	}
}
