// Command core holds the monitors for the metric SDK core.
package main

import "github.com/lightstep/otel-launcher-go/zzverif/hz"

var checks = map[string]func(*hz.Run){}

func main() { hz.Main(checks) }
