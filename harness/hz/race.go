//go:build race

package hz

func init() { raceEnabled = true }
