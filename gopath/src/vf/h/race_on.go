//go:build race

package h

import "runtime"

// raceErrors is how many data races were reported so far.
func raceErrors() int { return runtime.RaceErrors() }
