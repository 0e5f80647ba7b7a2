//go:build race

package run

import "runtime"

// Raced tells whether data races are looked for.
const Raced = true

func raceErrors() int { return runtime.RaceErrors() }
