//go:build race

package rt

import "runtime"

const RaceBuild = true

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
