//go:build !race

package rt

const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return 0 }
