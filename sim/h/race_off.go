//go:build !race

package h

func raceErrors() int { return 0 }

// RaceEnv restarts the process with the options the detector needs.
func RaceEnv() {}
