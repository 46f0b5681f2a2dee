//go:build !race

package sched

func raceOff() {}
func raceOn()  {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

const RaceBuild = false
