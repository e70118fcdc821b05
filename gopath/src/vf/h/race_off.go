//go:build !race

package h

func raceErrors() int { return 0 }
