//go:build race

package main

import "runtime"

const raceBuild = true

// raceErrors is the number of data races that the race detector has reported in this process
func raceErrors() int { return runtime.RaceErrors() }
