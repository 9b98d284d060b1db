//go:build race

package readability

import "runtime"

const vxRace = true

func vxRaces() int { return runtime.RaceErrors() }
