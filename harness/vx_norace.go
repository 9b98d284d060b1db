//go:build !race

package readability

const vxRace = false

func vxRaces() int { return 0 }
