//go:build !race

package sim

const RaceEnabled = false
