//go:build race

package sim

// RaceEnabled reports whether this build detects data races. Such builds judge
// races only: what harnesses record must not synchronise the code under test.
const RaceEnabled = true
