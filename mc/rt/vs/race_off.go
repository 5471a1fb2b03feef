//go:build !race

package vs

// RaceMode tells whether the accesses to memory are checked.
const RaceMode = false

var execClk uint64

func racq(p *uint64)     {}
func rrel(p *uint64)     {}
func hide()              {}
func show()              {}
func rrelExec()          {}
func raceErrors() int    { return 0 }
func raceSpawn(f func()) { f() }
func raceInit()          {}

type RaceReport struct {
	Key, Text string
	Repo      bool
}

func raceReports(n int) []RaceReport { return nil }
