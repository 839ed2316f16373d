//go:build !race

package rt

const RaceOn = false

func raceDisable()              {}
func raceEnable()               {}
func raceAcquireThread(*Thread) {}
func raceReleaseThread(*Thread) {}
func raceAcquireDone(*Thread)   {}
func raceReleaseDone(*Thread)   {}
func RaceErrors() int           { return 0 }

func raceAcq(p *byte) {}
func raceRel(p *byte) {}

func RaceAcq(p *byte) {}
func RaceRel(p *byte) {}

func newRace() string { return "" }

func confirmRace(sc *Scenario, b Budget, choices []int, msg string) *Report { return nil }

// RaceSetup prepares the process for the race detector.
func RaceSetup(tier string) {}

// RaceCleanup removes what RaceSetup made.
func RaceCleanup() {}
