//go:build !race

package vsim

const RaceBuild = false

func raceOff() {}
func raceOn()  {}

func raceRelease(*task) {}
func raceAcquire(*task) {}
