//go:build !race

package simrt

const RaceBuild = false

func send(c chan struct{}) { c <- struct{}{} }
func recv(c chan struct{}) { <-c }

func raceRelease() {}
func raceAcquire() {}

// RaceErrors is the number of data races reported so far in this OS process.
func RaceErrors() int { return 0 }

// HBRelease / HBAcquire model a genuine happens-before edge of the simulated testing package.
func HBRelease(p *byte) {}
func HBAcquire(p *byte) {}
