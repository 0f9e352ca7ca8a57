//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

// Hand-offs between the kernel and the tasks must not order the tasks for the race detector:
// synchronisation events are ignored here; the kernel itself is ordered after each task by the
// explicit release/acquire below.
func send(c chan struct{}) {
	runtime.RaceDisable()
	c <- struct{}{}
	runtime.RaceEnable()
}

func recv(c chan struct{}) {
	runtime.RaceDisable()
	<-c
	runtime.RaceEnable()
}

func raceRelease() { runtime.RaceReleaseMerge(unsafe.Pointer(&raceSync)) }
func raceAcquire() { runtime.RaceAcquire(unsafe.Pointer(&raceSync)) }

func RaceErrors() int { return runtime.RaceErrors() }

func HBRelease(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func HBAcquire(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }
