//go:build race

package simrt

import "runtime"

//go:norace
func wakeTask(int) {}

//go:norace
func waitTurn(id int) {
	for turn != id {
		runtime.Gosched()
	}
}

// RaceBuild tells if the race detector is on.
const RaceBuild = true
