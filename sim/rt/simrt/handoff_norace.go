//go:build !race

package simrt

func wakeTask(id int) {
	select {
	case tasks[id].wake <- struct{}{}:
	default:
	}
}

func waitTurn(id int) {
	for turn != id {
		<-tasks[id].wake
	}
}

// RaceBuild tells if the race detector is on.
const RaceBuild = false
