// Package simtime is the time package on the simulated clock.
package simtime

import (
	"time"

	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

func Now() time.Time {
	w := simrt.Cur()
	if w == nil {
		return time.Unix(1700000000, 0)
	}
	return time.Unix(0, w.Now+simrt.Steps())
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if w := simrt.Cur(); w != nil {
		w.Now += int64(d)
	}
	simrt.Y()
}
