// Package simrand is math/rand with a global source the simulator seeds.
package simrand

import (
	"math/rand"

	"github.com/acronis/go-raml/v2/zzsim/simrt"
)

var fallback = rand.New(rand.NewSource(1))

func src() *rand.Rand {
	w := simrt.Cur()
	if w == nil {
		return fallback
	}
	v := w.Choose("rand", 0)
	return rand.New(rand.NewSource(int64(v)))
}

func Int() int                        { return src().Int() }
func Intn(n int) int                  { return src().Intn(n) }
func Int31() int32                    { return src().Int31() }
func Int31n(n int32) int32            { return src().Int31n(n) }
func Int63() int64                    { return src().Int63() }
func Int63n(n int64) int64            { return src().Int63n(n) }
func Uint32() uint32                  { return src().Uint32() }
func Uint64() uint64                  { return src().Uint64() }
func Float32() float32                { return src().Float32() }
func Float64() float64                { return src().Float64() }
func Perm(n int) []int                { return src().Perm(n) }
func Shuffle(n int, f func(i, j int)) { src().Shuffle(n, f) }
func Seed(int64)                      {}
