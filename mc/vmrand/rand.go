// Package vmrand stands in for math/rand: the package-level functions draw
// from one fixed sequence per execution.
package vmrand

import (
	std "math/rand"

	"verif/mc/gomc"
)

type (
	Rand     = std.Rand
	Source   = std.Source
	Source64 = std.Source64
	Zipf     = std.Zipf
)

var (
	New       = std.New
	NewSource = std.NewSource
	NewZipf   = std.NewZipf
)

type state struct {
	r *std.Rand
	n uint64
}

type key struct{}

func g() *std.Rand {
	s := gomc.Local(key{}, func() any { return &state{r: std.New(std.NewSource(1))} }).(*state)
	s.n++
	if gomc.InExec() {
		gomc.HashValue(s.n)
	}
	return s.r
}

func Seed(int64)                         { g() }
func Int() int                           { return g().Int() }
func Intn(n int) int                     { return g().Intn(n) }
func Int31() int32                       { return g().Int31() }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Int63() int64                       { return g().Int63() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Float32() float32                   { return g().Float32() }
func Float64() float64                   { return g().Float64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func NormFloat64() float64               { return g().NormFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g().Read(p) }
