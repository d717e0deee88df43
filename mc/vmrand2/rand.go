// Package vmrand2 stands in for math/rand/v2: the package-level functions draw
// from one fixed sequence per execution.
package vmrand2

import (
	std "math/rand/v2"

	"verif/mc/gomc"
)

type (
	Rand    = std.Rand
	Source  = std.Source
	Zipf    = std.Zipf
	PCG     = std.PCG
	ChaCha8 = std.ChaCha8
)

var (
	New        = std.New
	NewPCG     = std.NewPCG
	NewChaCha8 = std.NewChaCha8
	NewZipf    = std.NewZipf
)

type state struct {
	r *std.Rand
	n uint64
}

type key struct{}

func g() *std.Rand {
	s := gomc.Local(key{}, func() any { return &state{r: std.New(std.NewPCG(1, 2))} }).(*state)
	s.n++
	if gomc.InExec() {
		gomc.HashValue(s.n)
	}
	return s.r
}

func Int() int                           { return g().Int() }
func IntN(n int) int                     { return g().IntN(n) }
func Int32() int32                       { return g().Int32() }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Int64() int64                       { return g().Int64() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func Uint() uint                         { return g().Uint() }
func UintN(n uint) uint                  { return g().UintN(n) }
func Uint32() uint32                     { return g().Uint32() }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func Uint64() uint64                     { return g().Uint64() }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func Float32() float32                   { return g().Float32() }
func Float64() float64                   { return g().Float64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
func NormFloat64() float64               { return g().NormFloat64() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[Int intType](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(g().Uint64N(uint64(n)))
}
