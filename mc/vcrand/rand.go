// Package vcrand stands in for crypto/rand: a per-execution stream of bytes,
// different for every call and selected by SetStream.
package vcrand

import (
	"io"

	"verif/mc/gomc"
)

type state struct {
	n      uint64
	invert bool
	fill   func(n uint64) byte
	fail   error
	calls  int
}

type key struct{}

func st() *state { return gomc.Local(key{}, func() any { return &state{} }).(*state) }

// Invert makes the random source return the complement of every byte.
func Invert(on bool) { st().invert = on }

// Fill makes the random source return f(0), f(1)...
func Fill(f func(n uint64) byte) { st().fill = f }

// Calls returns how many bytes have been handed out.
func Calls() uint64 { return st().n }

type reader struct{}

// Reader is the stand-in for rand.Reader.
var Reader io.Reader = reader{}

// At returns byte i of the stream.
func At(i uint64) byte {
	z := i*0x9e3779b97f4a7c15 + 0x1234567
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return byte(z >> 56)
}

func (reader) Read(p []byte) (int, error) {
	s := st()
	// one atomic piece of the stream per call; concurrent callers are
	// serialised in the order the scheduler runs them
	for i := range p {
		b := At(s.n)
		if s.fill != nil {
			b = s.fill(s.n)
		}
		if s.invert {
			b = ^b
		}
		p[i] = b
		s.n++
	}
	if gomc.InExec() {
		gomc.HashValue(s.n)
	}
	return len(p), nil
}

func Read(p []byte) (int, error) { return io.ReadFull(Reader, p) }

func Text() string {
	var b [26]byte
	Read(b[:])
	for i := range b {
		b[i] = 'A' + b[i]%26
	}
	return string(b[:])
}

// Rewind restarts the stream.
func Rewind() { st().n = 0 }
