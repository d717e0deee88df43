package hlib

import (
	"errors"
	"io"

	"verif/mc/gomc"
)

// ErrTransport is the failure injected into transports.
var ErrTransport = errors.New("injected transport failure")

// ErrOnce is a transport failure that is not repeated.
var ErrOnce = errors.New("injected transport failure, not repeated")

// Src is a fake connection to read from.
type Src struct {
	Data     []byte
	Pos      int
	Err      error // what comes after the data, again and again (nil: io.EOF)
	Once     error // what comes after the data the first time, if not nil
	WithLast bool  // the error comes together with the last bytes
	Hold     bool  // at the end, block until Release is called
	First    int   // but report the error that many times before
	Frag     func(want int) (n int, zero bool)
	OnRead   func(want int)
	EndReads int
	Reads    int
	released bool
	obj      gomc.Obj
}

func (s *Src) end() error {
	if e := s.Once; e != nil {
		s.Once = nil
		return e
	}
	if s.Err != nil {
		return s.Err
	}
	return io.EOF
}

// Release lets a read that is blocked at the end return (as closing the
// connection does).
func (s *Src) Release() {
	s.released = true
	gomc.Release(&s.obj, false)
}

func (s *Src) Read(p []byte) (int, error) {
	s.Reads++
	if s.OnRead != nil {
		s.OnRead(len(p))
	}
	if len(p) == 0 {
		return 0, nil
	}
	left := len(s.Data) - s.Pos
	if left == 0 {
		if s.Hold && !s.released && s.EndReads >= s.First {
			gomc.WaitFor(&s.obj, "transport read with nothing to read", func() bool { return s.released })
		}
		s.EndReads++
		if s.EndReads > 1+s.First {
			gomc.LowPrio("transport read after the end")
		}
		return 0, s.end()
	}
	n := len(p)
	if n > left {
		n = left
	}
	if s.Frag != nil {
		k, zero := s.Frag(n)
		if zero {
			return 0, nil
		}
		n = k
	}
	copy(p, s.Data[s.Pos:s.Pos+n])
	s.Pos += n
	if s.WithLast && s.Pos == len(s.Data) {
		s.EndReads++
		return n, s.end()
	}
	return n, nil
}

// Dst is a fake connection to write to. Every Write is a visible operation.
type Dst struct {
	Data   []byte
	Writes int
	Max    int  // fail after this many bytes (negative: never)
	Quiet  bool // no scheduling point
	OnData func()
	obj    gomc.Obj
}

func NewDst() *Dst { return &Dst{Max: -1} }

func (d *Dst) Write(p []byte) (int, error) {
	if !d.Quiet {
		gomc.PointNoHB(&d.obj, "transport write")
	}
	d.Writes++
	n := len(p)
	if d.Max >= 0 && len(d.Data)+n > d.Max {
		n = d.Max - len(d.Data)
	}
	d.Data = append(d.Data, p[:n]...)
	if d.OnData != nil {
		d.OnData()
	}
	if n < len(p) {
		return n, ErrTransport
	}
	return n, nil
}

// Conn is both directions.
type Conn struct {
	*Src
	*Dst
}

// Log is a sequence of observations made by several goroutines; the order in
// which they are made is explored.
type Log struct {
	L   []string
	obj gomc.Obj
}

func (l *Log) Add(s string) {
	gomc.PointNoHB(&l.obj, "log")
	l.L = append(l.L, s)
}
