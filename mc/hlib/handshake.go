package hlib

import (
	"bytes"
	"fmt"
	"io"

	"verif/mc/gomc"
)

const (
	PacketLen    = 1536
	HandshakeLen = 1 + 2*PacketLen
)

// Peer is the client end of a connection: it sends its version and challenge,
// echoes the server's challenge once it has it, and then sends Tail.
type Peer struct {
	Version  byte
	C1       []byte
	C2       func(s1 []byte) []byte // nil: the exact echo
	Tail     []byte
	End      int // no byte with this number or a later one arrives (negative: all do)
	Err      error
	WithLast bool
	Hold     bool  // block at the end instead, until Release
	MaxOut   int   // the write that reaches this many bytes fails (negative: none)
	WErr     error // with this (nil: ErrTransport)
	Frag     func(want int) (n int, zero bool)
	Quiet    bool

	Out       []byte
	Pos       int
	Reads     int // calls
	Failed    bool
	After     string // what was done after a failure
	Order     string // what was done out of order
	all       []byte
	released  bool
	obj, wobj gomc.Obj
	ends      int
}

func NewPeer(seed int) *Peer {
	return &Peer{Version: 3, C1: Pattern(seed, PacketLen), End: -1, MaxOut: -1}
}

// S1 is the server's challenge packet as received.
func (c *Peer) S1() []byte { return c.Out[1 : 1+PacketLen] }

func (c *Peer) Release() {
	c.released = true
	gomc.Release(&c.obj, false)
}

// input is everything that arrives, from the server's challenge on known.
func (c *Peer) input() []byte {
	if c.all == nil {
		c.all = append([]byte{c.Version}, c.C1...)
		if c.C2 != nil {
			c.all = append(c.all, c.C2(c.S1())...)
		} else {
			c.all = append(c.all, c.S1()...)
		}
		c.all = append(c.all, c.Tail...)
	}
	return c.all
}

func (c *Peer) Read(p []byte) (int, error) {
	if c.Failed && c.Order == "" && c.Pos < HandshakeLen {
		c.After = "read"
	}
	c.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	var in []byte
	switch {
	case c.Pos < 1:
		in = []byte{c.Version}
		if len(p) > 1 {
			in = append(in, c.C1...)
		}
	case c.Pos < 1+PacketLen:
		in = c.C1[c.Pos-1:]
	case len(c.Out) < 1+PacketLen && (c.End < 0 || c.Pos < c.End):
		c.Order = "it waits for the echo of a challenge it has not sent completely"
		c.Failed = true
		return 0, ErrTransport
	default:
		in = c.input()[c.Pos:]
	}
	if c.End >= 0 && c.Pos+len(in) > c.End {
		in = in[:c.End-c.Pos]
	}
	if len(in) == 0 {
		if c.Hold && !c.released {
			gomc.WaitFor(&c.obj, "connection read with nothing to read", func() bool { return c.released })
		}
		c.ends++
		if c.ends > 1 {
			gomc.LowPrio("connection read after the end")
		}
		c.Failed = true
		return 0, c.end()
	}
	n := len(p)
	if n > len(in) {
		n = len(in)
	}
	if c.Frag != nil {
		k, zero := c.Frag(n)
		if zero {
			return 0, nil
		}
		n = k
	}
	copy(p, in[:n])
	c.Pos += n
	if c.WithLast && c.End >= 0 && c.Pos == c.End {
		return n, c.end()
	}
	return n, nil
}

func (c *Peer) end() error {
	if c.Err != nil {
		return c.Err
	}
	return io.EOF
}

func (c *Peer) Write(p []byte) (int, error) {
	if !c.Quiet {
		gomc.PointNoHB(&c.wobj, "connection write")
	}
	if c.Failed && len(c.Out) < HandshakeLen {
		c.After = "written"
	}
	if len(p) > 0 && len(c.Out) == 0 && c.Pos < 1 && c.Order == "" {
		c.Order = "it sends its version before the client's has arrived"
	}
	if len(c.Out)+len(p) > 1 && c.Pos < 1+PacketLen && c.Order == "" {
		c.Order = fmt.Sprintf("it sends its challenge after %d bytes, before the client's challenge has arrived", c.Pos)
	}
	n := len(p)
	if c.MaxOut >= 0 && len(c.Out)+n > c.MaxOut {
		n = c.MaxOut - len(c.Out)
		c.Failed = true
	}
	c.Out = append(c.Out, p[:n]...)
	if n < len(p) {
		if c.WErr != nil {
			return n, c.WErr
		}
		return n, ErrTransport
	}
	return n, nil
}

// CheckOut tells whether what the server has written is a correct prefix.
func (c *Peer) CheckOut() string {
	o := c.Out
	if len(o) > 0 && o[0] != c.Version {
		return fmt.Sprintf("the version sent is %d", o[0])
	}
	if len(o) > HandshakeLen {
		return fmt.Sprintf("%d bytes sent instead of %d", len(o), HandshakeLen)
	}
	if len(o) > 1+PacketLen {
		s2 := o[1+PacketLen:]
		want := append([]byte(nil), c.C1...)
		// the second time field is the server's own
		for i := 4; i < 8 && i < len(s2); i++ {
			want[i] = s2[i]
		}
		if !bytes.Equal(want[:len(s2)], s2) {
			return "the echo of the client's challenge: " + BytesDiff(want[:len(s2)], s2)
		}
	}
	return ""
}
