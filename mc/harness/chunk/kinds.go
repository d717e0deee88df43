package main

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"net"
	"strings"
	"time"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// Transports that can do more than read or write.

type byteSrc struct{ *hlib.Src }

func (s byteSrc) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := s.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

func (s byteSrc) WriteTo(w io.Writer) (n int64, err error) {
	var b [7]byte
	for {
		k, e := s.Read(b[:])
		if k > 0 {
			m, we := w.Write(b[:k])
			if n += int64(m); we != nil {
				return n, we
			}
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			return n, e
		}
	}
}

// conn is one with all of net.Conn.
type netConn struct {
	hlib.Conn
}

func (netConn) Close() error                     { return nil }
func (netConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (netConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (netConn) SetDeadline(time.Time) error      { return nil }
func (netConn) SetReadDeadline(time.Time) error  { return nil }
func (netConn) SetWriteDeadline(time.Time) error { return errors.New("not supported") }

func kinds() {
	w := gomc.Choose(nSessions, "session")
	g := session(w)
	ref := decode(&hlib.Src{Data: g.Out}, initial(w), nil)
	src := &hlib.Src{Data: g.Out}
	step := pick("bytes at a time", 1000, 1, 3)
	n := 0
	src.Frag = func(want int) (int, bool) {
		n++
		return min(want, step), n%5 == 0
	}
	var r io.Reader
	switch gomc.Choose(9, "kind") {
	case 0:
		r = byteSrc{src}
	case 1:
		r = netConn{hlib.Conn{Src: src}}
	case 2:
		r = bufio.NewReaderSize(src, 16)
	case 3:
		r = bufio.NewReader(src)
	case 4:
		r = bytes.NewBuffer(g.Out)
	case 5:
		r = strings.NewReader(string(g.Out))
	case 6:
		r = io.MultiReader(bytes.NewReader(g.Out[:5]), src)
		src.Pos = 5
	case 7:
		r = io.LimitReader(src, int64(len(g.Out)))
	case 8:
		r = bufio.NewReadWriter(bufio.NewReader(src), nil)
	}
	res := decode(r, initial(w), nil)
	compareRuns(g, ref, res)
}

type allDst struct{ *hlib.Dst }

func (d allDst) WriteByte(b byte) error              { _, err := d.Write([]byte{b}); return err }
func (d allDst) WriteString(s string) (int, error)   { return d.Write([]byte(s)) }
func (d allDst) Flush() error                        { return nil }
func (d allDst) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{d.Dst}, r) }

func writeKinds() {
	kind := gomc.Choose(3, "kind")
	size := pick("write size", 128, 1, 5)
	dst := hlib.NewDst()
	var w chunk.Writer
	buf := new(bytes.Buffer)
	switch kind {
	case 0:
		w = chunk.NewWriter(allDst{dst}, size)
	case 1:
		w = chunk.NewWriter(netConn{hlib.Conn{Dst: dst}}, size)
	case 2:
		w = chunk.NewWriter(buf, size)
	}
	var want []byte
	for i := 0; i < 30; i++ {
		m := hlib.Msg{Fmt: byte(i % 4), CSID: []uint32{3, 64, 320}[i%3], TS: uint32(i), Delta: i%4 > 0, Type: 9, SID: 1, Data: hlib.Pattern(i, i*i)}
		if i%7 == 0 {
			m.TS, m.Ext = 0xffffff, uint32(i)<<24
		}
		if kind < 2 {
			writeOne(w, dst, m, size)
			continue
		}
		if err := w.Write(fromMsg(m)); err != nil {
			gomc.Fail("writing %v failed: %v", m, err)
		}
		want = append(want, wireForm(m, size)...)
	}
	if d := hlib.BytesDiff(want, buf.Bytes()); d != "" {
		gomc.Fail("writing to a buffer: %s", d)
	}
	gomc.Count("evaluations", 1)
}

func init() {
	gomc.Register(gomc.Scenario{Prop: "C04", Name: "c04-kinds", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: nSessions}, Body: kinds,
		Bound: "5 sessions, 3 fragmentations with empty reads, from 9 kinds of reader (with ReadByte and WriteTo, a net.Conn, buffered, in memory, concatenated, limited)"})
	gomc.Register(gomc.Scenario{Prop: "C02", Name: "c02-kinds", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 3}, Body: writeKinds,
		Bound: "30 messages to 3 kinds of writer (with WriteByte, WriteString and ReadFrom, a net.Conn, a buffer), 3 write sizes"})
}
