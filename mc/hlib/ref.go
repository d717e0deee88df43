// Package hlib holds what the harnesses share: an independent reference
// implementation of the RTMP chunk format, generators of well-formed chunk
// streams, and fake connections. It is not instrumented.
package hlib

import (
	"bytes"
	"fmt"
)

// Msg is a message as the reference model sees it.
type Msg struct {
	Fmt   byte // header type it was started with
	CSID  uint32
	TS    uint32 // the 24-bit timestamp field
	Delta bool
	Ext   uint32 // the extended timestamp when TS == 0xffffff
	Type  byte
	SID   uint32
	Data  []byte
}

func (m Msg) HasExt() bool { return m.TS == 0xffffff }

func (m Msg) String() string {
	d := m.Data
	tail := ""
	if len(d) > 12 {
		d, tail = d[:12], "..."
	}
	return fmt.Sprintf("{cs=%d ts=%#x delta=%v ext=%#x type=%#x sid=%#x len=%d % x%s}", m.CSID, m.TS, m.Delta, m.Ext, m.Type, m.SID, len(m.Data), d, tail)
}

// Diff explains how got differs from want ("" if it does not).
func Diff(want, got Msg) string {
	switch {
	case want.CSID != got.CSID:
		return fmt.Sprintf("chunk stream %d instead of %d", got.CSID, want.CSID)
	case want.TS != got.TS:
		return fmt.Sprintf("timestamp %#x instead of %#x", got.TS, want.TS)
	case want.Delta != got.Delta:
		return fmt.Sprintf("timestamp delta flag %v instead of %v", got.Delta, want.Delta)
	case want.HasExt() && want.Ext != got.Ext:
		return fmt.Sprintf("extended timestamp %#x instead of %#x", got.Ext, want.Ext)
	case want.Type != got.Type:
		return fmt.Sprintf("type %#x instead of %#x", got.Type, want.Type)
	case want.SID != got.SID:
		return fmt.Sprintf("message stream %#x instead of %#x", got.SID, want.SID)
	case len(want.Data) != len(got.Data):
		return fmt.Sprintf("payload of %d bytes instead of %d", len(got.Data), len(want.Data))
	}
	if i := firstDiff(want.Data, got.Data); i >= 0 {
		return fmt.Sprintf("payload byte %d is %#x instead of %#x", i, got.Data[i], want.Data[i])
	}
	return ""
}

func firstDiff(a, b []byte) int {
	if bytes.Equal(a, b) {
		return -1
	}
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// BytesDiff explains how got differs from want.
func BytesDiff(want, got []byte) string {
	if bytes.Equal(want, got) {
		return ""
	}
	i := firstDiff(want, got)
	if i >= len(got) {
		return fmt.Sprintf("%d bytes instead of %d (a proper prefix)", len(got), len(want))
	}
	if i >= len(want) {
		return fmt.Sprintf("%d bytes instead of %d (extra bytes at the end)", len(got), len(want))
	}
	return fmt.Sprintf("byte %d is %#x instead of %#x (lengths %d, %d)", i, got[i], want[i], len(got), len(want))
}

// SeqDiff compares two sequences of messages.
func SeqDiff(want, got []Msg) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("message %d of %d never delivered: %v", i+1, len(want), want[i])
		}
		if d := Diff(want[i], got[i]); d != "" {
			return fmt.Sprintf("message %d of %d: %s (sent %v, got %v)", i+1, len(want), d, want[i], got[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("a message nobody sent: %v (after %d)", got[len(want)], len(want))
	}
	return ""
}

// RTMPBasic is the basic header the RTMP specification prescribes.
func RTMPBasic(fmtID byte, csid uint32) []byte {
	switch {
	case csid < 64:
		return []byte{fmtID<<6 | byte(csid)}
	case csid < 320:
		return []byte{fmtID << 6, byte(csid - 64)}
	default:
		v := csid - 64
		return []byte{fmtID<<6 | 1, byte(v), byte(v >> 8)}
	}
}

// LibBasic is the basic header in the form this library is known to use: it
// differs from RTMP for 320 and above (known finding K-CSID3).
func LibBasic(fmtID byte, csid uint32) []byte {
	if csid < 320 {
		return RTMPBasic(fmtID, csid)
	}
	v := csid - 64
	return []byte{fmtID<<6 | 0x3f, byte(v >> 8), byte(v)}
}

// Basic is the form the generators use.
var Basic = LibBasic

func u24(v uint32) []byte { return []byte{byte(v >> 16), byte(v >> 8), byte(v)} }
func u32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func le32(v uint32) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

// U32 is the big-endian encoding of v.
func U32(v uint32) []byte { return u32(v) }

// Header is the full header of a message started with header type m.Fmt.
func Header(m Msg) []byte {
	b := append([]byte(nil), Basic(m.Fmt, m.CSID)...)
	switch m.Fmt {
	case 0:
		b = append(b, u24(m.TS)...)
		b = append(b, u24(uint32(len(m.Data)))...)
		b = append(b, m.Type)
		b = append(b, le32(m.SID)...)
	case 1:
		b = append(b, u24(m.TS)...)
		b = append(b, u24(uint32(len(m.Data)))...)
		b = append(b, m.Type)
	case 2:
		b = append(b, u24(m.TS)...)
	}
	if m.HasExt() {
		b = append(b, u32(m.Ext)...)
	}
	return b
}

// Cont is the header of a further chunk of m.
func Cont(m Msg) []byte {
	b := append([]byte(nil), Basic(3, m.CSID)...)
	if m.HasExt() {
		b = append(b, u32(m.Ext)...)
	}
	return b
}

// Encode is the wire form of m cut into pieces of size bytes.
func Encode(m Msg, size int) []byte {
	b := Header(m)
	d := m.Data
	for {
		n := len(d)
		if n > size {
			n = size
		}
		b = append(b, d[:n]...)
		d = d[n:]
		if len(d) == 0 {
			return b
		}
		b = append(b, Cont(m)...)
	}
}

// Pattern makes n payload bytes that depend on seed and position.
func Pattern(seed, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(seed*41 + i*7 + i>>8*13 + 1)
	}
	return b
}

// Gen builds a well-formed chunk stream together with what it means.
type Gen struct {
	Size  int // chunk size in force
	Out   []byte
	Want  []Msg // completed messages that are to be delivered
	Ends  []int // where in Out the last byte of Want[i] is (exclusive)
	Cuts  []int // end of every chunk
	Order []uint32
	cs    map[uint32]*genStream
	n     int
}

type genStream struct {
	has  bool
	last Msg // header in force
	plen int // length in force
	cur  *Msg
	done int
}

func NewGen(size int) *Gen { return &Gen{Size: size, cs: map[uint32]*genStream{}} }

func (g *Gen) stream(csid uint32) *genStream {
	s := g.cs[csid]
	if s == nil {
		s = &genStream{}
		g.cs[csid] = s
		g.Order = append(g.Order, csid)
	}
	return s
}

// Busy: a message is in progress on csid.
func (g *Gen) Busy(csid uint32) bool { return g.stream(csid).cur != nil }

// HasHeader: a header has been sent on csid.
func (g *Gen) HasHeader(csid uint32) bool { return g.stream(csid).has }

// LastLen is the length a type 2 or 3 header inherits.
func (g *Gen) LastLen(csid uint32) int { return g.stream(csid).plen }

// LastType is the message type in force on csid.
func (g *Gen) LastType(csid uint32) byte { return g.stream(csid).last.Type }

// Start begins a message; what the header type leaves out is taken from the
// preceding header of the same chunk stream. The first chunk is written.
func (g *Gen) Start(f byte, csid uint32, ts, ext uint32, typ byte, sid uint32, data []byte) {
	s := g.stream(csid)
	m := Msg{Fmt: f, CSID: csid, TS: ts, Ext: ext, Type: typ, SID: sid, Data: data}
	switch f {
	case 0:
	case 1:
		m.Delta = true
		m.SID = s.last.SID
	case 2:
		m.Delta = true
		m.SID, m.Type = s.last.SID, s.last.Type
	case 3:
		m.Delta = s.last.Delta
		m.SID, m.Type, m.TS = s.last.SID, s.last.Type, s.last.TS
		if m.TS != 0xffffff {
			m.Ext = 0
		}
	}
	if m.TS != 0xffffff {
		m.Ext = 0
	}
	if f >= 2 && len(data) != s.plen {
		panic("hlib: length does not match the inherited one")
	}
	s.has = true
	s.last = m
	s.plen = len(data)
	s.cur = &m
	s.done = 0
	g.Out = append(g.Out, Header(m)...)
	g.piece(s)
}

// StartN is Start with a payload of n patterned bytes (the inherited length
// for header types 2 and 3) and values that differ from message to message.
func (g *Gen) StartN(f byte, csid uint32, n int) {
	g.n++
	if f >= 2 {
		n = g.LastLen(csid)
	}
	k := uint32(g.n)
	g.Start(f, csid, 0x010203*k&0x7fffff, 0, byte(8+k%3), 0x01000100*k+k, Pattern(g.n, n))
}

func (g *Gen) piece(s *genStream) {
	m := s.cur
	n := len(m.Data) - s.done
	if n > g.Size {
		n = g.Size
	}
	g.Out = append(g.Out, m.Data[s.done:s.done+n]...)
	s.done += n
	g.Cuts = append(g.Cuts, len(g.Out))
	if s.done == len(m.Data) {
		if m.Type == 1 {
			if len(m.Data) >= 4 {
				g.Size = int(uint32(m.Data[0])<<24 | uint32(m.Data[1])<<16 | uint32(m.Data[2])<<8 | uint32(m.Data[3]))
			}
		} else {
			g.Want = append(g.Want, *m)
			g.Ends = append(g.Ends, len(g.Out))
		}
		s.cur = nil
	}
}

// Cont writes the next chunk of the message in progress on csid.
func (g *Gen) Cont(csid uint32) {
	s := g.stream(csid)
	g.Out = append(g.Out, Cont(*s.cur)...)
	g.piece(s)
}

// Whole writes a message with all its chunks.
func (g *Gen) Whole(f byte, csid uint32, ts, ext uint32, typ byte, sid uint32, data []byte) {
	g.Start(f, csid, ts, ext, typ, sid, data)
	for g.Busy(csid) {
		g.Cont(csid)
	}
}

// WholeN is StartN with all its chunks.
func (g *Gen) WholeN(f byte, csid uint32, n int) {
	g.StartN(f, csid, n)
	for g.Busy(csid) {
		g.Cont(csid)
	}
}

// Finish completes the messages in progress.
func (g *Gen) Finish() {
	for _, c := range g.Order {
		for g.Busy(c) {
			g.Cont(c)
		}
	}
}

// Decoder is an independent decoder of chunk streams.
type Decoder struct {
	Size    int
	Msgs    []Msg
	Ends    []int // offset after the last byte of Msgs[i]
	SCS     []int // Set Chunk Size messages consumed (values; -1 if too short)
	Rest    int   // bytes left over
	Partial bool  // some message is incomplete
	Err     error
}

// Decode reads b with the reference rules. keepSCS keeps Set Chunk Size
// messages among Msgs instead of obeying them.
func Decode(b []byte, size int, keepSCS bool) *Decoder {
	d := &Decoder{Size: size}
	type st struct {
		last Msg
		plen int
		cur  []byte
		busy bool
	}
	cs := map[uint32]*st{}
	p := 0
	need := func(n int) bool { return len(b)-p >= n }
	be := func(n int) uint32 {
		var v uint32
		for i := 0; i < n; i++ {
			v = v<<8 | uint32(b[p])
			p++
		}
		return v
	}
	for p < len(b) {
		at := p
		f := b[p] >> 6
		id := uint32(b[p] & 0x3f)
		p++
		switch id {
		case 0:
			if !need(1) {
				d.Rest = len(b) - at
				return d
			}
			id = uint32(b[p]) + 64
			p++
		case 0x3f:
			if !need(2) {
				d.Rest = len(b) - at
				return d
			}
			id = be(2) + 64
		}
		s := cs[id]
		if s == nil {
			s = &st{}
			cs[id] = s
		}
		hl := []int{11, 7, 3, 0}[f]
		if !need(hl) {
			d.Rest = len(b) - at
			return d
		}
		m := s.last
		m.CSID = id
		m.Fmt = f
		pl := s.plen
		switch f {
		case 0:
			m.TS, m.Delta = be(3), false
			pl = int(be(3))
			m.Type = b[p]
			p++
			m.SID = uint32(b[p]) | uint32(b[p+1])<<8 | uint32(b[p+2])<<16 | uint32(b[p+3])<<24
			p += 4
		case 1:
			m.TS, m.Delta = be(3), true
			pl = int(be(3))
			m.Type = b[p]
			p++
		case 2:
			m.TS, m.Delta = be(3), true
		}
		m.Ext = 0
		if m.TS == 0xffffff {
			if !need(4) {
				d.Rest = len(b) - at
				return d
			}
			m.Ext = be(4)
		}
		if s.busy && f != 3 {
			d.Err = fmt.Errorf("header type %d inside a message of chunk stream %d at offset %d", f, id, at)
			return d
		}
		s.last, s.plen = m, pl
		n := pl - len(s.cur)
		if n > d.Size {
			n = d.Size
		}
		if !need(n) {
			d.Rest = len(b) - at
			d.Partial = true
			return d
		}
		s.cur = append(s.cur, b[p:p+n]...)
		p += n
		s.busy = true
		if len(s.cur) == pl {
			m.Data = s.cur
			s.cur = nil
			s.busy = false
			if m.Type == 1 {
				if pl >= 4 && keepSCS {
					d.SCS = append(d.SCS, int(be32(m.Data)))
				} else if pl >= 4 {
					d.Size = int(uint32(m.Data[0])<<24 | uint32(m.Data[1])<<16 | uint32(m.Data[2])<<8 | uint32(m.Data[3]))
					d.SCS = append(d.SCS, d.Size)
				} else {
					d.SCS = append(d.SCS, -1)
				}
			}
			if m.Type != 1 || keepSCS {
				d.Msgs = append(d.Msgs, m)
				d.Ends = append(d.Ends, p)
			}
		}
	}
	for _, s := range cs {
		if s.busy {
			d.Partial = true
		}
	}
	return d
}

func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}
