// Package main is the harness for package control.
package main

import (
	"bytes"
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

func main() { gomc.Main() }

func pick[T any](site string, l ...T) T { return l[gomc.Choose(len(l), site)] }

// ctl is a control message as the reference model sees it.
type ctl struct {
	typ   byte
	v     uint32 // size, sequence number, chunk stream
	event uint16
	limit byte
	body  []byte
}

func (c ctl) String() string {
	switch c.typ {
	case 4:
		return fmt.Sprintf("event %#x % x", c.event, c.body)
	case 6:
		return fmt.Sprintf("6:%#x limit %#x", c.v, c.limit)
	}
	return fmt.Sprintf("%d:%#x", c.typ, c.v)
}

func u32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// payload is what RTMP prescribes.
func (c ctl) payload() []byte {
	switch c.typ {
	case 1:
		if c.v > 0xffffff {
			return u32(0xffffff)
		}
		return u32(c.v)
	case 4:
		return append([]byte{byte(c.event >> 8), byte(c.event)}, c.body...)
	case 6:
		return append(u32(c.v), c.limit)
	}
	return u32(c.v)
}

// decodePayload is the inverse; ok is false if it is too short or unknown.
func decodePayload(typ byte, p []byte) (ctl, bool) {
	need := map[byte]int{1: 4, 2: 4, 3: 4, 4: 2, 5: 4, 6: 5}[typ]
	if need == 0 || len(p) < need {
		return ctl{}, false
	}
	if typ == 4 {
		return ctl{typ: 4, event: uint16(p[0])<<8 | uint16(p[1]), body: p[2:]}, true
	}
	c := ctl{typ: typ, v: uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3])}
	if typ == 6 {
		c.limit = p[4]
	}
	if typ == 1 && c.v > 0xffffff {
		c.v = 0xffffff
	}
	return c, true
}

// make builds the library's value.
func (c ctl) make() control.Control {
	switch c.typ {
	case 1:
		return control.NewSetChunkSize(c.v)
	case 2:
		return &control.AbortMessage{ChunkStreamId: c.v}
	case 3:
		return &control.Acknowledgement{SequenceNumber: c.v}
	case 4:
		return &control.Event{Type: control.EventType(c.event), Body: c.body}
	case 5:
		return &control.WindowAckSize{WindowAckSize: c.v}
	case 6:
		return &control.SetPeerBandwidth{AckWindowSize: c.v, LimitType: control.LimitType(c.limit)}
	}
	panic("type")
}

// fill makes an existing object of the type say what c says.
func (c ctl) fill(o control.Control) {
	switch v := o.(type) {
	case *control.SetChunkSize:
		if err := v.Read(bytes.NewReader(c.payload())); err != nil {
			gomc.Fail("reading % x: %v", c.payload(), err)
		}
	case *control.AbortMessage:
		v.ChunkStreamId = c.v
	case *control.Acknowledgement:
		v.SequenceNumber = c.v
	case *control.Event:
		v.Type, v.Body = control.EventType(c.event), c.body
	case *control.WindowAckSize:
		v.WindowAckSize = c.v
	case *control.SetPeerBandwidth:
		v.AckWindowSize, v.LimitType = c.v, control.LimitType(c.limit)
	}
}

// of reads the library's value.
func of(c control.Control) ctl {
	r := ctl{typ: c.TypeId()}
	want := byte(0)
	switch v := c.(type) {
	case *control.SetChunkSize:
		want, r.v = 1, v.ChunkSize()
	case *control.AbortMessage:
		want, r.v = 2, v.ChunkStreamId
	case *control.Acknowledgement:
		want, r.v = 3, v.SequenceNumber
	case *control.Event:
		want, r.event, r.body = 4, uint16(v.Type), v.Body
	case *control.WindowAckSize:
		want, r.v = 5, v.WindowAckSize
	case *control.SetPeerBandwidth:
		want, r.v, r.limit = 6, v.AckWindowSize, byte(v.LimitType)
	default:
		gomc.Fail("an unexpected control message %T", c)
	}
	if r.typ != want {
		gomc.Fail("%T says its type is %d", c, r.typ)
	}
	return r
}

func (c ctl) eq(d ctl) bool {
	if c.typ == 1 && c.v > 0xffffff {
		c.v = 0xffffff
	}
	return c.typ == d.typ && c.v == d.v && c.event == d.event && c.limit == d.limit && bytes.Equal(c.body, d.body)
}

func chunkOf(typ byte, p []byte) *chunk.Chunk {
	return chunk.New(&chunk.Header{
		BasicHeader:   chunk.BasicHeader{StreamId: 2},
		MessageHeader: chunk.MessageHeader{TypeId: typ, Length: uint32(len(p))},
	}, p)
}

// checkChunk tells whether c is the message for m.
func checkChunk(m ctl, c *chunk.Chunk) string {
	if c == nil || c.Header == nil {
		return "no message"
	}
	h := c.Header
	switch {
	case h.BasicHeader.StreamId != 2:
		return fmt.Sprintf("on chunk stream %d", h.BasicHeader.StreamId)
	case h.MessageHeader.StreamId != 0:
		return fmt.Sprintf("on message stream %d", h.MessageHeader.StreamId)
	case h.MessageHeader.TypeId != m.typ:
		return fmt.Sprintf("type %d instead of %d", h.MessageHeader.TypeId, m.typ)
	case h.BasicHeader.FormatId != 0 || h.MessageHeader.FormatId != 0:
		return fmt.Sprintf("header type %d/%d instead of 0", h.BasicHeader.FormatId, h.MessageHeader.FormatId)
	case h.MessageHeader.Timestamp != 0 || h.MessageHeader.TimestampDelta:
		return "has a timestamp"
	case int(h.MessageHeader.Length) != len(c.Data):
		return fmt.Sprintf("announces %d bytes, has %d", h.MessageHeader.Length, len(c.Data))
	}
	return hlib.BytesDiff(m.payload(), c.Data)
}

func roundtrip(p control.Parser, k control.Chunker, m ctl) {
	v := m.make()
	c, err := k.Chunk(v)
	if err != nil {
		gomc.Fail("encoding %v: %v", m, err)
	}
	if d := checkChunk(m, c); d != "" {
		gomc.Fail("encoding %v: %s", m, d)
	}
	if got := of(v); !m.eq(got) {
		gomc.Fail("encoding changed the message %v to %v", m, got)
	}
	got, err := p.Parse(c)
	if err != nil {
		gomc.Fail("decoding the encoding of %v: %v", m, err)
	}
	if r := of(got); !m.eq(r) {
		gomc.Fail("%v encoded and decoded is %v", m, r)
	}
	gomc.Count("evaluations", 1)
}

// values: all boundaries and all single bytes in every position.
func values() []uint32 {
	var l []uint32
	for i := uint(0); i < 32; i++ {
		l = append(l, 1<<i, 1<<i-1, 1<<i+1, ^uint32(0)-1<<i)
	}
	for sh := uint(0); sh < 32; sh += 8 {
		for v := uint32(0); v < 256; v++ {
			l = append(l, v<<sh, 0x01020304&^(0xff<<sh)|v<<sh)
		}
	}
	return append(l, 0, 0xffffffff, 0xffffff, 0x1000000, 0xfffffe, 0x12345678, 0xfedcba98)
}

func encodeValues() {
	typ := pick("type", byte(1), 2, 3, 5, 6)
	limit := gomc.Choose(3, "limits")
	p, k := control.NewParser(), control.NewChunker()
	for _, v := range values() {
		if typ != 6 {
			roundtrip(p, k, ctl{typ: typ, v: v})
			continue
		}
		for l := 0; l < 256; l++ {
			if limit == l%3 {
				roundtrip(p, k, ctl{typ: typ, v: v, limit: byte(l)})
			}
		}
		gomc.Count("beat", 1)
	}
}

func encodeEvents() {
	lo := gomc.Choose(256, "event type")
	n := gomc.Choose(14, "body")
	p, k := control.NewParser(), control.NewChunker()
	for hi := 0; hi < 256; hi++ {
		roundtrip(p, k, ctl{typ: 4, event: uint16(hi<<8 | lo), body: hlib.Pattern(7, n)})
	}
}

// every 24-bit value under the given top bytes
func encodeAll(tops ...byte) func() {
	return func() {
		hi := gomc.Choose(256, "second byte")
		top := pick("top byte", tops...)
		typ := pick("type", byte(1), 2, 3, 5, 6)
		p, k := control.NewParser(), control.NewChunker()
		for v := 0; v < 1<<16; v++ {
			m := ctl{typ: typ, v: uint32(top)<<24 | uint32(hi)<<16 | uint32(v)}
			if typ == 6 {
				m.limit = byte(v)
			}
			roundtrip(p, k, m)
			if v%1024 == 0 {
				gomc.Count("beat", 1)
			}
		}
	}
}

// every type and payload length, and payload bytes from a small set
func decodeShapes() {
	typ := byte(gomc.Choose(256, "type"))
	n := gomc.Choose(9, "length")
	pat := gomc.Choose(4, "pattern")
	b := make([]byte, n)
	for i := range b {
		switch pat {
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i + 1)
		case 3:
			b[i] = byte(0x80 >> uint(i%8))
		}
	}
	parseOne(control.NewParser(), typ, b)
}

// decodeBytes: every byte of a payload takes every value
func decodeBytes() {
	typ := pick("type", byte(1), 2, 3, 4, 5, 6)
	n := 2 + gomc.Choose(5, "length")
	i := gomc.Choose(n, "position")
	p := control.NewParser()
	for v := 0; v < 256; v++ {
		b := hlib.Pattern(3, n)
		b[i] = byte(v)
		parseOne(p, typ, b)
	}
}

func parseOne(p control.Parser, typ byte, b []byte) {
	got, err := p.Parse(chunkOf(typ, append([]byte(nil), b...)))
	want, ok := decodePayload(typ, b)
	exact := map[byte]int{1: 4, 2: 4, 3: 4, 5: 4, 6: 5}[typ]
	gomc.Count("evaluations", 1)
	switch {
	case !ok && err == nil:
		gomc.Fail("type %d with payload % x is not an error: %v", typ, b, got)
	case !ok && got != nil:
		gomc.Fail("type %d with payload % x: an error and a message", typ, b)
	case !ok:
		return
	case exact != 0 && len(b) > exact && err != nil:
		return // refusing what is too long is as good as ignoring the rest
	case err != nil:
		gomc.Fail("type %d with payload % x: %v", typ, b, err)
	case got == nil:
		gomc.Fail("type %d with payload % x: neither a message nor an error", typ, b)
	}
	if r := of(got); !want.eq(r) {
		gomc.Fail("type %d with payload % x is decoded as %v instead of %v", typ, b, r, want)
	}
}

// successive messages through one parser and one chunker
func independent(depth int) func() {
	return func() {
		type in struct {
			typ byte
			p   []byte
		}
		opts := []in{
			{1, u32(5)}, {1, u32(0x01000000)}, {1, nil}, {2, u32(9)}, {3, u32(1)}, {3, u32(0xffffffff)}, {3, u32(2)[:3]},
			{4, []byte{0, 3, 0, 0, 0, 1, 0, 0, 0, 9}}, {4, []byte{0, 0}}, {4, []byte{1}}, {4, []byte{0, 6, 1, 2, 3, 4}},
			{5, u32(7)}, {6, append(u32(8), 2)}, {6, append(u32(3), 1)}, {6, u32(1)}, {9, u32(1)},
		}
		p, k := control.NewParser(), control.NewChunker()
		type rec struct {
			in  in
			got control.Control
			out *chunk.Chunk
		}
		var l []rec
		for i := 0; i < depth; i++ {
			m := pick("message", opts...)
			got, err := p.Parse(chunkOf(m.typ, append([]byte(nil), m.p...)))
			r := rec{in: m, got: got}
			if _, ok := decodePayload(m.typ, m.p); ok != (err == nil) {
				gomc.Fail("message %d (type %d, payload % x): %v", i+1, m.typ, m.p, err)
			}
			if err == nil {
				r.out, err = k.Chunk(got)
				if err != nil {
					gomc.Fail("encoding %v: %v", got, err)
				}
			}
			l = append(l, r)
		}
		for i, r := range l {
			want, ok := decodePayload(r.in.typ, r.in.p)
			if !ok {
				continue
			}
			if g := of(r.got); !want.eq(g) {
				gomc.Fail("message %d was %v, later it is %v", i+1, want, g)
			}
			if d := checkChunk(want, r.out); d != "" {
				gomc.Fail("the encoding of message %d (%v), looked at later: %s", i+1, want, d)
			}
			for j := range l[:i] {
				if l[j].got == r.got && l[j].got != nil {
					gomc.Fail("messages %d and %d are the same object", j+1, i+1)
				}
			}
		}
		gomc.Count("evaluations", 1)
	}
}

// again: an object encoded, filled with something else (by hand, or by
// reading it), and encoded again; everything is compared in the end.
func again() {
	a := variety(gomc.Choose(12, "first"))
	b := a
	switch gomc.Choose(4, "second") {
	case 1:
		b.v++
		b.event++
	case 2:
		b.v, b.limit = b.v<<8, b.limit+1
		b.body = append([]byte{9}, b.body...)
	case 3:
		b.body = append(append([]byte(nil), b.body...), 7)
		b.limit++
	}
	if a.typ != 4 {
		b.event, b.body = 0, nil
	} else {
		b.v = 0
	}
	if a.typ != 6 {
		b.limit = 0
	}
	if a.typ == 1 {
		b.v &= 0xffffff
	}
	read := gomc.Choose(2, "read") == 1
	between := gomc.Choose(2, "another one in between") == 1
	k := control.NewChunker()
	o := a.make()
	var out []*chunk.Chunk
	want := []ctl{a, b, a, a, b}
	for i, m := range want {
		if i > 0 && read {
			if err := o.Read(bytes.NewReader(m.payload())); err != nil {
				gomc.Fail("reading % x: %v", m.payload(), err)
			}
		} else if i > 0 {
			m.fill(o)
		}
		if r := of(o); !m.eq(r) {
			gomc.Fail("an object filled with %v is %v", m, r)
		}
		c, err := k.Chunk(o)
		if err != nil {
			gomc.Fail("encoding %v: %v", m, err)
		}
		out = append(out, c)
		if between {
			if _, err := k.Chunk((ctl{typ: 5, v: uint32(i)}).make()); err != nil {
				gomc.Fail("encoding: %v", err)
			}
		}
	}
	for i, m := range want {
		if d := checkChunk(m, out[i]); d != "" {
			gomc.Fail("the encoding of an object filled with %v: %s", m, d)
		}
	}
	gomc.Count("evaluations", 1)
}

// parseHistory: a long series through one parser and one chunker, everything
// kept and compared again at the end.
func parseHistory() {
	off := gomc.Choose(6, "first message")
	every := pick("bad messages", 0, 2, 3, 10)
	p, k := control.NewParser(), control.NewChunker()
	var want []ctl
	var got []control.Control
	var out []*chunk.Chunk
	objs := map[control.Control]int{}
	for i := 0; i < 1000; i++ {
		m := variety(i + off)
		if every > 0 && i%every == 0 {
			typ, b := m.typ, m.payload()[:1]
			if i%4 == 0 {
				typ = byte(7 + i%200)
			}
			if c, err := p.Parse(chunkOf(typ, b)); err == nil {
				gomc.Fail("message %d: type %d, % x is decoded as %v", i+1, typ, b, c)
			}
			if i%5 == 0 {
				if _, err := k.Chunk(&unwritable{i}); err == nil {
					gomc.Fail("what cannot be encoded became a message")
				}
			}
			continue
		}
		c, err := p.Parse(chunkOf(m.typ, m.payload()))
		if err != nil {
			gomc.Fail("message %d, %v: %v", i+1, m, err)
		}
		if j, ok := objs[c]; ok {
			gomc.Fail("messages %d and %d are the same object", j+1, i+1)
		}
		objs[c] = i
		o, err := k.Chunk(m.make())
		if err != nil {
			gomc.Fail("message %d, %v: %v", i+1, m, err)
		}
		want, got, out = append(want, m), append(got, c), append(out, o)
	}
	for i, m := range want {
		if r := of(got[i]); !m.eq(r) {
			gomc.Fail("a message decoded as %v is %v in the end", m, r)
		}
		if d := checkChunk(m, out[i]); d != "" {
			gomc.Fail("the encoding of %v in the end: %s", m, d)
		}
	}
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// over the wire: written, chunked, read and decoded
func overWire() {
	size := 1 + gomc.Choose(8, "chunk size")
	dst := hlib.NewDst()
	dst.Quiet = true
	w := chunk.NewWriter(dst, size)
	k := control.NewChunker()
	msgs := []ctl{
		{typ: 2, v: 0x01020304}, {typ: 3, v: 0xffffffff}, {typ: 4, event: 3, body: hlib.Pattern(1, 8)},
		{typ: 5, v: 2500000}, {typ: 6, v: 2500000, limit: 2}, {typ: 4, event: 0, body: []byte{0, 0, 0, 1}},
	}
	rot := gomc.Choose(len(msgs), "first message")
	msgs = append(append([]ctl(nil), msgs[rot:]...), msgs[:rot]...)
	for _, m := range msgs {
		c, err := k.Chunk(m.make())
		if err != nil {
			gomc.Fail("encoding %v: %v", m, err)
		}
		if err := w.Write(c); err != nil {
			gomc.Fail("writing %v: %v", m, err)
		}
	}
	d := hlib.Decode(dst.Data, size, true)
	got := d.Msgs
	if d.Err != nil || d.Partial || len(got) != len(msgs) {
		gomc.Fail("on the wire: %d messages, %v", len(got), d.Err)
	}
	p := control.NewParser()
	for i, g := range got {
		if g.CSID != 2 || g.SID != 0 || g.TS != 0 || g.Delta {
			gomc.Fail("on the wire: %v for %v", g, msgs[i])
		}
		c, err := p.Parse(chunkOf(g.Type, g.Data))
		if err != nil {
			gomc.Fail("decoding %v: %v", msgs[i], err)
		}
		if r := of(c); !msgs[i].eq(r) {
			gomc.Fail("%v arrives as %v", msgs[i], r)
		}
	}
	gomc.Count("evaluations", 1)
}

func init() {
	R := gomc.Register
	F := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	R(gomc.Scenario{Prop: "C13", Name: "c13-values", Tier: "quick",
		Bound: "5 control types x all bit boundaries and all values of each byte (2187 values) x all 256 limit types", Opts: F(5), Body: encodeValues})
	R(gomc.Scenario{Prop: "C13", Name: "c13-events", Tier: "quick",
		Bound: "all 65536 event types x bodies of 0-13 bytes", Opts: F(8), Body: encodeEvents})
	R(gomc.Scenario{Prop: "C13", Name: "c13-shapes", Tier: "quick",
		Bound: "all 256 types x payloads of 0-8 bytes x 4 patterns", Opts: F(8), Body: decodeShapes})
	R(gomc.Scenario{Prop: "C13", Name: "c13-bytes", Tier: "quick",
		Bound: "6 types x payloads of 2-6 bytes x every byte takes every value", Opts: F(6), Body: decodeBytes})
	R(gomc.Scenario{Prop: "C13", Name: "c13-sequences", Tier: "quick",
		Bound: "all sequences of 3 out of 16 messages (valid, too short, unknown) through one parser and one chunker", Opts: F(8), Body: independent(3)})
	R(gomc.Scenario{Prop: "C13", Name: "c13-wire", Tier: "quick",
		Bound: "6 messages in 6 rotations through the chunk writer with chunk sizes 1-8, decoded independently", Opts: F(8), Body: overWire})
	R(gomc.Scenario{Prop: "C13", Name: "c13-history", Tier: "quick",
		Bound: "1000 messages (none, every second, third or tenth malformed) through one parser and one chunker, all kept and compared at the end", Opts: F(6), Body: parseHistory})
	R(gomc.Scenario{Prop: "C13", Name: "c13-again", Tier: "quick",
		Bound: "12 messages x 4 others of the type: one object encoded 5 times, filled (by hand or by reading) with the one or the other in between; all encodings compared at the end", Opts: F(6), Body: again})
	R(gomc.Scenario{Prop: "C13", Name: "c13-sequences-deep", Tier: "quick",
		Bound: "all sequences of 5", Opts: F(16), Body: independent(5)})
	R(gomc.Scenario{Prop: "C13", Name: "c13-all", Tier: "thorough",
		Bound: "5 types x every value with top byte 0, 1, 0x7f, 0x80, 0xff", Opts: F(64), Body: encodeAll(0, 1, 0x7f, 0x80, 0xff)})
}
