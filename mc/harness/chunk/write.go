package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

var writeCSIDs = []uint32{2, 3, 4, 8, 62, 64, 65, 127, 128, 255, 256, 318, 319, 320, 321, 383, 384, 575, 576, 16447, 65598, 65599}

// wireForm checks that got is what m must look like on the wire.
func wireForm(m hlib.Msg, size int) []byte { return hlib.Encode(m, size) }

// writeOne writes m and compares the bytes; rest is what was written before.
func writeOne(w chunk.Writer, dst *hlib.Dst, m hlib.Msg, size int) {
	before := len(dst.Data)
	c := fromMsg(m)
	data := c.Data
	hdr := *c.Header
	if err := w.Write(c); err != nil {
		gomc.Fail("writing %v failed: %v", m, err)
	}
	if d := hlib.BytesDiff(wireForm(m, size), dst.Data[before:]); d != "" {
		gomc.Fail("writing %v with write size %d: %s", m, size, d)
	}
	if *c.Header != hdr || len(c.Data) != len(data) || !bytes.Equal(c.Data, m.Data) {
		gomc.Fail("writing %v changed the caller's message", m)
	}
	gomc.Count("evaluations", 1)
}

func writeFields() func() {
	return func() {
		csids := writeCSIDs
		c := pick("chunk stream", csids...)
		f := byte(gomc.Choose(4, "header type"))
		tss := [][2]uint32{{0, 0}, {1, 9}, {0x00fffe, 0}, {0xfffffe, 5}, {0xffffff, 0}, {0xffffff, 0xffffff}, {0xffffff, 0x1000000}, {0xffffff, 0xfffffffe}}
		types := []byte{0, 1, 8, 0x14, 0xff}
		sids := []uint32{0, 1, 0x01020304, 0xffffffff}
		sizes := []int{1, 2, 3, 4, 5, 7, 8, 16, 63, 64, 127, 128, 129, 4096}
		var lens []int
		for n := 0; n <= 260; n++ {
			lens = append(lens, n)
		}
		for _, size := range sizes {
			dst := hlib.NewDst()
			dst.Quiet = true
			w := chunk.NewWriter(dst, size)
			for i, n := range lens {
				for j, ts := range tss {
					k := i*len(tss) + j
					data := hlib.Pattern(k, n)
					if n == 0 && k%2 == 1 {
						data = nil
					}
					m := hlib.Msg{Fmt: f, CSID: c, TS: ts[0], Ext: ts[1], Delta: f != 0, Type: types[k%len(types)], SID: sids[(k+k/7)%len(sids)], Data: data}
					gomc.Count("beat", 1)
					writeOne(w, dst, m, size)
				}
			}
			if f <= 1 { // the others take the length from whatever came before
				roundTrip(dst.Data, size)
			}
		}
	}
}

// roundTrip: an independent decoder must be able to make sense of the stream
// (the comparison of the bytes has settled what it recovers).
func roundTrip(b []byte, size int) {
	d := hlib.Decode(b, size, true)
	if d.Err != nil || d.Rest != 0 || d.Partial {
		gomc.Fail("an independent decoder fails on what was written: err=%v rest=%d partial=%v", d.Err, d.Rest, d.Partial)
	}
}

// sequences of messages on few chunk streams, sizes changed in between
func writeSeq(depth int) func() {
	return func() {
		size := pick("write size", 1, 3, 128)
		dst := hlib.NewDst()
		dst.Quiet = true
		w := chunk.NewWriter(dst, size)
		if w.WriteSize() != size {
			gomc.Fail("write size %d instead of %d", w.WriteSize(), size)
		}
		var want []hlib.Msg
		type ref struct {
			m    hlib.Msg
			size int
		}
		var all []ref
		for i := 0; i < depth; i++ {
			csid := pick("chunk stream", uint32(2), 70, 400)
			n := pick("length", 0, 1, 3, 4, 7)
			ext := gomc.Choose(2, "extended") == 1
			if gomc.Choose(2, "change size") == 1 {
				size = size%4 + 1
				w.SetWriteSize(size)
				if w.WriteSize() != size {
					gomc.Fail("write size %d instead of %d", w.WriteSize(), size)
				}
			}
			m := hlib.Msg{CSID: csid, TS: uint32(i), Type: byte(8 + i), SID: uint32(i), Data: hlib.Pattern(i, n)}
			if ext {
				m.TS, m.Ext = 0xffffff, 0xfffff0+uint32(i)
			}
			writeOne(w, dst, m, size)
			want = append(want, m)
			all = append(all, ref{m, size})
		}
		var exp []byte
		for _, r := range all {
			exp = append(exp, wireForm(r.m, r.size)...)
		}
		if d := hlib.BytesDiff(exp, dst.Data); d != "" {
			gomc.Fail("after %d messages: %s", depth, d)
		}
	}
}

// writeAgain: one object written, changed and written again
func writeAgain() {
	size := pick("write size", 1, 3, 4, 128)
	change := gomc.Choose(8, "change")
	how := gomc.Choose(2, "in place") == 1
	n := pick("length", 0, 1, 4, 9)
	between := gomc.Choose(2, "another message in between") == 1
	dst := hlib.NewDst()
	dst.Quiet = true
	w := chunk.NewWriter(dst, size)
	m := hlib.Msg{CSID: 5, TS: 7, Type: 8, SID: 1, Data: hlib.Pattern(1, n)}
	c := fromMsg(m)
	for i := 0; i < 4; i++ {
		before := len(dst.Data)
		if err := w.Write(c); err != nil {
			gomc.Fail("writing %v failed: %v", m, err)
		}
		if d := hlib.BytesDiff(wireForm(m, size), dst.Data[before:]); d != "" {
			gomc.Fail("writing the same object for the %d. time, as %v: %s", i+1, m, d)
		}
		if between {
			writeOne(w, dst, hlib.Msg{CSID: 6, TS: uint32(i), Type: 9, SID: 1, Data: hlib.Pattern(i, 5)}, size)
		}
		if i == 1 {
			continue // unchanged
		}
		switch change {
		case 0:
			m.Data = hlib.Pattern(i+2, n)
		case 1:
			m.Data = hlib.Pattern(i+2, n+1+i)
		case 2:
			m.TS++
		case 3:
			m.Type++
		case 4:
			m.SID += 0x100
		case 5:
			m.CSID += 60
		case 6:
			m.TS, m.Ext = 0xffffff, uint32(0x1000000+i)
		case 7:
			size++
			w.SetWriteSize(size)
		}
		f := fromMsg(m)
		if how && len(c.Data) == len(f.Data) {
			copy(c.Data, f.Data)
			*c.Header = *f.Header
		} else {
			*c = *f
		}
	}
	gomc.Count("evaluations", 1)
}

func writeLong(maxLen int) func() {
	return func() {
		var lens []int
		for _, n := range []int{127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 131072, 1 << 20, 0xffffff} {
			if n <= maxLen {
				lens = append(lens, n)
			}
		}
		n := pick("length", lens...)
		size := pick("write size", 1, 2, 127, 128, 129, 4096, 65535, 65536, 65537, 0xffffff, 0x7fffffff)
		for _, ext := range []bool{false, true} {
			dst := hlib.NewDst()
			dst.Quiet = true
			w := chunk.NewWriter(dst, size)
			m := hlib.Msg{CSID: 6, TS: 3, Type: 9, SID: 1, Data: hlib.Pattern(n, n)}
			if ext {
				m.CSID, m.TS, m.Ext = 319, 0xffffff, 0x01020304
			}
			writeOne(w, dst, m, size)
			roundTrip(dst.Data, size)
			gomc.Count("beat", 1)
		}
	}
}

// the underlying writer fails after any number of bytes
func writeErrors() {
	csid := pick("chunk stream", uint32(3), 70, 400)
	n := pick("length", 0, 1, 4, 5, 11)
	m := hlib.Msg{CSID: csid, TS: 0xffffff, Ext: 5, Type: 9, SID: 1, Data: hlib.Pattern(3, n)}
	exp := wireForm(m, 4)
	max := gomc.Choose(len(exp)+1, "failure after so many bytes")
	dst := hlib.NewDst()
	dst.Quiet = true
	dst.Max = max
	w := chunk.NewWriter(dst, 4)
	err := w.Write(fromMsg(m))
	switch {
	case max >= len(exp):
		if err != nil {
			gomc.Fail("writing failed although the transport took everything: %v", err)
		}
	case err == nil:
		gomc.Fail("the transport took only %d of %d bytes and Write reported success", max, len(exp))
	case !errors.Is(err, hlib.ErrTransport):
		gomc.Fail("Write returned %v instead of the transport's error", err)
	}
	if !bytes.HasPrefix(exp, dst.Data) {
		gomc.Fail("bytes written before the failure are wrong: %s", hlib.BytesDiff(exp, dst.Data))
	}
	gomc.Count("evaluations", 1)
}

// known deviations of the encoding of chunk stream IDs
func write63() {
	w := hlib.NewDst()
	w.Quiet = true
	m := hlib.Msg{CSID: 63, Type: 9, Data: []byte{1, 2, 3}}
	if err := chunk.NewWriter(w, 2).Write(fromMsg(m)); err != nil {
		gomc.Fail("writing on chunk stream 63: %v", err)
	}
	b := w.Data
	want := wireForm(m, 2) // one-byte form: RTMP's
	if d := hlib.BytesDiff(want, b); d != "" {
		gomc.Fail("writing on chunk stream 63: %s", d)
	}
	// three-byte IDs
	for _, c := range []uint32{320, 575, 65599} {
		m := hlib.Msg{CSID: c, Type: 9, Data: []byte{1, 2, 3}}
		w := hlib.NewDst()
		w.Quiet = true
		if err := chunk.NewWriter(w, 2).Write(fromMsg(m)); err != nil {
			gomc.Fail("writing on chunk stream %d: %v", c, err)
		}
		hlib.Basic = hlib.RTMPBasic
		rtmp := wireForm(m, 2)
		hlib.Basic = hlib.LibBasic
		switch {
		case bytes.Equal(rtmp, w.Data):
		case bytes.Equal(wireForm(m, 2), w.Data):
			gomc.Known("K-CSID3", "messages on chunk streams 320 to 65599 are written with 0x3f and two big-endian bytes as chunk stream ID, which an RTMP peer does not understand")
		default:
			gomc.Fail("writing on chunk stream %d gives % x", c, w.Data)
		}
		gomc.Count("evaluations", 1)
	}
}

// --- headers -----------------------------------------------------------

func encodeHeader(h chunk.Header) []byte {
	var b bytes.Buffer
	if err := h.Write(&b); err != nil {
		gomc.Fail("encoding %+v failed: %v", h, err)
	}
	return b.Bytes()
}

// plain hides everything but Read
type plain struct{ r io.Reader }

func (p plain) Read(b []byte) (int, error) { return p.r.Read(b) }

func decodeHeader(b []byte, bytewise bool) (h chunk.Header, n int, err error) {
	rd := bytes.NewReader(b)
	if bytewise {
		err = h.Read(rd)
	} else {
		err = h.Read(plain{rd})
	}
	return h, len(b) - rd.Len(), err
}

func sameHeader(a, b chunk.Header, f byte) string {
	switch {
	case a.BasicHeader != b.BasicHeader:
		return fmt.Sprintf("basic header %+v instead of %+v", b.BasicHeader, a.BasicHeader)
	case a.MessageHeader != b.MessageHeader:
		return fmt.Sprintf("message header %+v instead of %+v", b.MessageHeader, a.MessageHeader)
	case a.ExtendedTimestamp != b.ExtendedTimestamp:
		return fmt.Sprintf("extended timestamp %+v instead of %+v", b.ExtendedTimestamp, a.ExtendedTimestamp)
	}
	return ""
}

func mkHeader(f byte, csid, ts, ext, length uint32, typ byte, sid uint32) (chunk.Header, hlib.Msg) {
	h := chunk.Header{BasicHeader: chunk.BasicHeader{FormatId: f, StreamId: csid}}
	h.MessageHeader.FormatId = f
	m := hlib.Msg{Fmt: f, CSID: csid}
	if f <= 2 {
		h.MessageHeader.Timestamp = ts
		h.MessageHeader.TimestampDelta = f != 0
		if ts == 0xffffff {
			h.ExtendedTimestamp.Delta = ext
		}
		m.TS, m.Ext = ts, ext
	}
	if f <= 1 {
		h.MessageHeader.Length = length
		h.MessageHeader.TypeId = typ
		m.Type = typ
	}
	if f == 0 {
		h.MessageHeader.StreamId = sid
		m.SID = sid
	}
	return h, m
}

// refHeader is the expected encoding; length is patched in.
func refHeader(m hlib.Msg, length uint32) []byte {
	b := hlib.Header(m)
	if m.Fmt <= 1 {
		o := len(hlib.Basic(m.Fmt, m.CSID)) + 3
		b[o], b[o+1], b[o+2] = byte(length>>16), byte(length>>8), byte(length)
	}
	return b
}

// header checks one header: encoding, decoding, exact consumption, truncation.
func header(f byte, csid, ts, ext, length uint32, typ byte, sid uint32, cuts bool) {
	h, m := mkHeader(f, csid, ts, ext, length, typ, sid)
	b := encodeHeader(h)
	want := refHeader(m, length)
	if d := hlib.BytesDiff(want, b); d != "" {
		gomc.Fail("encoding %+v: %s", h, d)
	}
	gomc.Count("evaluations", 1)
	if csid == 63 {
		return // decoding it is the known finding K-CSID63
	}
	for _, bw := range []bool{true, false} {
		in := append(append([]byte(nil), b...), 0xa5, 0x5a, 0xff)
		g, n, err := decodeHeader(in, bw)
		if err != nil {
			gomc.Fail("decoding % x: %v", b, err)
		}
		if n != len(b) {
			gomc.Fail("decoding % x consumed %d bytes instead of %d", b, n, len(b))
		}
		if d := sameHeader(h, g, f); d != "" {
			gomc.Fail("decoding % x: %s", b, d)
		}
	}
	if cuts {
		for k := 0; k < len(b); k++ {
			for _, bw := range []bool{true, false} {
				if _, _, err := decodeHeader(b[:k], bw); err == nil {
					gomc.Fail("decoding only %d of the %d bytes % x reports no error", k, len(b), b)
				}
			}
			gomc.Count("evaluations", 1)
		}
	}
}

func headerIDs() {
	part := gomc.Choose(64, "part")
	for c := uint32(2 + part*1025); c < uint32(2+(part+1)*1025) && c <= 65599; c++ {
		for f := byte(0); f <= 3; f++ {
			header(f, c, c*257&0xffffff, 0, c*31&0xffffff, byte(c), c*0x01000193, c < 1500 || c%64 < 2)
			header(f, c, 0xffffff, c*0x01000193, 5, byte(c>>8), ^c, false)
		}
		gomc.Count("beat", 1)
	}
}

func headerFields(deep bool) func() {
	return func() {
		f := byte(gomc.Choose(4, "header type"))
		field := gomc.Choose(5, "field")
		csids := []uint32{2, 64, 320}
		for _, c := range csids {
			switch field {
			case 0: // timestamps: every power of two and its neighbours, every byte value in every position
				for _, v := range u32s(24, deep) {
					header(f, c, v, 0x01020304, 0x0a0b0c, 0x0d, 0x0e0f1011, true)
				}
			case 1:
				for _, v := range u32s(24, deep) {
					header(f, c, 0x010203, 0, v, 0x0d, 0x0e0f1011, true)
				}
			case 2:
				for t := 0; t < 256; t++ {
					header(f, c, 0x010203, 0, 7, byte(t), 0x0e0f1011, true)
				}
			case 3:
				for _, v := range u32s(32, deep) {
					header(f, c, 0x010203, 0, 7, 0x0d, v, true)
				}
			case 4:
				for _, v := range u32s(32, deep) {
					header(f, c, 0xffffff, v, 7, 0x0d, 0xfffefdfc, true)
				}
			}
			gomc.Count("beat", 1)
		}
	}
}

// u32s: boundary values of a field of so many bits
func u32s(bits int, deep bool) []uint32 {
	max := uint32(1)<<uint(bits) - 1
	if bits == 32 {
		max = 0xffffffff
	}
	seen := map[uint32]bool{}
	var l []uint32
	add := func(v uint32) {
		v &= max
		if !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	for i := 0; i < bits; i++ {
		add(1 << uint(i))
		add(1<<uint(i) - 1)
		add(1<<uint(i) + 1)
		add(^(uint32(1) << uint(i)))
	}
	step := 17
	if deep {
		step = 1
	}
	for sh := 0; sh < bits; sh += 8 {
		for b := 0; b < 256; b += step {
			add(uint32(b) << uint(sh))
			add(0x5a5a5a5a&^(0xff<<uint(sh)) | uint32(b)<<uint(sh))
		}
	}
	add(0)
	add(max)
	return l
}

// every 24-bit timestamp and length (thorough)
func header24() {
	hi := gomc.Choose(256, "high byte")
	f := byte(gomc.Choose(3, "header type"))
	for lo := 0; lo < 1<<16; lo++ {
		v := uint32(hi<<16 | lo)
		header(f, 64, v, ^v, v^0x123456, byte(lo), v*0x9e3779b1, false)
		if lo&0xfff == 0 {
			gomc.Count("beat", 1)
		}
	}
}

// headerWriteErrors: the writer fails after any number of bytes of a header.
func headerWriteErrors() {
	f := byte(gomc.Choose(4, "header type"))
	c := pick("chunk stream", uint32(3), 70, 400)
	ext := gomc.Choose(2, "extended timestamp") == 1
	ts := uint32(7)
	if ext {
		ts = 0xffffff
	}
	h, _ := mkHeader(f, c, ts, 5, 6, 7, 8)
	b := encodeHeader(h)
	bare := &bytes.Buffer{}
	if err := h.BasicHeader.Write(bare); err != nil {
		gomc.Fail("encoding %+v failed: %v", h.BasicHeader, err)
	}
	nb := bare.Len()
	if err := h.MessageHeader.Write(bare); err != nil {
		gomc.Fail("encoding %+v failed: %v", h.MessageHeader, err)
	}
	nm := bare.Len() - nb
	for max := 0; max <= len(b); max++ {
		check := func(what string, part []byte, write func(io.Writer) error) {
			dst := hlib.NewDst()
			dst.Quiet = true
			dst.Max = max
			err := write(dst)
			switch {
			case max >= len(part) && err != nil:
				gomc.Fail("encoding %s of %d bytes failed although the writer took %d: %v", what, len(part), max, err)
			case max < len(part) && err == nil:
				gomc.Fail("the writer failed after %d of the %d bytes of %s and Write reported success", max, len(part), what)
			}
			if !bytes.HasPrefix(part, dst.Data) {
				gomc.Fail("%s: bytes written before the failure are wrong: %s", what, hlib.BytesDiff(part, dst.Data))
			}
			gomc.Count("evaluations", 1)
		}
		check("a header", b, h.Write)
		check("a basic header", b[:nb], h.BasicHeader.Write)
		check("a message header", b[nb:nb+nm], h.MessageHeader.Write)
		if f != 3 && ext {
			check("an extended timestamp", b[nb+nm:], h.ExtendedTimestamp.Write)
		}
	}
}

// The two deviations from RTMP that the repository's tests pin down.
func headerRTMP() {
	// K-CSID63: what is written for 63 is not read back
	h, _ := mkHeader(2, 63, 5, 0, 0, 0, 0)
	b := encodeHeader(h)
	if d := hlib.BytesDiff([]byte{2<<6 | 63, 0, 0, 5}, b); d != "" {
		gomc.Fail("encoding chunk stream 63: %s", d)
	}
	g, n, err := decodeHeader(b, true)
	switch {
	case err == nil && n == len(b) && sameHeader(h, g, 2) == "":
	default: // the library takes 63 for the marker of the three byte form
		in := []byte{2<<6 | 63, 0x12, 0x34, 1, 2, 3}
		g, n, err := decodeHeader(in, true)
		if err != nil || n != 6 || g.BasicHeader.StreamId != 0x1234+64 || g.MessageHeader.Timestamp != 0x010203 {
			gomc.Fail("first byte 63 is decoded in an unknown way: %+v after %d bytes, %v", g, n, err)
		}
		gomc.Known("K-CSID63", "chunk stream 63 is written as the single byte 0x3f, which is read as the marker of a three-byte ID")
	}
	gomc.Count("evaluations", 2)
	// K-CSID3: the three byte form has marker 1 and is little endian in RTMP
	for _, c := range []uint32{320, 321, 575, 576, 1000, 65598, 65599} {
		for f := byte(0); f < 4; f++ {
			h, m := mkHeader(f, c, 5, 0, 6, 7, 8)
			b := encodeHeader(h)
			rb := hlib.RTMPBasic(f, c)
			lb := hlib.LibBasic(f, c)
			rest := refHeader(m, 6)[3:]
			switch {
			case bytes.Equal(b, append(append([]byte(nil), rb...), rest...)):
			case bytes.Equal(b, append(append([]byte(nil), lb...), rest...)):
				gomc.Known("K-CSID3", "chunk stream IDs from 320 to 65599 are written and read as 0x3f and two big-endian bytes instead of 1 and two little-endian bytes")
			default:
				gomc.Fail("chunk stream %d is encoded as % x", c, b)
			}
			gomc.Count("evaluations", 1)
		}
	}
}

func init() {
	R := gomc.Register
	R(gomc.Scenario{Prop: "C02", Name: "c02-fields", Tier: "quick",
		Bound: "22 boundary chunk streams x 4 header types x 14 write sizes x every length 0..260 x 8 timestamps",
		Opts:  gomc.Opts{Fixed: true, Shards: 22}, Body: writeFields()})
	R(gomc.Scenario{Prop: "C02", Name: "c02-sequences", Tier: "quick",
		Bound: "all sequences of 3 messages over chunk streams 2,70,400, lengths 0,1,3,4,7, with and without extended timestamp, with and without a change of the write size before each, 3 initial write sizes",
		Opts:  gomc.Opts{Fixed: true, Shards: 3}, Body: writeSeq(3)})
	R(gomc.Scenario{Prop: "C02", Name: "c02-sequences-deep", Tier: "thorough",
		Bound: "the same with 4 messages",
		Opts:  gomc.Opts{Fixed: true, Shards: 3}, Body: writeSeq(4)})
	R(gomc.Scenario{Prop: "C02", Name: "c02-again", Tier: "quick",
		Bound: "one object written 4 times, unchanged or with another payload, length, timestamp, type, message stream, chunk stream, extended timestamp or write size, changed in place or replaced; 4 write sizes, 4 lengths, with and without another message in between",
		Opts:  gomc.Opts{Fixed: true, Shards: 4}, Body: writeAgain})
	R(gomc.Scenario{Prop: "C02", Name: "c02-long", Tier: "quick",
		Bound: "payload lengths around multiples of the write size up to 1 MB x 11 write sizes, with and without extended timestamp",
		Opts:  gomc.Opts{Fixed: true, Shards: 15}, Body: writeLong(1 << 20)})
	R(gomc.Scenario{Prop: "C02", Name: "c02-longest", Tier: "thorough",
		Bound: "the same up to 0xffffff bytes",
		Opts:  gomc.Opts{Fixed: true, Shards: 16}, Body: writeLong(0xffffff)})
	R(gomc.Scenario{Prop: "C02", Name: "c02-errors", Tier: "quick",
		Bound: "the transport fails after every number of bytes of messages on 3 chunk streams with 5 lengths",
		Opts:  gomc.Opts{Fixed: true}, Body: writeErrors})
	R(gomc.Scenario{Prop: "C02", Name: "c02-rtmp-ids", Tier: "quick",
		Bound: "chunk streams 63, 320, 575, 65599 against the RTMP encoding", Opts: gomc.Opts{Fixed: true}, Body: write63})
	R(gomc.Scenario{Prop: "C03", Name: "c03-ids", Tier: "quick",
		Bound: "every chunk stream ID 2..65599 x 4 header types x plain and extended timestamp: encoding, decoding, exact consumption; truncation at every byte for IDs below 1500 and a sample of classes above",
		Opts:  gomc.Opts{Fixed: true, Shards: 8}, Body: headerIDs})
	R(gomc.Scenario{Prop: "C03", Name: "c03-fields", Tier: "quick",
		Bound: "every field of every header type: all powers of two and neighbours, byte values in every position (step 17), all 256 types, on 3 forms of chunk stream ID; truncation at every byte",
		Opts:  gomc.Opts{Fixed: true, Shards: 4}, Body: headerFields(false)})
	R(gomc.Scenario{Prop: "C03", Name: "c03-fields-deep", Tier: "quick",
		Bound: "every byte value in every position of every field of every header type",
		Opts:  gomc.Opts{Fixed: true, Shards: 4}, Body: headerFields(true)})
	R(gomc.Scenario{Prop: "C03", Name: "c03-all24", Tier: "quick",
		Bound: "all 2^24 timestamps and lengths for header types 0-2",
		Opts:  gomc.Opts{Fixed: true, Shards: 64}, Body: header24})
	R(gomc.Scenario{Prop: "C03", Name: "c03-write-errors", Tier: "quick",
		Bound: "the writer fails after every number of bytes of a header: 4 header types x 3 forms of chunk stream ID x with and without extended timestamp, whole headers and their parts",
		Opts:  gomc.Opts{Fixed: true, Shards: 4}, Body: headerWriteErrors})
	R(gomc.Scenario{Prop: "C03", Name: "c03-rtmp", Tier: "quick",
		Bound: "encoding prescribed by RTMP for chunk stream 63 and for 7 IDs of the three-byte form",
		Opts:  gomc.Opts{Fixed: true}, Body: headerRTMP})
}
