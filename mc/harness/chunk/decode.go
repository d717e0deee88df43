package main

import (
	"fmt"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

type event struct {
	csid uint32
	cont bool
	f    byte
	n    int
}

// nextEvent lets the explorer pick the next chunk of a well-formed stream.
func nextEvent(g *hlib.Gen, csids []uint32, lens []int) event {
	var l []event
	for _, c := range csids {
		if g.Busy(c) {
			l = append(l, event{csid: c, cont: true})
			continue
		}
		for _, n := range lens {
			l = append(l, event{c, false, 0, n})
		}
		if g.HasHeader(c) {
			for _, n := range lens {
				l = append(l, event{c, false, 1, n})
			}
			l = append(l, event{c, false, 2, 0}, event{c, false, 3, 0})
		}
	}
	e := pick("next chunk", l...)
	if e.cont {
		g.Cont(e.csid)
	} else {
		g.StartN(e.f, e.csid, e.n)
	}
	return e
}

func structure(csids []uint32, lens []int, size, depth int) func() {
	return func() {
		g := hlib.NewGen(size)
		for i := 0; i < depth; i++ {
			nextEvent(g, csids, lens)
		}
		res := decode(&hlib.Src{Data: g.Out}, size, nil)
		expect(g, res, "decoding")
		gomc.Outcome(fmt.Sprint(len(res.msgs), " messages"))
	}
}

func fields(deep bool) func() {
	return func() { fieldsBody(deep) }
}

func fieldsBody(deep bool) {
	// one full header, then a second header of every type on the same or
	// another chunk stream, then a third: all boundary values of all fields
	csids := []uint32{2, 3, 62, 64, 65, 319, 320, 321, 575, 576, 65598, 65599}
	ts := [][2]uint32{{0, 0}, {1, 0}, {0x7fffff, 0}, {0x800000, 0}, {0x00ff01, 0}, {0xfffffe, 0},
		{0xffffff, 0xffffff}, {0xffffff, 0x1000000}, {0xffffff, 0xffffffff}, {0xffffff, 0x12345678}, {0xffffff, 0}}
	sids := []uint32{0, 1, 0x01020304, 0x80000000, 0xffffffff}
	types := []byte{0, 2, 3, 8, 9, 0x14, 0x7f, 0x80, 0xff}
	if !deep {
		csids = []uint32{2, 62, 64, 319, 320, 65599}
	}
	c := pick("chunk stream", csids...)
	other := uint32(5)
	nts := len(ts)
	if !deep {
		nts = 8 // first header; the second one takes them all
	}
	t := ts[gomc.Choose(nts, "timestamp")]
	k := gomc.Choose(len(types), "type")
	typ := types[k]
	sid := sids[k%len(sids)]
	if deep {
		sid = pick("message stream", sids...)
	}
	size := 4
	n := pick("length", 0, 1, 4, 9)
	f2 := byte(gomc.Choose(4, "second header type"))
	t2 := ts[0]
	if f2 != 3 {
		t2 = ts[gomc.Choose(len(ts), "second timestamp")]
	}
	between := gomc.Choose(2, "other chunk stream in between") == 1
	g := hlib.NewGen(size)
	g.Whole(0, c, t[0], t[1], typ, sid, hlib.Pattern(1, n))
	if between {
		g.Whole(0, other, 77, 0, 9, 0x0a0b0c0d, hlib.Pattern(9, 3))
	}
	n2 := n
	if f2 < 2 {
		n2 = 9 - n
	}
	ext2 := t2[1]
	if f2 == 3 {
		ext2 = t[1]
	}
	g.Whole(f2, c, t2[0], ext2, typ^1|2, sid+1, hlib.Pattern(2, n2))
	g.Whole(3, c, 0, ext2, 0, 0, hlib.Pattern(3, n2))
	if between {
		g.Whole(3, other, 0, 0, 0, 0, hlib.Pattern(4, 3))
	}
	expect(g, decode(&hlib.Src{Data: g.Out}, size, nil), "decoding")
}

// every chunk stream ID and every type once
func allIDs() {
	part := gomc.Choose(64, "part")
	for base := part * 1025; base < (part+1)*1025; base += 25 {
		g := hlib.NewGen(128)
		for k := 0; k < 25; k++ {
			c := uint32(base + k + 2)
			if c > 65599 || c == 63 {
				continue
			}
			g.WholeN(0, c, 3)
			g.WholeN(byte(1+k%3), c, 3)
		}
		gomc.Count("beat", 1)
		expect(g, decode(&hlib.Src{Data: g.Out}, 128, nil), "decoding every chunk stream ID")
	}
	if part == 0 {
		for t := 0; t < 256; t++ {
			if t == 1 {
				continue
			}
			g := hlib.NewGen(128)
			g.Whole(0, 7, 5, 0, byte(t), 1, hlib.Pattern(t, 6))
			g.Whole(1, 7, 5, 0, byte(255-t)|2, 1, hlib.Pattern(t, 4))
			expect(g, decode(&hlib.Src{Data: g.Out}, 128, nil), "decoding every type")
		}
	}
}

func bigPayloads(maxLen, maxChunks int) func() {
	return func() {
		all := []int{126, 127, 128, 129, 255, 256, 257, 383, 384, 385, 4095, 4096, 4097, 65535, 65536, 65537, 131072, 131073, 1 << 20, 0xfffffe, 0xffffff}
		var lens []int
		for _, n := range all {
			if n <= maxLen {
				lens = append(lens, n)
			}
		}
		n := pick("length", lens...)
		size := pick("chunk size", 1, 2, 127, 128, 129, 4096, 65535, 65536, 65537, 0xffffff, 0x7fffffff)
		if n/size > maxChunks {
			return
		}
		mode := gomc.Choose(3, "mode")
		g := hlib.NewGen(size)
		switch mode {
		case 0: // two in a row, the second with an inherited length
			g.WholeN(0, 4, n)
			g.WholeN(2, 4, 0)
		case 1: // interleaved chunk by chunk with another long message
			g.StartN(0, 4, n)
			g.StartN(0, 66, n-1)
			for g.Busy(4) || g.Busy(66) {
				if g.Busy(4) {
					g.Cont(4)
				}
				if g.Busy(66) {
					g.Cont(66)
				}
			}
		case 2: // short messages between every two chunks, at most 200 of them
			g.StartN(0, 4, n)
			for i := 0; g.Busy(4); i++ {
				if i < 200 {
					g.WholeN(0, 3, i%5)
				}
				g.Cont(4)
			}
		}
		expect(g, decode(&hlib.Src{Data: g.Out}, size, nil), "decoding long messages")
	}
}

// chunk stream IDs encoded as RTMP prescribes where the library differs
func rtmpIDs() {
	for _, c := range []uint32{63, 320, 575, 65599} {
		hlib.Basic = hlib.RTMPBasic
		g := hlib.NewGen(128)
		g.WholeN(0, c, 5)
		hlib.Basic = hlib.LibBasic
		res := decode(&hlib.Src{Data: g.Out}, 128, nil)
		gomc.Count("evaluations", 1)
		d := hlib.SeqDiff(g.Want, res.msgs)
		switch {
		case d == "":
		case len(res.msgs) > 0:
			gomc.Fail("chunk stream %d in RTMP's encoding: %s", c, d)
		case c == 63:
			// known: taken for the marker of the three-byte form; the same
			// bytes with two bytes put in are understood
			b := append([]byte{0x3f, 0, 1}, g.Out[1:]...)
			r2 := decode(&hlib.Src{Data: b}, 128, nil)
			if len(r2.msgs) != 1 || r2.msgs[0].CSID != 65 {
				gomc.Fail("chunk stream 63 in RTMP's encoding: %s", d)
			}
			gomc.Known("K-CSID63", "the first byte 0x3f (chunk stream 63) is read as the marker of a three-byte ID, so messages on it are not understood")
		default:
			// known: marker 1 is read as chunk stream 1
			gomc.Known("K-CSID3", "the first byte 1 (three-byte ID) is read as chunk stream 1, so messages RTMP peers send on chunk streams 320 to 65599 are not understood")
		}
	}
}

func init() {
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-rtmp-ids", Tier: "quick",
		Bound: "chunk streams 63, 320, 575, 65599 in RTMP's encoding",
		Opts:  gomc.Opts{Fixed: true}, Body: rtmpIDs})
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-structure", Tier: "quick",
		Bound: "all sequences of 5 chunk events (start of a message with header type 0-3 and length 0,1,2,3,5, or next chunk) on chunk streams 3 and 64, chunk size 2",
		Opts:  gomc.Opts{Fixed: true, Shards: 10}, Body: structure([]uint32{3, 64}, []int{0, 1, 2, 3, 5}, 2, 5)})
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-structure3", Tier: "quick",
		Bound: "all sequences of 5 chunk events (start with header type 0-3, length 0 or 3, or next chunk) on chunk streams 2, 70 and 400, chunk size 2",
		Opts:  gomc.Opts{Fixed: true, Shards: 6}, Body: structure([]uint32{2, 70, 400}, []int{0, 3}, 2, 5)})
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-structure-deep", Tier: "thorough",
		Bound: "all sequences of 6 chunk events on chunk streams 3 and 64, lengths 0,1,2,3,5, chunk size 2",
		Opts:  gomc.Opts{Fixed: true, Shards: 10}, Body: structure([]uint32{3, 64}, []int{0, 1, 2, 3, 5}, 2, 6)})
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-structure3-deep", Tier: "thorough",
		Bound: "all sequences of 7 chunk events on chunk streams 2, 70 and 400, lengths 0 and 3, chunk size 2",
		Opts:  gomc.Opts{Fixed: true, Shards: 6}, Body: structure([]uint32{2, 70, 400}, []int{0, 3}, 2, 7)})
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-fields", Tier: "quick",
		Bound: "boundary values of every header field: 6 chunk streams x 8 timestamps x 9 types and message streams, each followed by a header of every type with 11 timestamps, same or alternating chunk stream, lengths 0,1,4,9",
		Opts:  gomc.Opts{Fixed: true, Shards: 12}, Body: fields(false)})
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-fields-deep", Tier: "quick",
		Bound: "boundary values of every header field: 12 chunk streams x 11 timestamps x 5 message streams x 9 types, each followed by a header of every type with 11 timestamps, same or alternating chunk stream, lengths 0,1,4,9",
		Opts:  gomc.Opts{Fixed: true, Shards: 12}, Body: fields(true)})
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-ids", Tier: "quick",
		Bound: "every chunk stream ID 2..65599 (63 excepted) with a type 0 header and one of types 1-3; every message type",
		Opts:  gomc.Opts{Fixed: true, Shards: 8}, Body: allIDs})
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-long", Tier: "quick",
		Bound: "payload lengths around multiples of the chunk size up to 131073, 11 chunk sizes, in a row / interleaved / with short messages in between",
		Opts:  gomc.Opts{Fixed: true, Shards: 9}, Body: bigPayloads(131073, 5000)})
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-longest", Tier: "quick",
		Bound: "payload lengths up to 0xffffff, 11 chunk sizes",
		Opts:  gomc.Opts{Fixed: true, Shards: 21, Horizon: 20000000}, Body: bigPayloads(0xffffff, 140000)})
}
