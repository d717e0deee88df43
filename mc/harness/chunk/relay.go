package main

import (
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// Messages that were read and are written on: what comes out, decoded by the
// reference, must be what went in.
func relayed(g *hlib.Gen, size, wsize int) {
	res := decode(&hlib.Src{Data: g.Out}, size, nil)
	dst := hlib.NewDst()
	w := chunk.NewWriter(dst, wsize)
	for i, c := range res.chunks {
		if err := w.Write(c); err != nil {
			gomc.Fail("writing on message %d failed: %v", i+1, err)
		}
		if d := hlib.Diff(res.msgs[i], toMsg(c)); d != "" {
			gomc.Fail("writing on message %d changed it: %s", i+1, d)
		}
	}
	d := hlib.Decode(dst.Data, wsize, false)
	if d.Err != nil || d.Rest != 0 || d.Partial {
		gomc.Fail("messages that were read and written on make a stream no decoder understands: err=%v rest=%d partial=%v; read %s, written %s", d.Err, d.Rest, d.Partial, clipBytes(g.Out), clipBytes(dst.Data))
	}
	if df := hlib.SeqDiff(g.Want, d.Msgs); df != "" {
		gomc.Fail("messages that were read and written on: %s; read %s, written %s", df, clipBytes(g.Out), clipBytes(dst.Data))
	}
	gomc.Count("evaluations", 1)
	gomc.Count("messages", int64(len(d.Msgs)))
}

func relay(csids []uint32, lens []int, depth int) func() {
	return func() {
		sizes := pick("chunk sizes", [2]int{2, 2}, [2]int{2, 128}, [2]int{128, 2}, [2]int{3, 1})
		g := hlib.NewGen(sizes[0])
		for i := 0; i < depth; i++ {
			nextEvent(g, csids, lens)
		}
		g.Finish()
		relayed(g, sizes[0], sizes[1])
		gomc.Outcome(fmt.Sprint(len(g.Want), " messages"))
	}
}

// all header types after one another, with and without extended timestamps
func relayFields() {
	c := pick("chunk stream", uint32(2), 3, 62, 64, 319, 320, 65599)
	ts := [][2]uint32{{0, 0}, {5, 0}, {0xfffffe, 0}, {0xffffff, 0xffffff}, {0xffffff, 0x01000000}, {0xffffff, 0xffffffff}}
	size := pick("chunk size", 1, 4, 128)
	n := pick("length", 0, 1, 4, 9)
	t := ts[gomc.Choose(len(ts), "timestamp")]
	t2 := ts[gomc.Choose(len(ts), "second timestamp")]
	for f := 0; f < 16; f++ {
		g := hlib.NewGen(size)
		g.Whole(0, c, t[0], t[1], 9, 1, hlib.Pattern(1, n))
		ext := t[1]
		for _, h := range []byte{byte(f % 4), byte(f / 4), 3} {
			l := g.LastLen(c)
			if h < 3 {
				ext = t2[1]
			}
			if h < 2 {
				l = n + 1
			}
			g.Whole(h, c, t2[0], ext, 8+h, 2+uint32(h), hlib.Pattern(int(h), l))
		}
		relayed(g, size, 5-size%5)
	}
}

func init() {
	fixed := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	gomc.Register(gomc.Scenario{Prop: "C02", Name: "c02-relay", Tier: "quick",
		Bound: "every well-formed stream of 4 chunks and the rest of their messages on 2 chunk streams (all header types, lengths 0, 1, 3), read and written on with 4 pairs of chunk sizes, decoded by the reference",
		Opts:  fixed(4), Body: relay([]uint32{3, 64}, []int{0, 1, 3}, 4)})
	gomc.Register(gomc.Scenario{Prop: "C02", Name: "c02-relay-deep", Tier: "quick",
		Bound: "as c02-relay, 5 chunks",
		Opts:  fixed(4), Body: relay([]uint32{3, 64}, []int{0, 1, 3}, 5)})
	gomc.Register(gomc.Scenario{Prop: "C02", Name: "c02-relay-fields", Tier: "quick",
		Bound: "messages of all sequences of 3 header types after a full one, 6 timestamps each, 4 lengths, 7 chunk streams, 3 chunk sizes, read and written on, decoded by the reference",
		Opts:  fixed(7), Body: relayFields})
}
