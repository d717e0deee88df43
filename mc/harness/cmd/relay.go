package main

import (
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/data"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// relayFrames: frames from a chunk stream, read, marshalled, written and read
// again by the reference decoder.
func relayFrames() {
	g := hlib.NewGen(128)
	f := byte(0)
	var typs []byte
	for i := 0; i < 4; i++ {
		if i > 0 {
			f = byte(gomc.Choose(4, "header type"))
		}
		n := g.LastLen(4)
		typ := g.LastType(4)
		if f < 2 {
			typ = pick("type", byte(8), 9)
			n = pick("length", 1, 3, 130)
		}
		ts, ext := uint32(i), uint32(0)
		if f == 0 && i > 0 && n == 3 {
			ts, ext = 0xffffff, 0x1000000
		}
		if f == 3 && len(g.Want) > 0 {
			ext = g.Want[len(g.Want)-1].Ext
		}
		g.Whole(f, 4, ts, ext, typ, 1, hlib.Pattern(i, n))
		typs = append(typs, typ)
	}
	r := chunk.NewReader(&hlib.Src{Data: g.Out}, 128, chunk.NewNormalizer())
	gomc.Go("harness/read", r.Recv)
	var frames []data.Data
loop:
	for {
		select {
		case c := <-r.Chunks():
			d, err := parse(c)
			if err != nil {
				gomc.Fail("a frame was refused: %v", err)
			}
			frames = append(frames, d)
		case <-r.Errs():
			break loop
		}
	}
	r.Close()
	dst := hlib.NewDst()
	w := chunk.NewWriter(dst, 100)
	for i, d := range frames {
		m := g.Want[i]
		checkFrame(d, typs[i], m.Data[0], m.Data[1:])
		c, err := d.Marshal()
		if err != nil {
			gomc.Fail("marshalling: %v", err)
		}
		if err := w.Write(c); err != nil {
			gomc.Fail("writing: %v", err)
		}
	}
	d := hlib.Decode(dst.Data, 100, false)
	if d.Err != nil || d.Rest != 0 || d.Partial {
		gomc.Fail("frames that were read, marshalled and written make a stream no decoder understands: err=%v rest=%d partial=%v", d.Err, d.Rest, d.Partial)
	}
	if df := hlib.SeqDiff(g.Want, d.Msgs); df != "" {
		gomc.Fail("frames that were read, marshalled and written: %s", df)
	}
	gomc.Count("evaluations", int64(len(frames)))
}

func init() {
	gomc.Register(gomc.Scenario{Prop: "C21", Name: "c21-relay", Tier: "quick",
		Bound: "all sequences of 4 audio or video messages of every header type after a full one, lengths 1, 3 and 130, with and without extended timestamps: read from a chunk stream, marshalled, written and decoded by the reference",
		Opts:  gomc.Opts{Fixed: true, Shards: 4}, Body: relayFrames})
}
