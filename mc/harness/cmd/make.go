package main

import (
	"bytes"
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"

	"verif/mc/gomc"
)

// C22: making messages.

var chunker = conn.NewChunker(conn.ChunkStreamId)

// makeMsg makes the message of an item.
func makeMsg(v any) (*chunk.Chunk, error) {
	switch x := v.(type) {
	case conn.Marshallable:
		return chunker.Chunk(x)
	case *stream.Status:
		return x.AsChunk()
	case data.Data:
		return x.Marshal()
	}
	gomc.Fail("unknown item %T", v)
	return nil, nil
}

// items are the kinds of things to send, with long and short fields.
func items() []func() outMsg {
	long := string(bytes.Repeat([]byte("y"), 90))
	return []func() outMsg{
		func() outMsg { return createResp(1, 2) },
		func() outMsg { return createResp(-7, 1<<40) },
		func() outMsg { return connectResp(3, "ok") },
		func() outMsg { return connectResp(4, long) },
		func() outMsg { return status("a") },
		func() outMsg { return status("NetStream.Play.Start") },
		func() outMsg { return status(long) },
		func() outMsg {
			return outMsg{send: stream.NewStatus(), want: wire{5, 0x14, 1, cat(aStr("onStatus"), aNum(0), aNull(), aObj())}}
		},
		func() outMsg { return frame("onMetaData", 1) },
		func() outMsg { return frame(long, 2) },
		func() outMsg { return audio(1, 0xaf, 1, 2) },
		func() outMsg { return badOuts(0, 1)[0] },
		func() outMsg { return badOuts(1, 1)[0] },
		func() outMsg { return badOuts(0, 1)[1] },
		func() outMsg { return badOuts(0, 1)[2] },
		func() outMsg { return badOuts(2, 1)[1] },
	}
}

// made checks a made message and returns its holder.
func made(m outMsg) *chunk.Chunk {
	c, err := makeMsg(m.send)
	if m.bad > 0 {
		if err == nil {
			gomc.Fail("an item that cannot be encoded became a message")
		}
		return nil
	}
	if err != nil {
		gomc.Fail("making a message of %T: %v", m.send, err)
	}
	if w := toWire(c); !w.eq(m.want) {
		gomc.Fail("%T became %v instead of %v", m.send, w, m.want)
	}
	return c
}

// scribble overwrites what belongs to a message, up to the capacity of its
// payload, and its header.
func scribble(c *chunk.Chunk) {
	d := c.Data[:cap(c.Data)]
	for i := range d {
		d[i] = 0xee
	}
	c.Header.BasicHeader.StreamId = 99
	c.Header.MessageHeader.TypeId = 99
	c.Header.MessageHeader.StreamId = 99
	c.Header.MessageHeader.Length = 99
}

// sequences: all sequences of n items; the messages are compared when made and
// again at the end, after the earlier ones have been written over.
func makeSeq(n int) func() {
	return func() {
		all := items()
		before := append([]byte(nil), stream.OnStatusCommandHeader[:len(stream.OnStatusCommandHeader):cap(stream.OnStatusCommandHeader)]...)
		overwrite := gomc.Choose(2, "write over earlier messages") == 1
		var ms []outMsg
		var cs []*chunk.Chunk
		for i := 0; i < n; i++ {
			m := all[gomc.Choose(len(all), "item")]()
			c := made(m)
			if c == nil {
				continue
			}
			ms, cs = append(ms, m), append(cs, c)
		}
		for i, c := range cs {
			if w := toWire(c); !w.eq(ms[i].want) {
				gomc.Fail("message %d of %d changed to %v after the later ones were made; it was %v", i+1, len(cs), w, ms[i].want)
			}
			if overwrite {
				if _, isAudio := ms[i].send.(*data.Audio); !isAudio {
					scribble(c)
				}
			}
		}
		// the items can be made into messages again
		for _, m := range ms {
			if _, isAudio := m.send.(*data.Audio); !isAudio || !overwrite {
				made(m)
			}
		}
		h := stream.OnStatusCommandHeader
		if !bytes.Equal(h, before) {
			gomc.Fail("OnStatusCommandHeader changed to % x", h)
		}
		gomc.Count("evaluations", int64(n))
	}
}

// spare: whatever spare capacity the shared header has, messages do not live
// in it.
func makeSpare() {
	extra := gomc.Choose(200, "spare capacity")
	h := stream.OnStatusCommandHeader
	n := make([]byte, len(h), len(h)+extra)
	copy(n, h)
	stream.OnStatusCommandHeader = n
	a, b := status("first"), status("2")
	ca, cb := made(a), made(b)
	if !toWire(ca).eq(a.want) || !toWire(cb).eq(b.want) {
		gomc.Fail("with %d bytes spare: % x and % x", extra, ca.Data, cb.Data)
	}
	full := n[:cap(n)]
	for i := len(h); i < len(full); i++ {
		if full[i] != 0 {
			gomc.Fail("a message was written behind the shared header")
		}
	}
	gomc.Count("evaluations", 2)
}

// concurrent: items made by several goroutines at once
func makeConc(per int, kinds ...int) func() {
	return func() {
		type res struct {
			m outMsg
			c *chunk.Chunk
		}
		all := items()
		got := make([][]res, len(kinds))
		for t, k := range kinds {
			gomc.Go("harness/maker", func() {
				for i := 0; i < per; i++ {
					m := all[(k+i)%len(all)]()
					c, err := makeMsg(m.send)
					if (err != nil) != (m.bad > 0) {
						gomc.Fail("making a message of %T: %v", m.send, err)
					}
					if c != nil && err == nil {
						got[t] = append(got[t], res{m, c})
					}
				}
			})
		}
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("stuck: %v", l)
		}
		n := 0
		for _, l := range got {
			for _, r := range l {
				if w := toWire(r.c); !w.eq(r.m.want) {
					gomc.Fail("%T became %v instead of %v", r.m.send, w, r.m.want)
				}
				n++
			}
		}
		gomc.Outcome(fmt.Sprint(n))
	}
}

func init() {
	R := gomc.Register
	fixed := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	race := gomc.Opts{Mem: true, RaceFails: true}
	R(gomc.Scenario{Prop: "C22", Name: "c22-seq", Tier: "quick", Opts: fixed(2), Body: makeSeq(3),
		Bound: "all sequences of 3 items of 16 kinds (5 cannot be encoded), kept and compared at the end, with or without writing over earlier messages"})
	R(gomc.Scenario{Prop: "C22", Name: "c22-seq5", Tier: "thorough", Opts: fixed(2), Body: makeSeq(5),
		Bound: "all sequences of 5 items of 16 kinds"})
	R(gomc.Scenario{Prop: "C22", Name: "c22-spare", Tier: "quick", Opts: fixed(8), Body: makeSpare,
		Bound: "two status messages with 0-199 bytes of spare capacity behind the shared header"})
	R(gomc.Scenario{Prop: "C22", Name: "c22-conc-status", Tier: "quick", Opts: race, Body: makeConc(2, 4, 5, 6),
		Bound: "3 goroutines making 2 items each, all schedules, races are violations"})
	R(gomc.Scenario{Prop: "C22", Name: "c22-conc-mixed", Tier: "quick", Opts: race, Body: makeConc(2, 0, 3, 9),
		Bound: "3 goroutines making 2 responses, frames and statuses each; all schedules"})
	R(gomc.Scenario{Prop: "C22", Name: "c22-conc-same", Tier: "quick", Opts: race, Body: makeConc(2, 8, 8, 2),
		Bound: "3 goroutines making 2 data frames or responses each; all schedules"})
}
