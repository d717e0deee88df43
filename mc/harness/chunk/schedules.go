package main

import (
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// The input properties under every schedule: small inputs of each kind, so
// that nothing depends on who runs first when the code under test works in
// goroutines of its own.

func schedDecode(w int) func() {
	return func() {
		g := session(w)
		src := &hlib.Src{Data: g.Out}
		res := decode(src, initial(w), nil)
		expect(g, res, "decoding")
		gomc.Outcome(fmt.Sprint(len(res.msgs)))
	}
}

// readers that keep what they are handed while more arrives
func schedKeep() {
	g := hlib.NewGen(2)
	g.Start(0, 3, 5, 0, 8, 1, []byte{1, 2, 3})
	g.Whole(0, 70, 6, 0, 9, 1, []byte{4, 5, 6, 7})
	g.Finish()
	g.Whole(1, 3, 0xffffff, 0x01020304, 9, 0, []byte{8})
	g.Whole(2, 70, 7, 0, 0, 0, []byte{9, 10, 11, 12})
	expect(g, decode(&hlib.Src{Data: g.Out}, 2, nil), "decoding")
}

// reads of one byte, or of all but one
func schedFrag(w int) func() {
	return func() {
		g := session(w)
		src := &hlib.Src{Data: g.Out}
		src.WithLast = gomc.Choose(2, "end of file with the last bytes") == 1
		k := gomc.Choose(3, "fragmentation")
		n := 0
		src.Frag = func(want int) (int, bool) {
			n++
			switch k {
			case 0:
				return 1, false
			case 1:
				return want - (want+1)/3, n%4 == 1
			}
			return want, n%2 == 0
		}
		var d int
		watch(g, src, &d)
		expect(g, decode(src, initial(w), func(k int) { d = k }), "decoding with fragmented reads")
	}
}

func schedSizes() {
	g := hlib.NewGen(2)
	v := pick("size", uint32(1), 3, 128)
	form := gomc.Choose(3, "form")
	g.StartN(0, 70, 7)
	switch form {
	case 0: // in two chunks around one of another message
		g.Start(0, 2, 0, 0, 1, 0, hlib.U32(v))
		g.Cont(70)
		g.Cont(2)
	case 1: // twice
		g.Whole(0, 2, 0, 0, 1, 0, hlib.U32(v))
		g.Whole(3, 2, 0, 0, 0, 0, hlib.U32(v+1))
	case 2: // too short, then good
		g.Whole(0, 2, 0, 0, 1, 0, hlib.U32(v)[:3])
		g.Whole(1, 2, 0, 0, 1, 0, hlib.U32(v))
	}
	g.Cont(70)
	g.WholeN(0, 3, 4)
	g.Finish()
	res := decode(&hlib.Src{Data: g.Out}, 2, nil)
	expect(g, res, "decoding with changes of the chunk size")
	if res.size != g.Size {
		gomc.Fail("the read size is %d after the sizes announced; it should be %d", res.size, g.Size)
	}
}

func schedFailures() {
	g := hlib.NewGen(2)
	g.Start(0, 3, 0xffffff, 0x01020304, 8, 1, []byte{1, 2, 3})
	g.Whole(0, 70, 6, 0, 9, 1, []byte{4})
	g.Finish()
	cut := gomc.Choose(len(g.Out)+1, "bytes before the failure")
	kind := gomc.Choose(6, "kind of failure")
	if cut == 0 && (kind == 1 || kind == 3) {
		return
	}
	failAt(g, 2, cut, kind)
}

func schedHostile() {
	g := hlib.NewGen(2)
	g.Whole(0, 2, 0, 0, 1, 0, []byte{0, 0, 0, 3})
	g.Whole(0, 3, 0, 0, 8, 1, []byte{1, 2})
	i := gomc.Choose(len(g.Out), "position")
	b := append([]byte(nil), g.Out...)
	v := pick("value", -1, 0, 1, 2, 3, 0x3f, 0x40, 0x83, 0xc3, 0xff)
	if v < 0 {
		b = b[:i]
	} else {
		b[i] = byte(v)
	}
	hostile(b, 2)
}

func schedWrite() {
	size := pick("write size", 1, 2, 128)
	dst := hlib.NewDst()
	w := chunk.NewWriter(dst, size)
	msgs := []hlib.Msg{
		{CSID: 3, TS: 1, Type: 8, SID: 1, Data: []byte{1, 2, 3, 4, 5}},
		{CSID: 70, TS: 0xffffff, Ext: 0x01020304, Type: 9, SID: 1, Data: []byte{6, 7, 8}},
		{CSID: 3, TS: 2, Type: 8, SID: 1, Data: nil},
	}
	for _, m := range msgs {
		writeOne(w, dst, m, size)
	}
	whole := len(dst.Data) + len(wireForm(msgs[1], size))
	dst.Max = len(dst.Data) + gomc.Choose(20, "bytes before the failure")
	if err := w.Write(fromMsg(msgs[1])); (err != nil) != (dst.Max < whole) {
		gomc.Fail("the transport takes %d of %d bytes and Write returns %v", dst.Max, whole, err)
	}
}

func schedHeader() {
	f := byte(gomc.Choose(4, "header type"))
	csid := pick("chunk stream", uint32(3), 70, 400)
	ext := uint32(gomc.Choose(2, "extended")) * 0x01020304
	ts := uint32(5)
	if ext != 0 {
		ts = 0xffffff
	}
	header(f, csid, ts, ext, 7, 9, 1, true)
}

func init() {
	R := gomc.Register
	M := gomc.Opts{Mem: true}
	for w := 0; w < nSessions; w++ {
		R(gomc.Scenario{Prop: "C01", Name: fmt.Sprintf("c01-schedules-%d", w), Tier: "quick", Opts: M, Body: schedDecode(w),
			Bound: fmt.Sprintf("all schedules: session %d read and delivered", w)})
		R(gomc.Scenario{Prop: "C04", Name: fmt.Sprintf("c04-schedules-%d", w), Tier: "quick", Opts: M, Body: schedFrag(w),
			Bound: fmt.Sprintf("all schedules: session %d, 3 fragmentations, end of file alone or with the last bytes", w)})
	}
	R(gomc.Scenario{Prop: "C01", Name: "c01-schedules-keep", Tier: "quick", Opts: M, Body: schedKeep,
		Bound: "all schedules: 4 interleaved messages, all kept"})
	for _, d := range []int{4, 5} {
		tier := map[int]string{4: "quick", 5: "thorough"}[d]
		R(gomc.Scenario{Prop: "C01", Name: fmt.Sprintf("c01-structure-schedules-%d", d), Tier: tier, Opts: gomc.Opts{Mem: true, Shards: 6}, Body: structure([]uint32{3, 64}, []int{0, 1, 3}, 2, d),
			Bound: fmt.Sprintf("all schedules of all sequences of %d chunk events on chunk streams 3 and 64, lengths 0, 1, 3, chunk size 2", d)})
		R(gomc.Scenario{Prop: "C05", Name: fmt.Sprintf("c05-sizes-schedules-%d", d), Tier: tier, Opts: gomc.Opts{Mem: true, Shards: 10}, Body: chunkSizes(d, false),
			Bound: fmt.Sprintf("all schedules of all sequences of %d chunk events with changes of the chunk size", d)})
		R(gomc.Scenario{Prop: "C06", Name: fmt.Sprintf("c06-failures-schedules-%d", d-1), Tier: tier, Opts: gomc.Opts{Mem: true, Shards: 4}, Body: failures(d-1, []uint32{3, 70}, []int{0, 3}),
			Bound: fmt.Sprintf("all schedules of all sequences of %d chunk events cut off after every byte in 6 ways", d-1)})
	}
	R(gomc.Scenario{Prop: "C05", Name: "c05-schedules", Tier: "quick", Opts: M, Body: schedSizes,
		Bound: "all schedules: a change of the chunk size to 1, 3 or 128 in the middle of a message, in 3 forms"})
	R(gomc.Scenario{Prop: "C06", Name: "c06-schedules", Tier: "quick", Opts: M, Body: schedFailures,
		Bound: "all schedules: two interleaved messages, failure after every byte, 6 kinds of failure"})
	R(gomc.Scenario{Prop: "C07", Name: "c07-reader-schedules", Tier: "quick", Opts: M, Body: schedHostile,
		Bound: "all schedules: a Set Chunk Size and another message, any byte replaced by one of 9 values or the end there"})
	R(gomc.Scenario{Prop: "C02", Name: "c02-schedules", Tier: "quick", Opts: M, Body: schedWrite,
		Bound: "all schedules: 4 messages, 3 write sizes, the transport failing at any byte of the last"})
	R(gomc.Scenario{Prop: "C03", Name: "c03-schedules", Tier: "quick", Opts: M, Body: schedHeader,
		Bound: "all schedules: every kind of header, complete and truncated"})
}
