package main

import (
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// big chunk sizes: messages around every size that might be the limit of some
// buffer, in chunks as large as the peer announces.
var bigSizes = []int{128, 1000, 4096, 4097, 32768, 65535, 65536, 65537, 100000, 1 << 20, 0xffffff, 0x7fffffff}

var bigLens = []int{511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 131073, 200000}

func announce(g *hlib.Gen, size int) {
	g.Whole(0, 2, 0, 0, 1, 0, hlib.U32(uint32(size)))
}

// bigStream: an announced size, messages of the given length, small ones in
// between and another one in progress all the time.
func bigStream(size, l int) *hlib.Gen {
	g := hlib.NewGen(128)
	g.StartN(0, 5, 300)
	if size != 128 {
		announce(g, size)
	}
	g.WholeN(0, 3, l)
	g.WholeN(1, 3, 1)
	g.Cont(5)
	g.WholeN(1, 3, l)
	g.WholeN(0, 4, 0)
	g.WholeN(0, 400, l+1)
	g.WholeN(3, 4, 0)
	g.Finish()
	return g
}

func fragmentBig() {
	l := pick("length", bigLens...)
	size := pick("chunk size", bigSizes...)
	frag := pick("reads of", 1, 1000, 1460, 4096, 5000, 65536, 0)
	if frag == 1 && l > 9000 {
		frag = 3
	}
	g := bigStream(size, l)
	src := &hlib.Src{Data: g.Out, WithLast: frag == 1460}
	k := 0
	src.Frag = func(want int) (int, bool) {
		k++
		if k%50 == 49 {
			return 0, true
		}
		switch {
		case frag == 0 && want > 1: // all but the last byte
			return want - 1, false
		case frag > 0 && want > frag:
			return frag, false
		}
		return want, false
	}
	var n int
	watch(g, src, &n)
	res := decode(src, 128, func(k int) { n = k })
	expect(g, res, fmt.Sprintf("chunks of up to %d bytes in small reads", size))
	if res.size != g.Size {
		gomc.Fail("the chunk size at the end is %d instead of %d", res.size, g.Size)
	}
}

// the transport fails inside big chunks
func failBig() {
	l := pick("length", bigLens...)
	size := pick("chunk size", 4096, 65536, 0xffffff)
	g := bigStream(size, l)
	for _, back := range []int{1, 2, 100, 511, 4095, 4096, 4097, 32768, 65535, 65536} {
		for _, end := range g.Ends {
			cut := end - back
			if cut <= 0 {
				continue
			}
			failAt(g, 128, cut, 0)
		}
		gomc.Count("beat", 1)
	}
}

// what is written with big sizes, and that the caller's message stays as it is
// whatever its header says
func writeBig() {
	l := pick("length", bigLens...)
	size := pick("write size", bigSizes...)
	dst := hlib.NewDst()
	w := chunk.NewWriter(dst, size)
	for i, m := range []hlib.Msg{wm(3, 1, l), wm(70, 2, l+1), wm(400, 3, 1), wm(3, 4, 2*l)} {
		if i > 1 {
			m.TS, m.Ext = 0xffffff, 0x01020304
		}
		writeOne(w, dst, m, size)
	}
	gomc.Count("evaluations", 1)
}

// a header that announces another length than the message has: what is written
// is the header as given, and the message stays as it is
func writeOddLength() {
	f := byte(gomc.Choose(4, "header type"))
	for _, announced := range []uint32{0, 1, 5, 300, 0xffffff} {
		for _, l := range []int{0, 1, 5, 129} {
			for _, typ := range []byte{0, 9} {
				m := wm(3, 1, l)
				m.Fmt, m.Type = f, typ
				c := fromMsg(m)
				c.Header.MessageHeader.Length = announced
				h := *c.Header
				dst := hlib.NewDst()
				if err := chunk.NewWriter(dst, 128).Write(c); err != nil {
					gomc.Fail("Write: %v", err)
				}
				if *c.Header != h || hlib.BytesDiff(m.Data, c.Data) != "" {
					gomc.Fail("writing a message of %d bytes whose header announces %d changed it to %+v", l, announced, c.Header)
				}
				gomc.Count("evaluations", 1)
			}
		}
	}
}

// groups of up to 7 chunk streams of which one has been handed out
func refusedGroups() {
	n := 2 + gomc.Choose(6, "group of")
	taken := gomc.Choose(n, "the one handed out")
	how := gomc.Choose(3, "how it was handed out")
	var ids []uint32
	for i := 0; i < n; i++ {
		ids = append(ids, uint32(3+i))
	}
	var items []any
	for k := 1; k <= 2; k++ {
		for _, id := range ids {
			items = append(items, msg(id, k))
		}
	}
	p := chunk.NewParser(newScript(items...))
	var asks [][]uint32
	var sinks []*sink
	ask := func(l ...uint32) {
		s, err := p.Stream(l...)
		if err != nil {
			gomc.Fail("asking for %v after a group was refused: %v", l, err)
		}
		k := &sink{}
		asks, sinks = append(asks, l), append(sinks, k)
		go drain(s, k)
	}
	if how == 1 {
		ask(ids[taken], 60)
	} else {
		ask(ids[taken])
	}
	if _, err := p.Stream(ids...); err == nil {
		gomc.Fail("a group of %v is not refused although %d was handed out", ids, ids[taken])
	}
	if how == 2 { // the others as a group, or one by one
		var rest []uint32
		for i, id := range ids {
			if i != taken {
				rest = append(rest, id)
			}
		}
		ask(rest...)
	} else {
		for i, id := range ids {
			if i != taken {
				ask(id)
			}
		}
	}
	es := &sink{}
	go p.Recv()
	go drainErrs(p, es)
	gomc.Quiesce()
	checkSinks(items, asks, sinks, es)
	gomc.Count("evaluations", 1)
}

func init() {
	R := gomc.Register
	F := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	sizes := fmt.Sprintf("%d lengths (511 to 200001) x %d chunk sizes (128 to 0x7fffffff)", len(bigLens), len(bigSizes))
	R(gomc.Scenario{Prop: "C04", Name: "c04-big", Tier: "quick", Opts: F(len(bigLens)), Body: fragmentBig,
		Bound: sizes + " announced by the peer x 7 sizes of reads"})
	R(gomc.Scenario{Prop: "C06", Name: "c06-big", Tier: "quick", Opts: F(len(bigLens)), Body: failBig,
		Bound: fmt.Sprintf("%d lengths x chunk sizes 4096, 65536 and 0xffffff, failure 1 to 65536 bytes before the end of every message", len(bigLens))})
	R(gomc.Scenario{Prop: "C02", Name: "c02-big", Tier: "quick", Opts: F(len(bigLens)), Body: writeBig,
		Bound: sizes + ", 4 messages each"})
	R(gomc.Scenario{Prop: "C02", Name: "c02-odd-length", Tier: "quick", Opts: F(4), Body: writeOddLength,
		Bound: "messages whose header announces another length than they have are left as they are"})
	R(gomc.Scenario{Prop: "C08", Name: "c08-refused", Tier: "quick", Opts: F(6), Body: refusedGroups,
		Bound: "groups of 2 to 7 chunk streams of which any one was handed out (alone or in a group); the others asked for afterwards"})
	R(gomc.Scenario{Prop: "C08", Name: "c08-repeated", Tier: "quick", Opts: F(12), Body: failRepeated,
		Bound: "1-12 failures of the transport of one kind (5 kinds), each reported once; reader alone and with a parser"})
}
