package main

import (
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// Messages whose type, chunk stream or payload might be taken for something
// about another chunk stream, on which a message is in progress. (Types 1 and
// 2, which do say something about the chunk streams, are left out.)
func crossTalk() {
	typ := byte(gomc.Choose(256, "type"))
	if typ == 1 || typ == 2 {
		return
	}
	for _, size := range []int{2, 128} {
		for _, on := range []uint32{2, 3, 64, 320, 65599} {
			for _, about := range []uint32{2, 3, 5, 70, 400, 65598} {
				if on == about {
					continue
				}
				le := []byte{byte(about), byte(about >> 8), byte(about >> 16), byte(about >> 24)}
				for i, p := range [][]byte{hlib.U32(about), le, append(hlib.U32(about), 2), append([]byte{0, byte(typ)}, hlib.U32(about)...), {}} {
					g := hlib.NewGen(size)
					g.WholeN(0, about, 5)
					g.StartN(byte(i%2), about, 3*size)
					sid := uint32(0)
					if i == 2 {
						sid = about
					}
					g.Whole(0, on, about, 0, typ, sid, p)
					g.Cont(about)
					g.Whole(1, on, about, 0, typ, sid, p)
					g.Finish()
					g.WholeN(3, about, 0)
					g.WholeN(2, about, 0)
					expect(g, decode(&hlib.Src{Data: g.Out}, size, nil), "decoding messages that mention another chunk stream")
				}
			}
		}
		gomc.Count("beat", 1)
	}
}

// untaken: as long as a message of a source has not been taken, the merged
// stream has not ended.
func untaken() {
	counts := pick("messages", []int{1}, []int{2}, []int{1, 1}, []int{2, 0}, []int{1, 0, 1})
	total := 0
	for _, n := range counts {
		total += n
	}
	k := gomc.Choose(total, "taken")
	m := chunk.NewMultiStream()
	var want [][]string
	for i, n := range counts {
		s := &source{make(chan *chunk.Chunk)}
		m.Append(s)
		var w []string
		for j := 1; j <= n; j++ {
			w = append(w, fmt.Sprintf("%d.%d", i+1, j))
		}
		want = append(want, w)
		gomc.Go("harness/source", func() {
			for j := 1; j <= n; j++ {
				s.ch <- msg(uint32(i+1), j)
			}
			close(s.ch)
		})
	}
	waited := false
	gomc.Go("harness/wait", func() { m.AwaitClose(); waited = true })
	s := &sink{}
	for i := 0; i < k; i++ {
		s.got = append(s.got, name(<-m.In()))
	}
	gomc.Quiesce()
	if waited {
		gomc.Fail("the merged stream has ended although %d of %d messages have not been taken", total-k, total)
	}
	gomc.Go("harness/drain", func() { drain(m, s) })
	if l := gomc.Quiesce(); len(l) > 0 || !waited || !s.done {
		gomc.Fail("the merged stream does not end once everything is taken: %v", l)
	}
	if d := hlib.Merge(s.got, want...); d != "" {
		gomc.Fail("merged stream: %s", d)
	}
	gomc.Outcome(fmt.Sprint(k, s.got))
}

func init() {
	gomc.Register(gomc.Scenario{Prop: "C01", Name: "c01-mentions", Tier: "quick",
		Bound: "messages of every type but 1 and 2 on 5 chunk streams whose payload, message stream or timestamp is the ID of one of 6 other chunk streams, on which a message is in progress; chunk sizes 2 and 128",
		Opts:  gomc.Opts{Fixed: true, Shards: 32}, Body: crossTalk})
	gomc.Register(gomc.Scenario{Prop: "C09", Name: "c09-untaken", Tier: "quick",
		Bound: "all schedules: 1-3 sources that end, 1-2 messages each, of which 0 to all but one are taken; the rest later",
		Opts:  gomc.Opts{Mem: true}, Body: untaken})
}
