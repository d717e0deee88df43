package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// lazy makes applications take a message or an error only when nothing else
// can happen: code that gives up after a while is caught.
var lazy bool

func rest() {
	if lazy {
		hlib.Slow("slow application")
	}
}

func lazily(f func()) func() {
	return func() {
		lazy = true
		defer func() { lazy = false }()
		f()
	}
}

// slowSession: time passes between the reads (1), before messages are taken
// (2), or both.
func slowSession(w func() int) func() {
	return func() {
		i := w()
		how := 1 + gomc.Choose(3, "slow transport, slow application or both")
		g := session(i)
		src := &hlib.Src{Data: g.Out, WithLast: gomc.Choose(2, "the end with the last byte") == 1}
		step := pick("bytes in a read", 1, 3, 1000)
		src.Frag = func(want int) (int, bool) { return min(want, step), false }
		if how&1 != 0 {
			src.OnRead = func(int) { hlib.Slow("slow transport") }
		}
		lazy = how&2 != 0
		defer func() { lazy = false }()
		res := decode(src, initial(i), nil)
		expect(g, res, "decoding")
		if e := res.errs[0]; !errors.Is(e, io.EOF) && !errors.Is(e, io.ErrUnexpectedEOF) {
			gomc.Fail("the transport ended and %q was reported", res.errs[0])
		}
	}
}

// slowFailures: a failure after any number of bytes, a slow application and maybe a slow transport.
func slowFailures() {
	g := hlib.NewGen(2)
	g.StartN(0, 4, 3)
	g.WholeN(0, 5, 2)
	g.Finish()
	g.WholeN(3, 5, 2)
	cut := gomc.Choose(len(g.Out)+1, "bytes before the failure")
	kind := gomc.Choose(6, "kind of failure")
	if cut == 0 && (kind == 1 || kind == 3) {
		return
	}
	failAt(g, 2, cut, kind)
}

// slowWriting: the connection takes its time.
func slowWriting() {
	size := pick("write size", 1, 4, 128)
	n := pick("length", 0, 1, 9, 5000, 70000)
	d := hlib.NewDst()
	d.Quiet = true
	d.OnData = func() { hlib.Slow("slow connection") }
	w := chunk.NewWriter(d, size)
	g := hlib.NewGen(size)
	for i := 0; i < 3; i++ {
		if err := w.Write(fromMsg(hlib.Msg{CSID: 5, Type: 9, SID: 1, TS: uint32(i), Data: hlib.Pattern(i, n)})); err != nil {
			gomc.Fail("writing to a slow connection: %v", err)
		}
		g.Whole(0, 5, uint32(i), 0, 9, 1, hlib.Pattern(i, n))
	}
	if string(g.Out) != string(d.Data) {
		gomc.Fail("3 messages of %d bytes are something else on a slow connection", n)
	}
	gomc.Count("evaluations", 1)
}

// nested: merged streams are streams, and may be merged.
func nested(late bool) func() {
	return func() {
		inner, outer := chunk.NewMultiStream(), chunk.NewMultiStream()
		var srcs []*source
		for i := 0; i < 3; i++ {
			srcs = append(srcs, &source{make(chan *chunk.Chunk)})
		}
		k := &sink{}
		outer.Append(inner, srcs[2])
		inner.Append(srcs[0])
		feed := func(i, n int) {
			for j := 1; j <= n; j++ {
				srcs[i].ch <- msg(uint32(i+1), j)
			}
			close(srcs[i].ch)
		}
		gomc.Go("harness/drain", func() { drain(outer, k) })
		waited := 0
		gomc.Go("harness/wait outer", func() { outer.AwaitClose(); waited++ })
		if late {
			gomc.Go("harness/source", func() { feed(2, 1) })
		}
		inner.Append(srcs[1])
		gomc.Go("harness/source", func() { feed(0, 2) })
		gomc.Go("harness/source", func() { feed(1, 1) })
		gomc.Go("harness/wait inner", func() { inner.AwaitClose(); waited++ })
		if !late {
			gomc.Quiesce()
			if k.done {
				gomc.Fail("the merged stream ended although a source is open")
			}
			feed(2, 1)
		}
		if l := gomc.Quiesce(); len(l) > 0 || !k.done || waited != 2 {
			gomc.Fail("a merged stream of a merged stream does not end (%d have): %v", waited, l)
		}
		if d := hlib.Merge(k.got, []string{"1.1", "1.2"}, []string{"2.1"}, []string{"3.1"}); d != "" {
			gomc.Fail("a merged stream of a merged stream: %s", d)
		}
		gomc.Outcome(fmt.Sprint(k.got))
	}
}

// mergeTogether: sources appended in one call, some of which have ended
// already, while another is open and somebody waits.
func mergeTogether(n, pre int) func() {
	return func() {
		m := chunk.NewMultiStream()
		open := &source{make(chan *chunk.Chunk)}
		m.Append(open)
		var srcs []chunk.Stream
		want := [][]string{{"9.1"}}
		ends := 0
		var feeds []func()
		for i := 0; i < n; i++ {
			s := &source{make(chan *chunk.Chunk, 2)}
			srcs = append(srcs, s)
			id, k := uint32(i+1), gomc.Choose(2, "messages")
			var w []string
			if k > 0 {
				w = append(w, fmt.Sprintf("%d.1", id))
			}
			want = append(want, w)
			feed := func() {
				if k > 0 {
					s.ch <- msg(id, 1)
				}
				ends++
				close(s.ch)
			}
			if i < pre {
				feed()
			} else {
				feeds = append(feeds, feed)
			}
		}
		k := &sink{}
		waited := false
		gomc.Go("harness/append", func() {
			m.Append(srcs...)
			open.ch <- msg(9, 1)
			ends++
			close(open.ch)
		})
		for _, f := range feeds {
			gomc.Go("harness/source", f)
		}
		gomc.Go("harness/drain", func() { drain(m, k) })
		gomc.Go("harness/wait", func() {
			m.AwaitClose()
			waited = true
			if ends != n+1 {
				gomc.Fail("waiting for the merged stream returned when %d of %d sources had ended", ends, n+1)
			}
		})
		if l := gomc.Quiesce(); len(l) > 0 || !k.done || !waited {
			gomc.Fail("the merged stream does not end: %v", l)
		}
		if d := hlib.Merge(k.got, want...); d != "" {
			gomc.Fail("merged stream: %s", d)
		}
		gomc.Outcome(fmt.Sprint(k.got))
	}
}

// sizeHuge: huge chunk sizes and messages.
func sizeHuge() {
	size := pick("announced", uint32(1<<24), 1<<24-1, 0x7fffffff, 1<<20+1, 65537, 1<<16)
	n := pick("length", 1<<24-1, 1<<20+5, 70000)
	g := hlib.NewGen(128)
	g.StartN(0, 4, 300)
	g.Cont(4)
	g.Whole(0, 2, 0, 0, 1, 0, hlib.U32(size))
	g.Size = int(size)
	g.StartN(0, 5, n)
	if gomc.Choose(2, "the other message first") == 1 {
		for g.Busy(4) {
			g.Cont(4)
		}
	}
	g.Finish()
	g.StartN(3, 5, n)
	g.Whole(0, 2, 0, 0, 1, 0, hlib.U32(200))
	g.Size = 200
	g.Finish()
	g.StartN(0, 6, 500)
	g.Finish()
	expect(g, decode(&hlib.Src{Data: g.Out}, 128, nil), "decoding with a huge chunk size")
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// alike are chunk stream IDs that are easily taken for one another.
var alike = [][2]uint32{{2, 66}, {2, 258}, {2, 65538}, {3, 67}, {3, 259}, {3, 65539}, {62, 65598}, {64, 320}, {64, 65536}, {65, 321}, {65, 257}, {319, 65599 - 256}, {319, 320}, {255, 256}, {320, 576}, {400, 65536 - 400}, {321, 16705}, {322, 65602 - 256}, {33, 32801}, {5, 32773}}

// writeAlike: messages on two chunk streams in turn.
func writeAlike() {
	ids := pick("chunk streams", alike...)
	size := pick("write size", 1, 3, 128)
	dst := hlib.NewDst()
	dst.Quiet = true
	w := chunk.NewWriter(dst, size)
	for i := 0; i < 200; i++ {
		m := hlib.Msg{Fmt: byte(i / 5 % 4), CSID: ids[[]int{0, 1, 0, 0, 1, 1, 1}[i%7]], TS: uint32(i), Delta: i/5%4 > 0, Type: byte(8 + i%2), SID: 1, Data: hlib.Pattern(i, i*i%11)}
		if i%11 > 7 {
			m.TS, m.Ext = 0xffffff, 0xfffff0+uint32(i%2)
		}
		writeOne(w, dst, m, size)
	}
	gomc.Count("beat", 1)
}

// readAlike: messages on two chunk streams, their chunks in turn.
func readAlike() {
	ids := pick("chunk streams", alike...)
	size := pick("chunk size", 1, 3, 128)
	h := gomc.Choose(4, "header type")
	g := hlib.NewGen(size)
	for i := 0; i < 60; i++ {
		for k, id := range ids {
			f := byte(0)
			if i > 0 && (i+k)%3 > 0 {
				f = byte(h)
			}
			if f == 3 && g.LastLen(id) == 0 {
				f = 1
			}
			g.StartN(f, id, 1+(i+3*k)%7)
		}
		for g.Busy(ids[0]) || g.Busy(ids[1]) {
			for _, id := range ids {
				if g.Busy(id) {
					g.Cont(id)
				}
			}
		}
	}
	g.Finish()
	expect(g, decode(&hlib.Src{Data: g.Out}, size, nil), "decoding two chunk streams")
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// routeMass: very many chunk streams, asked for one by one or in groups, two of
// which are alike.
func routeMass() {
	n := pick("chunk streams", 300, 1500)
	group := pick("in a group", 1, 50, 1500)
	late := gomc.Choose(2, "asked for late") == 1
	id := func(i int) uint32 {
		if i%2 == 1 {
			return 65599 - uint32(i)
		}
		return 2 + uint32(i)
	}
	var items []any
	for i := 0; i < n+300; i++ {
		items = append(items, msg(id(i*7%n), i%256))
	}
	p := chunk.NewParser(newScript(items...))
	var sinks []*sink
	var asks [][]uint32
	for i := 0; i < n; i += group {
		var a []uint32
		for j := i; j < min(n, i+group); j++ {
			a = append(a, id(j))
		}
		asks, sinks = append(asks, a), append(sinks, &sink{})
	}
	start := func() {
		for i, a := range asks {
			s, err := p.Stream(a...)
			if err != nil || s == nil {
				gomc.Fail("asking for %d chunk streams for the first time: %v", len(a), err)
			}
			k := sinks[i]
			go func() { drain(s, k) }()
		}
	}
	errs := &sink{}
	if !late {
		start()
	}
	go p.Recv()
	go drainErrs(p, errs)
	if late {
		gomc.Quiesce()
		start()
	}
	gomc.Quiesce()
	checkSinks(items, asks, sinks, errs)
	closed := false
	go func() { p.Close(); closed = true }()
	gomc.Quiesce()
	if !closed || !errs.done {
		gomc.Fail("closing with %d chunk streams: closed %v, errors ended %v", n, closed, errs.done)
	}
	for i, k := range sinks {
		if !k.done && len(asks[i]) == 1 {
			gomc.Fail("chunk stream %d has not ended after the close", asks[i][0])
		}
	}
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

func init() {
	R := gomc.Register
	M := gomc.Opts{Mem: true}
	F := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	slow := "time passes between reads, before messages are taken, or both; reads of 1, 3 or all bytes"
	all := func() int { return gomc.Choose(nSessions, "session") }
	for _, p := range []string{"C01", "C04"} {
		n := "c" + p[1:] + "-slow"
		R(gomc.Scenario{Prop: p, Name: n, Tier: "quick", Opts: F(nSessions), Body: slowSession(all), Bound: "5 sessions: " + slow})
		R(gomc.Scenario{Prop: p, Name: n + "-schedules", Tier: "quick", Opts: M, Body: slowSession(func() int { return 0 }), Bound: "all schedules of one session: " + slow})
	}
	R(gomc.Scenario{Prop: "C06", Name: "c06-slow", Tier: "quick", Opts: F(16), Body: lazily(slowFailures), Bound: "3 messages, 6 kinds of failure after every byte, a slow application, the transport slow or not"})
	R(gomc.Scenario{Prop: "C06", Name: "c06-slow-schedules", Tier: "quick", Opts: gomc.Opts{Mem: true, Shards: 16}, Body: lazily(slowFailures), Bound: "the same; all schedules"})
	R(gomc.Scenario{Prop: "C02", Name: "c02-slow", Tier: "quick", Opts: F(3), Body: slowWriting, Bound: "3 messages of 0-70000 bytes with 3 write sizes to a connection on which every write takes time"})
	R(gomc.Scenario{Prop: "C09", Name: "c09-slow", Tier: "quick", Opts: M, Body: lazily(merging([]int{2, 1}, 0, true)), Bound: "all schedules: 2 sources with 2 and 1 messages, a slow consumer"})
	R(gomc.Scenario{Prop: "C09", Name: "c09-slow-late", Tier: "quick", Opts: M, Body: lazily(merging([]int{1, 1, 1}, 1, true)), Bound: "all schedules: 3 sources with 1 message, one late, a slow consumer"})
	R(gomc.Scenario{Prop: "C09", Name: "c09-nested", Tier: "quick", Opts: M, Body: nested(false), Bound: "all schedules: a merged stream of a merged stream of 2 sources and a third that goes on after them"})
	R(gomc.Scenario{Prop: "C09", Name: "c09-nested-any", Tier: "quick", Opts: M, Body: nested(true), Bound: "all schedules: the same, the third ending at any moment"})
	for i := 0; i < 6; i++ {
		if i < 4 {
			R(gomc.Scenario{Prop: "C10", Name: fmt.Sprintf("c10-reader%d-slow", i), Tier: "quick", Opts: M, Body: lazily(closeReader(i)),
				Bound: fmt.Sprintf("all schedules: a reader closed at any moment (mode %d) by a slow application", i)})
		}
		R(gomc.Scenario{Prop: "C10", Name: fmt.Sprintf("c10-parser%d-slow", i), Tier: "quick", Opts: M, Body: lazily(closeParser(i)),
			Bound: fmt.Sprintf("all schedules: a parser and its reader closed at any moment (mode %d) by a slow application", i)})
	}
	for i := range plans() {
		R(gomc.Scenario{Prop: "C08", Name: fmt.Sprintf("c08-plan%d-slow", i), Tier: "quick", Opts: M, Body: lazily(routing(i, true)),
			Bound: fmt.Sprintf("all schedules: plan %d, slow consumers of messages and errors", i)})
	}
	for _, d := range [][2]int{{2, 0}, {2, 1}, {2, 2}, {3, 2}} {
		R(gomc.Scenario{Prop: "C09", Name: fmt.Sprintf("c09-together-%d-%d", d[0], d[1]), Tier: "quick", Opts: M, Body: mergeTogether(d[0], d[1]),
			Bound: fmt.Sprintf("%d sources of 0 or 1 messages appended in one call, %d of them already ended, while another is open and somebody waits; all schedules", d[0], d[1])})
	}
	R(gomc.Scenario{Prop: "C05", Name: "c05-huge", Tier: "quick", Opts: F(6), Body: sizeHuge, Bound: "6 chunk sizes from 65536 to 0x7fffffff announced while a message is in progress, 3 lengths up to 0xffffff, 200 announced afterwards"})
	R(gomc.Scenario{Prop: "C02", Name: "c02-alike", Tier: "quick", Opts: F(len(alike)), Body: writeAlike, Bound: fmt.Sprint(len(alike), " pairs of chunk stream IDs that share low or high bits, 3 write sizes, 200 messages in turn")})
	R(gomc.Scenario{Prop: "C01", Name: "c01-alike", Tier: "quick", Opts: F(len(alike)), Body: readAlike, Bound: fmt.Sprint(len(alike), " pairs of chunk stream IDs that share low or high bits, 3 chunk sizes, 4 header types, 120 messages interleaved")})
	for _, p := range []string{"C08", "C10"} {
		R(gomc.Scenario{Prop: p, Name: map[string]string{"C08": "c08", "C10": "c10"}[p] + "-mass", Tier: "quick", Opts: F(2), Body: routeMass, Bound: "300 or 1500 chunk streams asked for one by one, by 50 or all at once, before or after their messages arrived; closed at the end"})
	}
}
