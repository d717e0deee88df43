package main

import (
	"fmt"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// C16 for the chunk layer: two connections at once, nothing in common.

// sources of two connections for twoReaders
func pair(k, i int) (*hlib.Gen, int) {
	g := hlib.NewGen(2)
	switch {
	case k == 0: // the same chunk stream on both, header types that inherit
		g.Whole(0, 3, 5, 0, byte(8+i), uint32(i+1), hlib.Pattern(i, 3))
		g.Whole(2, 3, 6, 0, 0, 0, hlib.Pattern(10+i, 3))
	case k == 1 && i == 0: // one of them changes its chunk size
		g.Whole(0, 2, 0, 0, 1, 0, []byte{0, 0, 0, 1})
		g.Whole(0, 3, 1, 0, 8, 1, hlib.Pattern(1, 3))
	case k == 1:
		g.Start(0, 3, 2, 0, 9, 2, hlib.Pattern(2, 5))
		g.Finish()
	case i == 0: // one of them is cut off
		g.Start(0, 4, 0xffffff, 0x01020304, 8, 1, hlib.Pattern(3, 3))
	default:
		g.Start(0, 4, 0xffffff, 0x05060708, 9, 2, hlib.Pattern(4, 3))
		g.Whole(0, 400, 0, 0, 9, 2, hlib.Pattern(5, 2))
		g.Finish()
	}
	return g, 2
}

// twoReaders: two readers at the same time, all schedules.
func twoReaders(k int) func() {
	return func() {
		var gs [2]*hlib.Gen
		var res [2]*result
		for i := range gs {
			g, size := pair(k, i)
			gs[i] = g
			src := &hlib.Src{Data: g.Out, Hold: true, First: 1}
			gomc.Go("harness/connection", func() {
				res[i] = decode(src, size, nil)
			})
			gomc.GoDaemon("harness/release", func() {
				gomc.LowPrio("close the connection")
				src.Release()
			})
		}
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("stuck: %s", strings.Join(l, "; "))
		}
		for i, g := range gs {
			if d := hlib.SeqDiff(g.Want, res[i].msgs); d != "" {
				gomc.Fail("connection %d: %s", i+1, d)
			}
			for n, c := range res[i].chunks {
				if d := hlib.Diff(res[i].msgs[n], toMsg(c)); d != "" {
					gomc.Fail("connection %d: message %d changed after its delivery: %s", i+1, n+1, d)
				}
			}
			if res[i].size != g.Size {
				gomc.Fail("connection %d: read size %d instead of %d", i+1, res[i].size, g.Size)
			}
		}
		gomc.Outcome(fmt.Sprint(len(res[0].msgs), len(res[1].msgs)))
	}
}

// twoWriters: two writers at the same time, one of them failing or changing
// its size or not, all schedules.
func twoWriters(k int) func() {
	return func() {
		var ds [2]*hlib.Dst
		var want [2][]byte
		var errs [2]error
		for i := range ds {
			size := 2 + i
			d := hlib.NewDst()
			ds[i] = d
			ms := []hlib.Msg{wm(3, i+1, 5), wm(3, i+3, 2)}
			for _, m := range ms {
				want[i] = append(want[i], hlib.Encode(m, size)...)
			}
			if k == 1 && i == 0 {
				d.Max = 7
				want[i] = want[i][:7]
				ms = ms[:1]
			}
			w := chunk.NewWriter(d, size)
			gomc.Go("harness/write", func() {
				for _, m := range ms {
					if err := w.Write(fromMsg(m)); err != nil {
						errs[i] = err
					}
				}
				if w.WriteSize() != size {
					gomc.Fail("write size of connection %d: %d instead of %d", i+1, w.WriteSize(), size)
				}
			})
		}
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("stuck: %s", strings.Join(l, "; "))
		}
		for i, d := range ds {
			if e := hlib.BytesDiff(want[i], d.Data); e != "" {
				gomc.Fail("connection %d: %s", i+1, e)
			}
			if (errs[i] != nil) != (k == 1 && i == 0) {
				gomc.Fail("connection %d: error %v", i+1, errs[i])
			}
		}
	}
}

// twoParsers: two parsers with a consumer each, all schedules.
func twoParsers() {
	var sinks, errs [2]sink
	for i := range sinks {
		g := hlib.NewGen(128)
		g.Whole(0, 4, 1, 0, 9, 1, []byte{4, byte(i*8 + 1)})
		p := chunk.NewParser(chunk.NewReader(&hlib.Src{Data: g.Out, Hold: true, First: i}, 128, chunk.NewNormalizer()))
		gomc.GoDaemon("receive", p.Recv)
		s, err := p.Stream(4)
		if err != nil {
			gomc.Fail("connection %d refuses chunk stream 4: %v", i+1, err)
		}
		gomc.GoDaemon("consume", func() { drain(s, &sinks[i]) })
		gomc.GoDaemon("errors", func() { drainErrs(p, &errs[i]) })
	}
	gomc.Quiesce()
	for i := range sinks {
		if w := fmt.Sprintf("[4.%d]", i*8+1); fmt.Sprint(sinks[i].got) != w || len(errs[i].got) != i {
			gomc.Fail("connection %d delivered %v and %d errors instead of %s and %d", i+1, sinks[i].got, len(errs[i].got), w, i)
		}
	}
}

// turns makes two connections take their reads (or writes) in a given rhythm.
type turns struct {
	n, rhythm [2]int
	over      [2]bool
	who       int
	obj       gomc.Obj
}

func (t *turns) wait(i int) {
	if t.over[1-i] {
		return
	}
	gomc.WaitFor(&t.obj, "turn", func() bool { return t.who == i || t.over[1-i] })
	if t.n[i]++; t.n[i] >= t.rhythm[i] {
		t.n[i] = 0
		t.pass(1 - i)
	}
}

func (t *turns) pass(i int) {
	t.who = i
	gomc.Release(&t.obj, false)
}

func (t *turns) end(i int) {
	t.over[i] = true
	gomc.Release(&t.obj, false)
}

var rhythms = [][2]int{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 3}, {5, 2}, {1 << 30, 1}}

func rhythm() *turns { return &turns{rhythm: pick("rhythm", rhythms...)} }

// many sessions for lockstep: lengths and chunk sizes of every small value
func lockSession(k int) (*hlib.Gen, int) {
	if k < nSessions {
		return session(k), initial(k)
	}
	k -= nSessions
	size := []int{1, 4, 128, 2, 3, 7}[k%6]
	g := hlib.NewGen(size)
	for i, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 20, 40, 65, 129} {
		n += k / 6 * i
		c := []uint32{3, 4, 70, 320}[(i+k)%4]
		g.Start(0, c, uint32(i), 0, byte(8+k), uint32(k), hlib.Pattern(k*31+i, n))
		if g.Busy(c) && i%2 == 0 {
			g.Cont(c)
		}
		g.Finish()
	}
	return g, size
}

const nLock = nSessions + 12

// lockReaders: every pair of sessions on two connections whose reads alternate
// in several rhythms, or one after the other.
func lockReaders() {
	a := gomc.Choose(nLock, "first session")
	b := gomc.Choose(nLock, "second session")
	t := rhythm()
	var gs [2]*hlib.Gen
	var res [2]*result
	var held [2][]hlib.Msg
	fin := make(chan struct{}, 2)
	for i, k := range []int{a, b} {
		g, size := lockSession(k)
		gs[i] = g
		src := &hlib.Src{Data: g.Out, First: 1, Hold: true}
		src.OnRead = func(int) {
			if src.Pos == len(src.Data) {
				t.end(i)
				return
			}
			t.wait(i)
		}
		gomc.Go("harness/connection", func() {
			res[i] = decode(src, size, nil)
			held[i] = append(held[i], res[i].msgs...)
			t.end(i)
			fin <- struct{}{}
		})
		gomc.GoDaemon("harness/release", func() {
			gomc.LowPrio("close the connection")
			src.Release()
		})
	}
	<-fin
	<-fin
	for i, g := range gs {
		if d := hlib.SeqDiff(g.Want, held[i]); d != "" {
			gomc.Fail("connection %d: %s", i+1, d)
		}
		for n, c := range res[i].chunks {
			if d := hlib.Diff(held[i][n], toMsg(c)); d != "" {
				gomc.Fail("connection %d: message %d changed after its delivery: %s", i+1, n+1, d)
			}
		}
		if res[i].size != g.Size {
			gomc.Fail("connection %d: read size %d instead of %d", i+1, res[i].size, g.Size)
		}
	}
	gomc.Count("evaluations", 1)
}

// turnDst is a connection that takes what is written in its turn.
type turnDst struct {
	i   int
	t   *turns
	got []byte
}

func (d *turnDst) Write(p []byte) (int, error) {
	d.t.wait(d.i)
	d.got = append(d.got, p...)
	return len(p), nil
}

// lockWriters: two connections whose writes alternate.
func lockWriters() {
	n := gomc.Choose(12, "length")
	size := pick("size", 1, 3, 128)
	t := rhythm()
	var ds [2]*turnDst
	var want [2][]byte
	fin := make(chan struct{}, 2)
	for i := range ds {
		ds[i] = &turnDst{i: i, t: t}
		w := chunk.NewWriter(ds[i], size+i)
		var ms []hlib.Msg
		for k := 0; k < 6; k++ {
			m := wm([]uint32{3, 70, 400}[k%3], k*2+i, (n*(k+1)+i*k)%23)
			if k%2 == 1 {
				m.TS, m.Ext = 0xffffff, uint32(0x01010101*(k+i))
			}
			ms = append(ms, m)
			want[i] = append(want[i], hlib.Encode(m, size+i)...)
		}
		gomc.Go("harness/write", func() {
			for _, m := range ms {
				if err := w.Write(fromMsg(m)); err != nil {
					gomc.Fail("Write: %v", err)
				}
			}
			t.end(i)
			fin <- struct{}{}
		})
	}
	<-fin
	<-fin
	for i, d := range ds {
		if e := hlib.BytesDiff(want[i], d.got); e != "" {
			gomc.Fail("connection %d: %s", i+1, e)
		}
	}
	gomc.Count("evaluations", 1)
}

// inAndOut: one connection receives while another one (or the same) writes
// what it received.
func inAndOut() {
	k := gomc.Choose(nLock, "session")
	t := rhythm()
	g, size := lockSession(k)
	src := &hlib.Src{Data: g.Out, First: 1, Hold: true}
	src.OnRead = func(int) {
		if src.Pos == len(src.Data) {
			t.end(0)
			return
		}
		t.wait(0)
	}
	d := &turnDst{i: 1, t: t}
	w := chunk.NewWriter(d, size+1)
	fin := make(chan struct{})
	var want []byte
	var res *result
	var queue []hlib.Msg
	var obj gomc.Obj
	over := false
	gomc.Go("harness/write", func() {
		for n := 0; ; n++ {
			gomc.WaitFor(&obj, "message to pass on", func() bool { return n < len(queue) || over })
			if n >= len(queue) {
				break
			}
			m := queue[n]
			m.Fmt, m.Delta = 0, false
			want = append(want, hlib.Encode(m, size+1)...)
			if err := w.Write(fromMsg(m)); err != nil {
				gomc.Fail("Write: %v", err)
			}
			t.pass(0)
		}
		t.end(1)
		fin <- struct{}{}
	})
	gomc.GoDaemon("harness/release", func() {
		gomc.LowPrio("close the connection")
		src.Release()
	})
	gomc.GoDaemon("harness/rhythm", func() {
		// whoever has nothing to do passes
		for !over {
			gomc.LowPrio("pass")
			t.pass(1 - t.who)
		}
	})
	res = decode(src, size, func(n int) {
		queue = append(queue, g.Want[n-1])
		gomc.Release(&obj, false)
	})
	over = true
	gomc.Release(&obj, false)
	<-fin
	expect(g, res, "received while another connection writes")
	if e := hlib.BytesDiff(want, d.got); e != "" {
		gomc.Fail("passed on: %s", e)
	}
}

func init() {
	R := gomc.Register
	L := gomc.Opts{Mem: true, RaceFails: true}
	F := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	for k, b := range []string{"the same chunk stream and inherited headers", "one changing its chunk size", "one cut off"} {
		R(gomc.Scenario{Prop: "C16", Name: fmt.Sprintf("c16-readers-%d", k), Tier: "quick", Opts: L, Body: twoReaders(k),
			Bound: "all schedules: two readers with 1-2 messages of 1-3 chunks each, " + b + "; races are violations"})
	}
	for k, b := range []string{"both undisturbed", "one of them failing"} {
		R(gomc.Scenario{Prop: "C16", Name: fmt.Sprintf("c16-writers-%d", k), Tier: "quick", Opts: L, Body: twoWriters(k),
			Bound: "all schedules: two writers with different sizes and 1-2 messages each, " + b + "; races are violations"})
	}
	R(gomc.Scenario{Prop: "C16", Name: "c16-parsers", Tier: "quick", Opts: L, Body: twoParsers,
		Bound: "all schedules: two parsers with a consumer and 1 message each, one of them with an error; races are violations"})
	R(gomc.Scenario{Prop: "C16", Name: "c16-lockstep-readers", Tier: "quick", Opts: F(nLock), Body: lockReaders,
		Bound: fmt.Sprintf("all pairs of %d sessions on two connections, their reads alternating in %d rhythms", nLock, len(rhythms))})
	R(gomc.Scenario{Prop: "C16", Name: "c16-lockstep-writers", Tier: "quick", Opts: F(12), Body: lockWriters,
		Bound: fmt.Sprintf("6 messages each on two connections, 12 sets of lengths x 3 sizes, their writes alternating in %d rhythms", len(rhythms))})
	R(gomc.Scenario{Prop: "C16", Name: "c16-lockstep-both", Tier: "quick", Opts: F(nLock), Body: inAndOut,
		Bound: fmt.Sprintf("%d sessions received while what arrives is written on another connection, in %d rhythms", nLock, len(rhythms))})
}
