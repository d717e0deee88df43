package main

import (
	"fmt"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"

	"verif/mc/gomc"
)

// C18: command dispatch.

const (
	toNone = iota
	toConn
	toStream
	toData
)

// destination of a message, from the text of C18.
func destination(csid uint32, typ byte, sid uint32) int {
	switch {
	case csid == 3, csid == 8 && sid == 0:
		return toConn
	case typ == 0x14 && (csid == 4 || csid == 8 && sid == 1):
		return toStream
	case csid == 4 && (typ == 8 || typ == 9 || typ == 0x12):
		return toData
	}
	return toNone
}

var (
	allCsids = []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 63, 64, 67, 68, 72, 259, 260, 263, 264, 319, 320, 65539, 65540, 65544, 65599, 1<<24 + 3, 1<<24 + 8, 1<<31 + 4}
	allSids  = []uint32{0, 1, 2, 3, 4, 8, 255, 256, 257, 1 << 16, 1<<16 + 1, 1 << 24, 1<<24 + 1, 1 << 31, 1<<32 - 1}
)

// gates: the predefined filters on every combination.
func gates() {
	csid := pick("chunk stream", allCsids...)
	fid := byte(gomc.Choose(4, "header type"))
	for _, sid := range allSids {
		for t := 0; t < 256; t++ {
			c := mk(csid, byte(t), sid, nil)
			c.Header.BasicHeader.FormatId, c.Header.MessageHeader.FormatId = fid, fid
			d := destination(csid, byte(t), sid)
			for i, g := range []cmd.Gate{cmd.NetConnGate, cmd.NetStreamGate, cmd.DataStreamGate} {
				if g.Open(c) != (d == i+1) {
					gomc.Fail("gate %d is open=%v for a message of chunk stream %d, type %#x, message stream %d", i+1, g.Open(c), csid, t, sid)
				}
			}
			if c.Header.BasicHeader.StreamId != csid || c.Header.MessageHeader.TypeId != byte(t) || c.Header.MessageHeader.StreamId != sid {
				gomc.Fail("a gate changed the message")
			}
		}
		gomc.Count("evaluations", 3*256)
	}
	gomc.Count("beat", 1)
}

// simple gates match their own field and nothing else.
func simpleGates() {
	vals := []uint32{0, 1, 2, 3, 4, 5, 8, 9, 0x12, 0x14, 255}
	want := pick("value", vals...)
	for _, a := range vals {
		for _, b := range vals {
			for _, t := range vals {
				c := mk(a, byte(t), b, []byte{1})
				c.Header.MessageHeader.Length = 5
				if got := (&cmd.StreamIdGate{StreamId: want}).Open(c); got != (a == want) {
					gomc.Fail("chunk stream gate %d on chunk stream %d: %v", want, a, got)
				}
				if got := (&cmd.MessageStreamGate{StreamId: want}).Open(c); got != (b == want) {
					gomc.Fail("message stream gate %d on message stream %d: %v", want, b, got)
				}
				if got := (&cmd.TypeIdGate{TypeId: byte(want)}).Open(c); got != (t == want) {
					gomc.Fail("type gate %d on type %d: %v", want, t, got)
				}
			}
		}
	}
	gomc.Count("evaluations", int64(3*len(vals)*len(vals)*len(vals)))
}

// expr is a filter with the value it must have for the fixed message.
type expr struct {
	g    cmd.Gate
	open bool
	s    string
}

type constGate struct {
	open bool
	n    *int
}

func (g *constGate) Open(*chunk.Chunk) bool { *g.n++; return g.open }

func combine(union bool, parts []expr) expr {
	var gs []cmd.Gate
	var names []string
	all, some := true, false
	for _, p := range parts {
		gs = append(gs, p.g)
		names = append(names, p.s)
		all, some = all && p.open, some || p.open
	}
	if union {
		return expr{cmd.NewUnionGate(gs...), all && len(parts) > 0, "union(" + strings.Join(names, " ") + ")"}
	}
	return expr{cmd.NewAnyGate(gs...), some, "any(" + strings.Join(names, " ") + ")"}
}

func leaves() []expr {
	return []expr{
		{&cmd.StreamIdGate{StreamId: 4}, true, "cs4"},
		{&cmd.StreamIdGate{StreamId: 5}, false, "cs5"},
		{&cmd.TypeIdGate{TypeId: 9}, true, "t9"},
		{&cmd.TypeIdGate{TypeId: 4}, false, "t4"},
		{&cmd.MessageStreamGate{StreamId: 1}, true, "ms1"},
		{&cmd.MessageStreamGate{StreamId: 4}, false, "ms4"},
		{new(cmd.UnionGate), false, "union0"},
		{new(cmd.AnyGate), false, "any0"},
	}
}

func lists(from []expr, max int, f func([]expr)) {
	var rec func(l []expr)
	rec = func(l []expr) {
		f(l)
		if len(l) < max {
			for _, e := range from {
				rec(append(l[:len(l):len(l)], e))
			}
		}
	}
	rec(nil)
}

// trees: every combination of combined filters two levels deep.
func trees(wide, deep int) func() {
	return func() {
		c := mk(4, 9, 1, []byte{1})
		level := leaves()
		base := level[:len(level):len(level)]
		lists(base, wide, func(l []expr) {
			level = append(level, combine(true, l), combine(false, l))
		})
		first := level[gomc.Choose(len(level), "first part")]
		check := func(e expr) {
			for i := 0; i < 2; i++ {
				if e.g.Open(c) != e.open {
					gomc.Fail("%s is open=%v for a message of chunk stream 4, type 9, message stream 1 (evaluation %d)", e.s, !e.open, i+1)
				}
			}
			gomc.Count("evaluations", 1)
		}
		check(first)
		lists(level, deep-1, func(l []expr) {
			l = append([]expr{first}, l...)
			check(combine(true, l))
			check(combine(false, l))
			gomc.Count("beat", 1)
		})
	}
}

// --- dispatch ---------------------------------------------------------------

type dmsg struct {
	csid uint32
	typ  byte
	sid  uint32
	p    []byte
	want string // result at its handler
}

// dispatchable makes a message with a payload its handler understands.
func dispatchable(csid uint32, typ byte, sid uint32, n int) dmsg {
	m := dmsg{csid: csid, typ: typ, sid: sid}
	switch destination(csid, typ, sid) {
	case toStream:
		m.p, m.want = cat(head("seek"), aNum(float64(n))), fmt.Sprint("seek ", n)
	case toData:
		switch typ {
		case 8:
			m.p, m.want = []byte{byte(n), 7}, fmt.Sprintf("audio %02x 07", byte(n))
		case 9:
			m.p, m.want = []byte{byte(n), 7}, fmt.Sprintf("video %02x 07", byte(n))
		default:
			m.p = cat(aStr("@setDataFrame"), aStr("t"), aArr("x", aNum(float64(n))))
			m.want = fmt.Sprintf("frame @setDataFrame t {x:%d}", n)
		}
	default:
		s := fmt.Sprint("k", n)
		m.p, m.want = cat(aStr("FCPublish"), aNum(float64(n)), aNull(), aStr(s)), fmt.Sprint("FCPublish ", n, " ", s)
	}
	return m
}

func (m dmsg) chunk() *chunk.Chunk { return mk(m.csid, m.typ, m.sid, m.p) }

// manager is a running command side.
type manager struct {
	m        *cmd.Manager
	src      *fakeStream
	w        *fakeWriter
	h        [3]*handler
	k        [3]*seen
	returned bool
	managed  bool
}

func newManager(managed, split bool) *manager {
	mg := &manager{src: &fakeStream{make(chan *chunk.Chunk)}, w: &fakeWriter{fail: map[int]bool{}}, managed: managed}
	mg.m = cmd.New(mg.src, mg.w)
	mg.h = [3]*handler{connHandler(mg.m.NetConn()), streamHandler(mg.m.NetStream()), dataHandler(mg.m.DataStream())}
	for i := range mg.h {
		mg.k[i] = &seen{}
		mg.h[i].drain(mg.k[i], split)
	}
	return mg
}

func (mg *manager) start() {
	gomc.Go("harness/dispatch", func() { mg.m.Dispatch(mg.managed); mg.returned = true })
	if !mg.managed {
		for i := range mg.h {
			gomc.GoDaemon("listen", mg.h[i].listen)
		}
	}
}

// verify compares what the handlers gave with the messages taken.
func (mg *manager) verify(msgs []dmsg) {
	var want [3][]string
	for _, m := range msgs {
		if d := destination(m.csid, m.typ, m.sid); d != toNone {
			want[d-1] = append(want[d-1], m.want)
		}
	}
	for i := range mg.k {
		mg.k[i].recheck()
		if fmt.Sprint(mg.k[i].in) != fmt.Sprint(want[i]) || len(mg.k[i].errs) > 0 {
			gomc.Fail("handler %d (connection, stream, data) gave %q and errors %q; it should have given %q (messages %v)", i+1, mg.k[i].in, mg.k[i].errs, want[i], msgs)
		}
	}
}

func dispatchRun(msgs []dmsg) {
	mg := newManager(true, false)
	mg.start()
	fed := 0
	gomc.Go("harness/feed", func() {
		for _, m := range msgs {
			mg.src.c <- m.chunk()
			fed++
		}
	})
	gomc.Quiesce()
	if fed != len(msgs) {
		gomc.Fail("only %d of %d messages were taken: %v", fed, len(msgs), msgs)
	}
	mg.verify(msgs)
	if len(mg.w.got) > 0 {
		gomc.Fail("dispatching wrote something")
	}
	gomc.Outcome(fmt.Sprint(mg.k[0].in, mg.k[1].in, mg.k[2].in))
}

// one message of each combination, between two known ones
func dispatchSweep() {
	csid := pick("chunk stream", uint32(2), 3, 4, 5, 6, 7, 8, 9, 67, 68, 72, 259, 260, 264, 65599)
	typ := pick("type", byte(0), 1, 3, 4, 7, 8, 9, 0x0a, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x18, 0x88, 0x92, 0x94, 0xff)
	sid := pick("message stream", uint32(0), 1, 2, 256, 257, 1<<24, 1<<24+1, 1<<32-1)
	dispatchRun([]dmsg{
		dispatchable(pick("before", uint32(3), 4, 8), 0x14, 1, 1),
		dispatchable(csid, typ, sid, 2),
		dispatchable(8, 0x14, 1, 3),
		dispatchable(4, 8, 1, 4),
		dispatchable(3, 0x14, 0, 5),
	})
	gomc.Count("evaluations", 1)
}

var kinds = []struct {
	csid uint32
	typ  byte
	sid  uint32
}{
	{3, 0x14, 0}, {8, 0x14, 0}, {4, 0x14, 1}, {8, 0x14, 1}, {4, 8, 1}, {4, 9, 1}, {4, 0x12, 1},
	{5, 0x14, 1}, {8, 8, 1}, {4, 0x11, 1}, {8, 0x14, 2},
}

// all sequences of message kinds, on the default schedule
func dispatchSeq(n int) func() {
	return func() {
		var l []dmsg
		for i := 0; i < n; i++ {
			k := kinds[gomc.Choose(len(kinds), "kind")]
			l = append(l, dispatchable(k.csid, k.typ, k.sid, i+1))
		}
		dispatchRun(l)
		gomc.Count("evaluations", 1)
	}
}

// some sequences, under all schedules
func dispatchAll(idx ...int) func() {
	return func() {
		var l []dmsg
		for i, x := range idx {
			k := kinds[x]
			l = append(l, dispatchable(k.csid, k.typ, k.sid, i+1))
		}
		dispatchRun(l)
	}
}

func init() {
	R := gomc.Register
	fixed := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	R(gomc.Scenario{Prop: "C18", Name: "c18-gates", Tier: "quick", Opts: fixed(8), Body: gates,
		Bound: "the three predefined filters on 32 chunk streams x 15 message streams x all 256 types x 4 header types"})
	R(gomc.Scenario{Prop: "C18", Name: "c18-simple", Tier: "quick", Opts: fixed(8), Body: simpleGates,
		Bound: "the three field filters, 11 values each, on 11x11x11 messages"})
	R(gomc.Scenario{Prop: "C18", Name: "c18-trees", Tier: "quick", Opts: fixed(8), Body: trees(2, 2),
		Bound: "every combination (union or any) of at most 2 parts out of 8 simple filters and all their combinations of at most 2"})
	R(gomc.Scenario{Prop: "C18", Name: "c18-trees3", Tier: "quick", Opts: fixed(32), Body: trees(3, 2),
		Bound: "the same with combinations of at most 3 parts inside"})
	R(gomc.Scenario{Prop: "C18", Name: "c18-dispatch", Tier: "quick", Opts: fixed(15), Body: dispatchSweep,
		Bound: "15 chunk streams x 21 types x 8 message streams, between known messages, through the dispatch loop and its handlers"})
	R(gomc.Scenario{Prop: "C18", Name: "c18-seq", Tier: "quick", Opts: fixed(11), Body: dispatchSeq(3),
		Bound: "all sequences of 3 messages of 11 kinds"})
	R(gomc.Scenario{Prop: "C18", Name: "c18-seq5", Tier: "quick", Opts: fixed(11), Body: dispatchSeq(5),
		Bound: "all sequences of 5 messages of 11 kinds"})
	mem := gomc.Opts{Mem: true, MapOrder: true}
	for i, l := range [][]int{{0, 2, 4}, {7, 0, 10, 3}, {4, 5, 6}, {1, 1}} {
		R(gomc.Scenario{Prop: "C18", Name: fmt.Sprintf("c18-sched%d", i), Tier: "quick", Opts: mem, Body: dispatchAll(l...),
			Bound: fmt.Sprintf("messages %v through the dispatch loop; all schedules and map iteration orders", l)})
	}
	R(gomc.Scenario{Prop: "C18", Name: "c18-sched-deep", Tier: "thorough", Opts: mem, Body: dispatchAll(0, 3, 5, 7, 1, 2, 6),
		Bound: "7 messages of different kinds; all schedules and map iteration orders"})
}
