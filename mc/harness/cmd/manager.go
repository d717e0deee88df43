package main

import (
	"fmt"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// C20, and the command side of C10 and C16.

type closing struct {
	kinds   []int // messages that arrive
	bad     int   // which of them is malformed (1-based)
	managed bool
	split   bool
	send    bool // the application sends one item to each handler before it closes
	end     bool // the chunk stream ends
	late    bool // close only when nothing else can happen
	slow    bool // the application takes a result only when nothing else can happen
}

func (cl closing) run() {
	slow = cl.slow
	mg := newManager(cl.managed, cl.split)
	var msgs []dmsg
	for i, k := range cl.kinds {
		m := dispatchable(kinds[k].csid, kinds[k].typ, kinds[k].sid, i+1)
		if i+1 == cl.bad {
			if len(m.p) > 2 && gomc.Choose(2, "malformed") == 1 {
				m.p = m.p[:len(m.p)-1]
			} else {
				m.p = nil
			}
			m.want = ""
		}
		msgs = append(msgs, m)
	}
	defer func() { slow = false }()
	mg.start()
	fed, closed := 0, false
	gomc.GoDaemon("feed", func() {
		for _, m := range msgs {
			mg.src.c <- m.chunk()
			fed++
		}
		if cl.end {
			close(mg.src.c)
		}
	})
	sends := []outMsg{createResp(1, 2), status("s"), audio(1, 0xaf, 1)}
	gomc.Go("harness/close", func() {
		if cl.send {
			for i, h := range mg.h {
				h.send(sends[i].send)
			}
		}
		gomc.Step("decide to close")
		if cl.late {
			gomc.LowPrio("decide to close")
		}
		mg.m.Close()
		closed = true
	})
	left := gomc.Quiesce()
	if !closed || !mg.returned || len(left) > 0 {
		gomc.Fail("closing never completes, or leaves something behind: %s (Close returned: %v, Dispatch returned: %v)", strings.Join(left, "; "), closed, mg.returned)
	}
	if cl.managed {
		for i, h := range mg.h {
			if h.ends && (!mg.k[i].inDone || !mg.k[i].errsDone) {
				gomc.Fail("the channels of handler %d did not end: messages %v, errors %v", i+1, mg.k[i].inDone, mg.k[i].errsDone)
			}
		}
	} else {
		// the handlers are the application's: they still work and can be closed
		ok := 0
		gomc.Go("harness/use and close handlers", func() {
			for i, h := range mg.h {
				h.send(sends[i].send)
				h.close()
				ok++
			}
		})
		if l := gomc.Quiesce(); len(l) > 0 || ok != 3 {
			gomc.Fail("an unmanaged handler no longer works after the manager was closed: %s", strings.Join(l, "; "))
		}
		for i, h := range mg.h {
			if h.ends && (!mg.k[i].inDone || !mg.k[i].errsDone) {
				gomc.Fail("the channels of handler %d did not end", i+1)
			}
		}
	}
	n := 0
	if cl.send {
		n += 3
	}
	if !cl.managed {
		n += 3
	}
	if len(mg.w.got) != n {
		gomc.Fail("%d of %d items were written: %v", len(mg.w.got), n, mg.w.got)
	}
	// what was taken has been passed on
	var want [3][]string
	var bad [3]int
	for _, m := range msgs[:fed] {
		if d := destination(m.csid, m.typ, m.sid); d != toNone {
			if m.want == "" {
				bad[d-1]++
			} else {
				want[d-1] = append(want[d-1], m.want)
			}
		}
	}
	for i, k := range mg.k {
		k.recheck()
		if fmt.Sprint(k.in) != fmt.Sprint(want[i]) || len(k.errs) != bad[i] {
			gomc.Fail("handler %d gave %q and errors %q; %d messages were taken, it should have given %q and %d errors", i+1, k.in, k.errs, fed, want[i], bad[i])
		}
	}
	gomc.Outcome(fmt.Sprint(fed))
}

// behind: the command side behind a parser, as a client has it; the parser is
// closed at any moment, then the command side.
func behind(await bool, msgs ...dmsg) func() {
	return func() {
		g := hlib.NewGen(128)
		for _, m := range msgs {
			g.Whole(0, m.csid, 0, 0, m.typ, m.sid, m.p)
		}
		src := &hlib.Src{Data: g.Out, Hold: true}
		p := chunk.NewParser(chunk.NewReader(src, 128, chunk.NewNormalizer()))
		cs, err := p.Stream(3, 4, 5, 8)
		if err != nil {
			gomc.Fail("asking for the group: %v", err)
		}
		w := &fakeWriter{fail: map[int]bool{}}
		mg := &manager{w: w, managed: true}
		mg.m = cmd.New(cs, w)
		mg.h = [3]*handler{connHandler(mg.m.NetConn()), streamHandler(mg.m.NetStream()), dataHandler(mg.m.DataStream())}
		for i := range mg.h {
			mg.k[i] = &seen{}
			mg.h[i].drain(mg.k[i], false)
		}
		mg.start()
		recv, pclosed, closed := false, false, false
		gomc.Go("harness/parser", func() { p.Recv(); recv = true })
		gomc.GoDaemon("parser errors", func() {
			for {
				if _, ok := <-p.Errs(); !ok {
					return
				}
			}
		})
		gomc.Go("harness/close", func() {
			gomc.Step("decide to close")
			p.Close()
			pclosed = true
			if await {
				cs.(*chunk.MultiStream).AwaitClose()
			}
			// the command side still serves the application
			mg.h[1].send(status("late").send)
			mg.m.Close()
			closed = true
		})
		gomc.GoDaemon("connection closed", func() {
			gomc.LowPrio("close the connection")
			src.Release()
		})
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("closing never completes, or leaves something behind: %s", strings.Join(l, "; "))
		}
		if !recv || !pclosed || !closed || !mg.returned {
			gomc.Fail("after closing: parser %v/%v, command side %v/%v", pclosed, recv, closed, mg.returned)
		}
		if len(w.got) != 1 {
			gomc.Fail("what was sent after the chunk streams had ended was written %d times", len(w.got))
		}
		// a prefix of each chunk stream's messages
		var want [3][]string
		for _, m := range msgs {
			if d := destination(m.csid, m.typ, m.sid); d != toNone {
				want[d-1] = append(want[d-1], m.want)
			}
		}
		for i, k := range mg.k {
			k.recheck()
			if len(k.in) > len(want[i]) || fmt.Sprint(k.in) != fmt.Sprint(want[i][:len(k.in)]) || len(k.errs) > 0 {
				gomc.Fail("handler %d gave %q, errors %q", i+1, k.in, k.errs)
			}
		}
		gomc.Outcome(fmt.Sprint(len(mg.k[0].in), len(mg.k[1].in), len(mg.k[2].in)))
	}
}

// twoHandlers: two connections' handlers of one kind at work at once.
// twoBad: handlers of two connections, what they get cannot be decoded and what
// they are to send cannot be written or encoded.
func twoBad(which, a, b int) func() {
	return func() {
		var ks [2]*seen
		for i := 0; i < 2; i++ {
			all, bad := msgsOf(which, float64(i+1), fmt.Sprint("k", i), i == 0, byte(0x10+i)), badOf(which)
			in := []inMsg{bad[[]int{a, b}[i]%len(bad)], all[i%len(all)]}
			out := outOf(which)[2*i]
			src := make(chan *chunk.Chunk)
			w := &fakeWriter{fail: map[int]bool{1: true}}
			ks[i] = &seen{}
			h := makers[which](src, w)
			gomc.GoDaemon("listen", h.listen)
			h.drain(ks[i], false)
			gomc.Go("harness/feed", func() {
				src <- chunkTo(which, in[0])
				h.send(out.send)
				src <- chunkTo(which, in[1])
			})
			defer func() {
				if fmt.Sprint(ks[i].in) != fmt.Sprint([]string{in[1].want}) || len(ks[i].errs) != 2 || len(w.got) > 0 {
					gomc.Fail("connection %d gave %q, errors %q and wrote %v", i+1, ks[i].in, ks[i].errs, w.got)
				}
			}()
		}
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("stuck: %v", l)
		}
	}
}

func twoHandlers(which int) func() {
	return func() {
		var ks [2]*seen
		var ws [2]*fakeWriter
		var want [2]string
		var wantW [2][]wire
		for i := 0; i < 2; i++ {
			all := msgsOf(which, float64(i+1), fmt.Sprint("k", i), i == 0, byte(0x10+i))
			in := []inMsg{all[i%len(all)], all[len(all)-1]}
			out := outOf(which)[i : i+1]
			src := make(chan *chunk.Chunk)
			ws[i] = &fakeWriter{fail: map[int]bool{}}
			ks[i] = &seen{}
			h := makers[which](src, ws[i])
			want[i] = fmt.Sprint([]string{in[0].want, in[1].want})
			wantW[i] = []wire{out[0].want}
			gomc.GoDaemon("listen", h.listen)
			h.drain(ks[i], false)
			gomc.Go("harness/feed", func() {
				src <- chunkTo(which, in[0])
				h.send(out[0].send)
				src <- chunkTo(which, in[1])
			})
		}
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("stuck: %v", l)
		}
		for i := range ks {
			ks[i].recheck()
			if fmt.Sprint(ks[i].in) != want[i] || len(ks[i].errs) > 0 {
				gomc.Fail("connection %d gave %q, errors %q instead of %s", i+1, ks[i].in, ks[i].errs, want[i])
			}
			if len(ws[i].got) != 1 || !ws[i].got[0].eq(wantW[i][0]) {
				gomc.Fail("connection %d wrote %v instead of %v", i+1, ws[i].got, wantW[i])
			}
		}
	}
}

// twoManagers: two command sides dispatching at once.
func twoManagers() {
	var mgs [2]*manager
	var msgs [2][]dmsg
	for i := range mgs {
		mgs[i] = newManager(true, false)
		k := kinds[[]int{0, 5}[i]]
		msgs[i] = []dmsg{dispatchable(k.csid, k.typ, k.sid, 10*i+1)}
		mg, l := mgs[i], msgs[i]
		mg.start()
		gomc.Go("harness/feed", func() {
			for _, m := range l {
				mg.src.c <- m.chunk()
			}
		})
	}
	gomc.Quiesce()
	for i := range mgs {
		mgs[i].verify(msgs[i])
	}
}

func init() {
	R := gomc.Register
	reg := func(tier, name, bound string, cl closing) {
		if tier == "quick" {
			R(gomc.Scenario{Prop: "C20", Name: "c20-" + name, Tier: tier, Bound: bound + "; closed at any moment; all schedules with at most 4 deviations from the oldest-first one, all map iteration orders", Opts: gomc.Opts{Mem: true, MapOrder: true, Dev: 4}, Body: cl.run})
			name, tier = name+"-all", "thorough"
		}
		R(gomc.Scenario{Prop: "C20", Name: "c20-" + name, Tier: tier, Bound: bound + "; closed at any moment; all schedules and map iteration orders", Opts: gomc.Opts{Mem: true, MapOrder: true}, Body: cl.run})
	}
	reg("quick", "managed", "2 messages (connection, stream), managed handlers", closing{kinds: []int{0, 2}, managed: true})
	reg("quick", "managed-bad", "2 data messages, one malformed, managed handlers", closing{kinds: []int{4, 5}, bad: 1, managed: true})
	reg("quick", "managed-split", "1 message, results and errors taken by different goroutines", closing{kinds: []int{3}, managed: true, split: true})
	reg("quick", "managed-send", "1 message, one item sent to each handler, managed handlers", closing{kinds: []int{0}, managed: true, send: true})
	reg("quick", "managed-end", "1 message, then the chunk stream ends, managed handlers", closing{kinds: []int{4}, managed: true, end: true})
	reg("quick", "managed-idle", "no message, managed handlers", closing{managed: true})
	reg("quick", "unmanaged", "2 messages (connection, data), handlers run by the application", closing{kinds: []int{0, 4}})
	reg("quick", "unmanaged-end", "1 message, then the chunk stream ends, handlers run by the application", closing{kinds: []int{2}, end: true})
	reg("quick", "managed-slow", "2 messages (connection, stream), managed handlers, a slow application", closing{kinds: []int{0, 2}, managed: true, slow: true})
	reg("quick", "managed-slow-data", "3 messages (data, stream, data), managed handlers, a slow application", closing{kinds: []int{4, 3, 5}, managed: true, slow: true})
	reg("quick", "managed-slow-bad", "2 stream messages, one malformed, managed handlers, a slow application", closing{kinds: []int{2, 3}, bad: 1, managed: true, slow: true})
	reg("quick", "unmanaged-slow", "2 messages (data, stream), handlers run by a slow application", closing{kinds: []int{5, 2}, slow: true})
	for i, k := range [][]int{{0, 1}, {2, 3}, {5, 4}} {
		for _, bad := range []int{1, 2} {
			n := fmt.Sprintf("-bad-%s%d", names[i], bad)
			b := fmt.Sprintf("2 %s messages, number %d malformed, ", names[i], bad)
			reg("quick", "managed"+n, b+"managed handlers", closing{kinds: k, bad: bad, managed: true})
			reg("quick", "managed-slow"+n, b+"managed handlers, a slow application", closing{kinds: k, bad: bad, managed: true, slow: true})
			reg("quick", "unmanaged"+n, b+"handlers run by the application", closing{kinds: k, bad: bad})
		}
	}
	reg("thorough", "managed-deep", "4 messages, one malformed, managed handlers, one item sent to each", closing{kinds: []int{0, 2, 5, 1}, bad: 2, managed: true, send: true})
	reg("thorough", "unmanaged-deep", "3 messages, handlers run by the application", closing{kinds: []int{2, 6, 1}})

	b := func(tier, name, bound string, await bool, msgs ...dmsg) {
		bound = "command side behind parser and reader, " + bound + ", the parser closed at any moment, then the command side; all schedules"
		if tier == "quick" {
			R(gomc.Scenario{Prop: "C10", Name: "c10-cmd-" + name, Tier: tier, Bound: bound + " with at most 4 deviations from the oldest-first one", Opts: gomc.Opts{Mem: true, Dev: 4}, Body: behind(await, msgs...)})
			name, tier = name+"-all", "thorough"
		}
		R(gomc.Scenario{Prop: "C10", Name: "c10-cmd-" + name, Tier: tier, Bound: bound, Opts: gomc.Opts{Mem: true}, Body: behind(await, msgs...)})
	}
	b("quick", "idle", "no message", false)
	b("quick", "one", "one message", false, dispatchable(4, 8, 1, 1))
	b("quick", "await", "one message, the group waited for", true, dispatchable(3, 0x14, 0, 1))
	b("thorough", "two", "two messages on different chunk streams", false, dispatchable(4, 8, 1, 1), dispatchable(8, 0x14, 1, 2))

	race := gomc.Opts{Mem: true, RaceFails: true}
	for i := 0; i < 3; i++ {
		R(gomc.Scenario{Prop: "C16", Name: "c16-" + names[i], Tier: "quick", Opts: race, Body: twoHandlers(i),
			Bound: "two " + names[i] + " handlers, 2 messages in and 1 item out each; all schedules, races are violations"})
		for k := range badOf(i) {
			R(gomc.Scenario{Prop: "C16", Name: fmt.Sprintf("c16-%s-bad%d", names[i], k), Tier: "quick", Opts: race, Body: twoBad(i, k, k+k%2),
				Bound: "two " + names[i] + " handlers, a malformed message, a good one and an item that cannot be sent each; all schedules, races are violations"})
		}
	}
	R(gomc.Scenario{Prop: "C16", Name: "c16-managers", Tier: "quick", Opts: race, Body: twoManagers,
		Bound: "two command sides dispatching one message each; all schedules, races are violations"})
}
