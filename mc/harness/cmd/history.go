package main

import (
	"fmt"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/data"

	"verif/mc/gomc"
)

// Long histories through the command side: what was delivered or made early is
// kept and compared again at the end, and nothing depends on what came before.

// numbered makes the i-th of a long series of messages for a handler.
func numbered(which, i int) inMsg {
	if which == 2 && i%4 < 2 {
		p := append([]byte{byte(i)}, []byte(fmt.Sprint("frame ", i))...)
		if i%4 == 0 {
			return inMsg{8, p, fmt.Sprintf("audio %02x % x", p[0], p[1:])}
		}
		return inMsg{9, p, fmt.Sprintf("video %02x % x", p[0], p[1:])}
	}
	all := msgsOf(which, float64(i), fmt.Sprint("s", i), i%2 == 0, byte(i))
	return all[i%len(all)]
}

func numberedOut(which, i int) outMsg {
	switch which {
	case 0:
		if i%2 == 0 {
			return createResp(float64(i), float64(2*i))
		}
		return connectResp(float64(i), fmt.Sprint("code", i))
	case 1:
		return status(fmt.Sprint("code", strings.Repeat("x", i%50), i))
	}
	if i%2 == 0 {
		return frame(fmt.Sprint("type", i), float64(i))
	}
	return audio(1, 0xaf, byte(i), byte(i>>8))
}

func numberedBad(which, n int) outMsg {
	l := badOuts(which, n)
	return l[n%len(l)]
}

func handlerHistory(which int) func() {
	return func() {
		st := setup{which: which, split: gomc.Choose(2, "drained by two goroutines") == 1, slow: gomc.Choose(2, "slow application") == 1}
		st.close = gomc.Choose(2, "closed at the end") == 1
		st.end = gomc.Choose(2, "the source ends") == 1
		every := pick("bad messages", 0, 2, 7)
		for i := 0; i < 300; i++ {
			if every > 0 && i%every == every-1 {
				bad := badOf(which)
				st.in = append(st.in, bad[(i/every)%len(bad)])
			} else {
				st.in = append(st.in, numbered(which, i))
			}
		}
		st.out = func() (l []outMsg) {
			for i := 0; i < 150; i++ {
				if every > 0 && i%(every+4) == 1 {
					l = append(l, numberedBad(which, i))
				} else {
					l = append(l, numberedOut(which, i))
				}
			}
			return
		}
		st.out2 = func() (l []outMsg) {
			for i := 0; i < 80; i++ {
				l = append(l, numberedOut(which, 1000+i))
			}
			return
		}
		for i := 1; every > 0 && i < 150; i += every + 3 {
			st.fail = append(st.fail, i)
		}
		st.run()
		gomc.Count("evaluations", 1)
		gomc.Count("beat", 1)
	}
}

// dispatchHistory: many messages of all kinds through the dispatch loop.
func dispatchHistory() {
	slow = gomc.Choose(2, "slow application") == 1
	defer func() { slow = false }()
	managed := gomc.Choose(2, "managed") == 1
	split := gomc.Choose(2, "drained by two goroutines each") == 1
	mul := pick("order", 1, 3, 7)
	mg := newManager(managed, split)
	if managed {
		mg.start()
	} else {
		gomc.Go("harness/dispatch", func() { mg.m.Dispatch(false); mg.returned = true })
		for i := range mg.h {
			gomc.GoDaemon("listen", mg.h[i].listen)
		}
	}
	var msgs []dmsg
	for i := 0; i < 400; i++ {
		k := kinds[(i*mul+i/11)%len(kinds)]
		msgs = append(msgs, dispatchable(k.csid, k.typ, k.sid, i+1))
	}
	fed := 0
	gomc.Go("harness/feed", func() {
		for _, m := range msgs {
			mg.src.c <- m.chunk()
			fed++
		}
	})
	gomc.Quiesce()
	if fed != len(msgs) {
		gomc.Fail("only %d of %d messages were taken", fed, len(msgs))
	}
	mg.verify(msgs)
	gomc.Count("evaluations", int64(len(msgs)))
	gomc.Count("beat", 1)
}

// closeHistory: the command side is closed after k messages.
func closeHistory() {
	k := pick("messages before the close", 0, 1, 2, 3, 5, 8, 17, 40, 65, 130, 300)
	cl := closing{managed: gomc.Choose(2, "managed") == 1, split: gomc.Choose(2, "split") == 1, slow: gomc.Choose(2, "slow") == 1, end: gomc.Choose(2, "end") == 1}
	cl.send = gomc.Choose(2, "items sent before the close") == 1
	for i := 0; i < k; i++ {
		cl.kinds = append(cl.kinds, (i*3+i/7)%len(kinds))
	}
	cl.late = gomc.Choose(2, "closed when idle") == 1
	cl.run()
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// framesHistory: many frames, all kept.
func framesHistory() {
	mode := gomc.Choose(4, "types")
	n := pick("frames", 5, 64, 300, 3000)
	step := pick("payload", 0, 1, 9)
	type kept struct {
		d        data.Data
		in, want *chunk.Chunk
	}
	var keep []kept
	seen := map[data.Data]int{}
	for i := 0; i < n; i++ {
		typ := []byte{8, 9, byte(8 + i%2), byte(8 + (i/16)%2)}[mode]
		p := []byte{byte(i*7 + i/256)}
		for j := 0; j < (i*step)%40; j++ {
			p = append(p, byte(i+j))
		}
		if i%37 == 36 { // a refused one in between
			if _, err := parse(avMsg(typ, 4, 1, 0, 0, 0, nil)); err == nil {
				gomc.Fail("an empty message was taken")
			}
		}
		m, same := avMsg(typ, 4, 1, byte(i%3), uint32(i), 0, p), avMsg(typ, 4, 1, byte(i%3), uint32(i), 0, p)
		d, err := parse(m)
		if err != nil {
			gomc.Fail("frame %d: %v", i+1, err)
		}
		if j, ok := seen[d]; ok {
			gomc.Fail("messages %d and %d gave the same frame", j+1, i+1)
		}
		seen[d] = i
		keep = append(keep, kept{d, m, same})
	}
	for _, o := range keep {
		checkFrame(o.d, o.want.Header.MessageHeader.TypeId, o.want.Data[0], o.want.Data[1:])
		g, err := o.d.Marshal()
		checkSame(g, err, o.want)
		checkSame(o.in, nil, o.want)
	}
	gomc.Count("evaluations", int64(n))
	gomc.Count("beat", 1)
}

// makeHistory: many messages made, all kept.
func makeHistory() {
	mode := gomc.Choose(6, "kinds")
	n := pick("messages", 20, 100, 500)
	bad := pick("bad items", 0, 2, 5)
	var ms []outMsg
	var cs []*chunk.Chunk
	for i := 0; i < n; i++ {
		which := i % 3
		if mode < 3 {
			which = mode
		} else if mode == 4 {
			which = (i / 10) % 3
		} else if mode == 5 {
			which = (i * i) % 3
		}
		if bad > 0 && i%bad == bad-1 {
			made(numberedBad(which, i))
			continue
		}
		m := numberedOut(which, i)
		ms, cs = append(ms, m), append(cs, made(m))
	}
	objs := map[*chunk.Header]bool{}
	for i, c := range cs {
		if w := toWire(c); !w.eq(ms[i].want) {
			gomc.Fail("message %d of %d is %v in the end; it was %v", i+1, len(cs), w, ms[i].want)
		}
		if objs[c.Header] {
			gomc.Fail("message %d shares its header with an earlier one", i+1)
		}
		objs[c.Header] = true
	}
	gomc.Count("evaluations", int64(n))
	gomc.Count("beat", 1)
}

// more messages than a 16-bit counter counts
const many = 65536 + 700

// handlerMany: very many messages in or out of one handler.
func handlerMany(which int) func() {
	return func() {
		what := gomc.Choose(4, "what")
		st := setup{which: which, split: what%2 == 1, close: what == 1}
		bad := badOf(which)
		if what < 2 {
			for i := 0; i < many; i++ {
				if what == 1 && i%2 == 1 {
					st.in = append(st.in, bad[i/2%len(bad)])
				} else {
					st.in = append(st.in, numbered(which, i))
				}
			}
		} else {
			st.out = func() (l []outMsg) {
				for i := 0; i < many; i++ {
					if what == 3 && i%2 == 1 {
						l = append(l, numberedBad(which, i))
					} else {
						l = append(l, numberedOut(which, i))
					}
				}
				return
			}
		}
		st.run()
		gomc.Count("evaluations", 1)
		gomc.Count("beat", 1)
	}
}

// dispatchMany: very many messages of all kinds, or of one.
func dispatchMany() {
	one := gomc.Choose(len(kinds)+1, "kinds")
	mg := newManager(true, false)
	mg.start()
	var msgs []dmsg
	for i := 0; i < many; i++ {
		k := kinds[(i+i/11)%len(kinds)]
		if one > 0 {
			k = kinds[one-1]
		}
		msgs = append(msgs, dispatchable(k.csid, k.typ, k.sid, i+1))
	}
	fed := 0
	gomc.Go("harness/feed", func() {
		for _, m := range msgs {
			mg.src.c <- m.chunk()
			fed++
		}
	})
	gomc.Quiesce()
	if fed != len(msgs) {
		gomc.Fail("only %d of %d messages were taken", fed, len(msgs))
	}
	mg.verify(msgs)
	gomc.Count("evaluations", int64(len(msgs)))
	gomc.Count("beat", 1)
}

// framesMany, makeMany: very many frames or messages, each looked at at once.
func framesMany() {
	mode := gomc.Choose(3, "types")
	for i := 0; i < many; i++ {
		typ := []byte{8, 9, byte(8 + i%2)}[mode]
		p := []byte{byte(i*7 + i/256), byte(i), byte(i >> 8)}
		d, err := parse(avMsg(typ, 4, 1, byte(i%3), uint32(i), 0, p))
		if err != nil {
			gomc.Fail("frame %d: %v", i+1, err)
		}
		checkFrame(d, typ, p[0], p[1:])
		g, err := d.Marshal()
		checkSame(g, err, avMsg(typ, 4, 1, byte(i%3), uint32(i), 0, p))
	}
	gomc.Count("evaluations", many)
	gomc.Count("beat", 1)
}

func makeMany() {
	which := gomc.Choose(4, "kinds")
	for i := 0; i < many; i++ {
		w := which
		if which == 3 {
			w = i % 3
		}
		if i%7 == 6 {
			made(numberedBad(w, i))
			continue
		}
		m := numberedOut(w, i)
		if g := toWire(made(m)); !g.eq(m.want) {
			gomc.Fail("message %d is %v instead of %v", i+1, g, m.want)
		}
	}
	gomc.Count("evaluations", many)
	gomc.Count("beat", 1)
}

func init() {
	R := gomc.Register
	fixed := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	for i := 0; i < 3; i++ {
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[i] + "-history", Tier: "quick", Opts: fixed(2), Body: handlerHistory(i),
			Bound: "long histories: 300 messages in (some bad), 150 and 80 items out by two goroutines (some cannot be encoded, some writes fail), drained in 4 ways, closed at the end or not, everything compared again at the end"})
	}
	for i := 0; i < 3; i++ {
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[i] + "-many", Tier: "quick", Opts: fixed(4), Body: handlerMany(i),
			Bound: fmt.Sprint(many, " messages in (good, or every other bad and closed at the end) or out (good, or every other unencodable)")})
	}
	R(gomc.Scenario{Prop: "C18", Name: "c18-many", Tier: "quick", Opts: gomc.Opts{Fixed: true, One: true, Shards: len(kinds) + 1}, Body: dispatchMany,
		Bound: fmt.Sprint(many, " messages of all kinds, or of each kind alone")})
	R(gomc.Scenario{Prop: "C21", Name: "c21-many", Tier: "quick", Opts: fixed(3), Body: framesMany,
		Bound: fmt.Sprint(many, " frames in a row, 3 orders of audio and video")})
	R(gomc.Scenario{Prop: "C22", Name: "c22-many", Tier: "quick", Opts: fixed(4), Body: makeMany,
		Bound: fmt.Sprint(many, " messages made in a row, of one kind or of all, every seventh failing")})
	R(gomc.Scenario{Prop: "C18", Name: "c18-history", Tier: "quick", Opts: fixed(2), Body: dispatchHistory,
		Bound: "400 messages of 11 kinds in 3 orders, managed or not, drained in 4 ways, everything compared again at the end"})
	R(gomc.Scenario{Prop: "C20", Name: "c20-history", Tier: "quick", Opts: fixed(11), Body: closeHistory,
		Bound: "closed after 0-300 messages of 11 kinds, managed or not, drained in 4 ways, the chunk stream ending or not, with items sent before or not, at once or when idle; default schedule"})
	R(gomc.Scenario{Prop: "C21", Name: "c21-history", Tier: "quick", Opts: fixed(4), Body: framesHistory,
		Bound: "5-3000 frames in a row, 4 orders of audio and video, all kept and compared at the end"})
	R(gomc.Scenario{Prop: "C22", Name: "c22-history", Tier: "quick", Opts: fixed(6), Body: makeHistory,
		Bound: "20-500 messages made in a row, 6 orders of kinds, some failing, all kept and compared at the end"})
}
