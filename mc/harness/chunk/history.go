package main

import (
	"fmt"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// Long histories: what was decoded, written or handed out early is kept and
// looked at again at the end, and nothing depends on how much came before.

var histIDs = []uint32{3, 64, 320, 2, 319, 400, 62, 65599}

func histID(i int) uint32 {
	if i < len(histIDs) {
		return histIDs[i]
	}
	return uint32(1000 + 37*i)
}

// longStream makes a well-formed stream of n messages on k chunk streams.
func longStream(n, k, size, lens, mix int) *hlib.Gen {
	g := hlib.NewGen(size)
	length := func(i int) int {
		switch lens {
		case 0:
			return i % 10
		case 1:
			return max(size-2+i%5, 0)
		}
		return []int{0, 1, 3 * size, 2*size + 1, min(700, 40*size), min(1500, 60*size)}[i%6]
	}
	for i := 0; i < n; i++ {
		c := histID((i * i / 3) % k)
		for g.Busy(c) {
			g.Cont(c)
		}
		f := byte(0)
		if g.HasHeader(c) {
			switch mix {
			case 0:
				f = byte(i % 4)
			case 1: // mostly header type 3
				f = 3
				if i%97 == 0 {
					f = 1
				}
			case 2:
				f = byte(i % 3)
			}
		}
		g.StartN(f, c, length(i))
		if i%3 == 0 { // leave it in progress
			continue
		}
		for g.Busy(c) {
			g.Cont(c)
		}
	}
	g.Finish()
	return g
}

func decodeHistory(n int) func() {
	return func() {
		k := pick("chunk streams", 1, 2, 5, 40, 300)
		size := pick("chunk size", 128, 1, 5, 4096)
		g := longStream(n, k, size, gomc.Choose(3, "lengths"), gomc.Choose(3, "header types"))
		expect(g, decode(&hlib.Src{Data: g.Out}, size, nil), "decoding a long stream")
	}
}

// the same under reads of odd sizes, against whole reads
func fragmentHistory() {
	step := pick("read size", 1, 2, 7, 64, 1000, 4096, 4097)
	k := pick("chunk streams", 1, 5, 300)
	size := pick("chunk size", 128, 5)
	g := longStream(200, k, size, gomc.Choose(3, "lengths"), 0)
	empty := pick("empty reads", 0, 3, 100)
	src := &hlib.Src{Data: g.Out, WithLast: gomc.Choose(2, "end with the last bytes") == 1}
	calls, zeros := 0, 0
	src.Frag = func(want int) (int, bool) {
		calls++
		if empty > 0 && zeros < empty && calls%5 == 0 {
			zeros++
			calls-- // that many in a row
			return 0, true
		}
		zeros = 0
		if want > step {
			return step, false
		}
		return want, false
	}
	expect(g, decode(src, size, nil), "decoding a long stream in small reads")
}

// the chunk size changes again and again
func sizeHistory(n int) func() {
	return func() {
		k := pick("chunk streams", 1, 2, 40)
		every := pick("messages between the changes", 0, 1, 3)
		ctl := pick("chunk stream of the change", uint32(2), 3, 70)
		g := hlib.NewGen(128)
		for i := 0; i < n; i++ {
			c := histID(10 + i%k)
			for g.Busy(c) {
				g.Cont(c)
			}
			g.StartN(0, c, []int{300, 5, 129, 0}[i%4])
			if every == 0 || i%every == 0 {
				f := byte(0)
				if g.HasHeader(ctl) && g.LastType(ctl) == 1 && g.LastLen(ctl) == 4 {
					f = byte(i % 4)
				}
				v := []uint32{1, 128, 0x7fffffff, 3, 4096, 127, 2, 65536}[i%8]
				for g.Busy(ctl) {
					g.Cont(ctl)
				}
				g.Whole(f, ctl, 0, 0, 1, 0, hlib.U32(v))
			}
		}
		g.Finish()
		res := decode(&hlib.Src{Data: g.Out}, 128, nil)
		expect(g, res, "decoding with many changes of the chunk size")
		if res.size != g.Size {
			gomc.Fail("read size %d at the end instead of %d", res.size, g.Size)
		}
	}
}

// a failure after a long history
func failHistory() {
	kind := gomc.Choose(6, "kind of failure")
	k := pick("chunk streams", 1, 5, 300)
	g := longStream(150, k, 128, gomc.Choose(3, "lengths"), 0)
	// every byte of the last messages, every 7th of the others
	for cut := 0; cut < len(g.Out); cut++ {
		if cut < len(g.Out)-60 && cut%2003 != 0 {
			continue
		}
		gomc.Count("beat", 1)
		failAt(g, 128, cut, kind)
	}
}

// more messages than a 16-bit counter counts
const many = 65536 + 700

func decodeMany() {
	k := pick("chunk streams", 1, 3)
	g := hlib.NewGen(128)
	for i := 0; i < many; i++ {
		c := histID(i % k)
		f := byte(0)
		if g.HasHeader(c) {
			f = []byte{3, 1, 3, 2, 0, 3, 3, 3}[i/k%8]
		}
		g.StartN(f, c, i%5)
		g.Finish()
	}
	expect(g, decode(&hlib.Src{Data: g.Out}, 128, nil), "decoding a very long stream")
}

// one message of the greatest length, and of more than 65536 pieces
func decodeHuge() {
	d := pick("length, chunk size", [2]int{0xffffff, 65536}, [2]int{0xffffff, 0x7fffffff}, [2]int{0xffffff, 1000}, [2]int{1 << 20, 128}, [2]int{70000, 1}, [2]int{65536 * 2, 2}, [2]int{1<<23 + 1, 4096})
	g := hlib.NewGen(d[1])
	g.StartN(0, 5, 3)
	g.Finish()
	g.StartN(0, 4, d[0])
	mixed := gomc.Choose(2, "another message in between") == 1
	if mixed {
		for i := 0; i < 50 && g.Busy(4); i++ {
			g.Cont(4)
			if i < 20 {
				g.StartN(byte(i%2), 5, d[1]%100+i)
			}
			for g.Busy(5) {
				g.Cont(5)
			}
		}
	}
	g.Finish()
	g.StartN(3, 4, d[0])
	g.Finish()
	g.StartN(0, 5, 3)
	g.Finish()
	expect(g, decode(&hlib.Src{Data: g.Out}, d[1], nil), "decoding a huge message")
}

func writeMany() {
	size := pick("write size", 128, 4)
	dst := hlib.NewDst()
	dst.Quiet = true
	w := chunk.NewWriter(dst, size)
	for i := 0; i < many; i++ {
		m := hlib.Msg{Fmt: byte(i % 4), CSID: 3 + uint32(i%5), TS: uint32(i), Delta: i%4 > 0, Type: 9, SID: 1, Data: hlib.Pattern(i, i%9)}
		writeOne(w, dst, m, size)
	}
	gomc.Count("beat", 1)
}

func sizeMany() {
	every := pick("messages between the changes", 1, 2)
	g := hlib.NewGen(128)
	for i := 0; i < many; i++ {
		if i%every == 0 {
			g.Whole(0, 2, 0, 0, 1, 0, hlib.U32([]uint32{1, 128, 4096, 3, 5}[i%5]))
		}
		g.StartN(0, 4, i%7)
		g.Finish()
	}
	expect(g, decode(&hlib.Src{Data: g.Out}, 128, nil), "decoding with very many changes of the chunk size")
}

func routeMany() {
	k := pick("chunk streams", 1, 2)
	every := pick("errors", 0, 2)
	var items []any
	for i := 0; i < many; i++ {
		items = append(items, msg(uint32(3+i%k), i%256))
		if every > 0 && i%every == 0 {
			items = append(items, fmt.Errorf("e%d", i))
		}
	}
	p := chunk.NewParser(newScript(items...))
	var asks [][]uint32
	var sinks []*sink
	for i := 0; i < k; i++ {
		s, err := p.Stream(uint32(3 + i))
		if err != nil {
			gomc.Fail("asking for chunk stream %d: %v", 3+i, err)
		}
		sk := &sink{}
		sinks, asks = append(sinks, sk), append(asks, []uint32{uint32(3 + i)})
		go func() {
			for c := range s.In() {
				sk.got = append(sk.got, name(c))
			}
		}()
	}
	errs := &sink{}
	go p.Recv()
	go drainErrs(p, errs)
	gomc.Quiesce()
	checkSinks(items, asks, sinks, errs)
	gomc.Count("evaluations", 1)
}

func mergeMany() {
	k := pick("sources", 1, 2)
	m := chunk.NewMultiStream()
	want := make([][]string, k)
	for i := 0; i < k; i++ {
		s := &source{make(chan *chunk.Chunk)}
		m.Append(s)
		for j := 0; j < many/k; j++ {
			want[i] = append(want[i], name(msg(uint32(i), j)))
		}
		go func() {
			for j := range want[i] {
				s.ch <- msg(uint32(i), j)
			}
			close(s.ch)
		}()
	}
	var got []string
	waited, ended := false, false
	go func() {
		for c := range m.In() {
			got = append(got, name(c))
		}
		ended = true
	}()
	go func() { m.AwaitClose(); waited = true }()
	if l := gomc.Quiesce(); len(l) > 0 || !waited || !ended {
		gomc.Fail("the merged stream does not end: %v", l)
	}
	if d := hlib.Merge(got, want...); d != "" {
		gomc.Fail("merged stream of %d sources: %s", k, d)
	}
	gomc.Count("evaluations", 1)
}

func writeHistory(n int) func() {
	return func() {
		size := pick("write size", 128, 1, 3, 4096)
		change := pick("change the size", 0, 1, 50)
		k := pick("chunk streams", 1, 7, 300)
		dst := hlib.NewDst()
		dst.Quiet = true
		w := chunk.NewWriter(dst, size)
		var exp []byte
		for i := 0; i < n; i++ {
			if change > 0 && i%change == 0 {
				size = []int{1, 128, 129, 65536, 2, 7}[i/change%6]
				w.SetWriteSize(size)
			}
			f := byte(i % 4)
			m := hlib.Msg{Fmt: f, CSID: histID(i % k), TS: uint32(i), Delta: f > 0, Type: byte(i), SID: uint32(i * 3), Data: hlib.Pattern(i, []int{0, 128, 129, 500, 3}[i%5])}
			if i%11 == 0 {
				m.TS, m.Ext = 0xffffff, uint32(0x1000000+i)
			}
			writeOne(w, dst, m, size)
			exp = append(exp, wireForm(m, size)...)
		}
		if d := hlib.BytesDiff(exp, dst.Data); d != "" {
			gomc.Fail("a long history of writes: %s", d)
		}
	}
}

// many chunk streams and groups, messages and errors for them
func routeHistory(n int) func() {
	return func() {
		// the costly ones first
		d := pick("consumers, chunk streams of each", [2]int{70, 5}, [2]int{70, 2}, [2]int{70, 1}, [2]int{9, 5}, [2]int{9, 2}, [2]int{9, 1},
			[2]int{2, 5}, [2]int{2, 2}, [2]int{2, 1}, [2]int{1, 5}, [2]int{1, 2}, [2]int{1, 1})
		k, group := d[0], d[1]
		slow := pick("slow consumers", 0, 1, 2) // none, every other one, all
		when := pick("asked for", 0, 1)         // before, while receiving
		var items []any
		for i := 0; i < n; i++ {
			c := uint32(2 + (i*7+i/5)%(k*group))
			items = append(items, msg(c, i%256))
			if i%13 == 5 {
				items = append(items, fmt.Errorf("e%d", i))
			}
		}
		p := chunk.NewParser(newScript(items...))
		sinks, asks := make([]*sink, k), make([][]uint32, k)
		streams := make([]chunk.Stream, k)
		ask := func(i int) {
			s, err := p.Stream(asks[i]...)
			if err != nil || s == nil {
				gomc.Fail("asking for %v for the first time: %v", asks[i], err)
			}
			streams[i] = s
		}
		for i := range asks {
			sinks[i] = &sink{}
			for j := 0; j < group; j++ {
				asks[i] = append(asks[i], uint32(2+i+j*k))
			}
			if when == 0 {
				ask(i)
			}
		}
		errs := &sink{}
		go p.Recv()
		go drainErrs(p, errs)
		for i := range asks {
			lazy := slow == 2 || slow == 1 && i%2 == 0
			go func() {
				if when == 1 {
					if lazy {
						hlib.Slow("a late consumer")
					}
					ask(i)
				}
				for {
					if lazy {
						hlib.Slow("a slow consumer")
					}
					c, ok := <-streams[i].In()
					if !ok {
						return
					}
					sinks[i].got = append(sinks[i].got, name(c))
				}
			}()
		}
		gomc.Quiesce()
		checkSinks(items, asks, sinks, errs)
		// asked for again
		for i, a := range asks {
			s, err := p.Stream(a[0])
			if err != nil || s == nil || group == 1 && s != streams[i] {
				gomc.Fail("asking again for chunk stream %d: %v", a[0], err)
			}
			if group > 1 {
				if s2, err := p.Stream(a[0], a[1]); err == nil || s2 != nil {
					gomc.Fail("a group taken already is handed out again")
				}
			}
		}
		gomc.Count("evaluations", 1)
	}
}

// closing after a history, with many streams open
func closeHistory() {
	d := pick("chunk streams, asked for but silent", [2]int{70, 100}, [2]int{70, 0}, [2]int{3, 100}, [2]int{1, 100}, [2]int{3, 0}, [2]int{1, 0}, [2]int{1, 3})
	k, extra := d[0], d[1]
	n := pick("messages", 0, 1, 40)
	first := pick("errors", 0, 1, 2)
	after := gomc.Choose(n+2, "closed after")
	if k+extra > 10 && after > 3 && after < n-2 && after%9 != 0 {
		return
	}
	slow := gomc.Choose(2, "slow application") == 1
	g := hlib.NewGen(128)
	for i := 0; i < n; i++ {
		c := uint32(3 + i%k)
		g.Whole(0, c, uint32(i), 0, 9, 1, []byte{byte(c), byte(i)})
	}
	src := &hlib.Src{Data: g.Out, Hold: true, First: first, Err: hlib.ErrTransport}
	p := chunk.NewParser(chunk.NewReader(src, 128, chunk.NewNormalizer()))
	errs := &sink{}
	var sinks []*sink
	taken := 0
	trigger := make(chan struct{})
	note := func() {
		if taken++; taken == after {
			close(trigger)
		}
	}
	if after == 0 {
		close(trigger)
	} else if after == n+1 && first == 0 {
		return
	}
	for i := 0; i < k+extra; i++ {
		sk := &sink{}
		sinks = append(sinks, sk)
		s, err := p.Stream(uint32(3 + i))
		if err != nil {
			gomc.Fail("asking for %d: %v", 3+i, err)
		}
		go func() {
			for {
				if slow {
					hlib.Slow("a slow consumer")
				}
				c, ok := <-s.In()
				if !ok {
					sk.done = true
					return
				}
				sk.got = append(sk.got, name(c))
				note()
			}
		}()
	}
	go func() {
		for {
			if slow {
				hlib.Slow("a slow consumer")
			}
			e, ok := <-p.Errs()
			if !ok {
				errs.done = true
				return
			}
			errs.got = append(errs.got, e.Error())
			note()
		}
	}()
	returned, closed := false, false
	go func() { p.Recv(); returned = true }()
	go func() {
		<-trigger
		p.Close()
		closed = true
	}()
	gomc.GoDaemon("connection closed", func() {
		for !closed {
			gomc.LowPrio("close the connection")
			select {
			case <-trigger:
				src.Release()
				return
			default:
			}
		}
	})
	if l := gomc.Quiesce(); len(l) > 0 || !returned || !closed {
		gomc.Fail("closing never completes, or leaves something behind: %s (Recv returned=%v, Close returned=%v)", strings.Join(l, "; "), returned, closed)
	}
	for i, sk := range sinks {
		if !sk.done {
			gomc.Fail("chunk stream %d did not end", 3+i)
		}
		var want []string
		for j := 0; j < n; j++ {
			if j%k == i {
				want = append(want, fmt.Sprintf("%d.%d", byte(3+i), byte(j)))
			}
		}
		prefix(sk.got, want)
	}
	if !errs.done {
		gomc.Fail("the error channel did not end")
	}
	gomc.Count("evaluations", 1)
}

// many sources, some of them long
func mergeHistory() {
	k := pick("sources", 1, 2, 9, 70, 700)
	per := pick("messages of each", 0, 1, 5, 60)
	if k == 700 && per > 1 {
		return
	}
	slow := gomc.Choose(2, "slow consumer") == 1
	how := gomc.Choose(3, "appended") // one by one, all at once, one by one while running
	m := chunk.NewMultiStream()
	var srcs []chunk.Stream
	var chs []chan *chunk.Chunk
	want := make([][]string, k)
	for i := 0; i < k; i++ {
		c := make(chan *chunk.Chunk)
		chs = append(chs, c)
		srcs = append(srcs, &source{c})
	}
	feed := func(i int) {
		for j := 0; j < per; j++ {
			c := msg(uint32(i), j)
			want[i] = append(want[i], name(c))
			chs[i] <- c
		}
		close(chs[i])
	}
	keep := &source{make(chan *chunk.Chunk)} // holds the merged stream open
	m.Append(keep)
	switch how {
	case 0:
		for i, s := range srcs {
			m.Append(s)
			go feed(i)
		}
		close(keep.ch)
	case 1:
		m.Append(srcs...)
		for i := range srcs {
			go feed(i)
		}
		close(keep.ch)
	case 2:
		go func() {
			for i, s := range srcs {
				gomc.LowPrio("append another")
				m.Append(s)
				go feed(i)
			}
			close(keep.ch)
		}()
	}
	sk := &sink{}
	waited := false
	go func() {
		for {
			if slow {
				hlib.Slow("a slow consumer")
			}
			c, ok := <-m.In()
			if !ok {
				sk.done = true
				return
			}
			sk.got = append(sk.got, name(c))
		}
	}()
	go func() { m.AwaitClose(); waited = true }()
	if l := gomc.Quiesce(); len(l) > 0 || !waited || !sk.done {
		gomc.Fail("the merged stream does not end: %v", l)
	}
	if d := hlib.Merge(sk.got, want...); d != "" {
		gomc.Fail("merged stream of %d sources: %s", k, d)
	}
	gomc.Count("evaluations", 1)
}

func init() {
	R := gomc.Register
	fixed := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	R(gomc.Scenario{Prop: "C01", Name: "c01-history", Tier: "quick", Opts: fixed(5), Body: decodeHistory(600),
		Bound: "600 messages on 1 to 300 chunk streams x 4 chunk sizes x 3 kinds of lengths x 3 mixes of header types, all kept until the end"})
	R(gomc.Scenario{Prop: "C01", Name: "c01-many", Tier: "quick", Opts: fixed(2), Body: decodeMany,
		Bound: fmt.Sprint(many, " messages on 1 or 3 chunk streams, all kept until the end")})
	R(gomc.Scenario{Prop: "C01", Name: "c01-huge", Tier: "quick", Opts: fixed(7), Body: decodeHuge,
		Bound: "messages of up to 0xffffff bytes and of up to 131072 pieces, alone or with others in between"})
	R(gomc.Scenario{Prop: "C02", Name: "c02-many", Tier: "quick", Opts: fixed(2), Body: writeMany,
		Bound: fmt.Sprint(many, " messages through one writer")})
	R(gomc.Scenario{Prop: "C05", Name: "c05-many", Tier: "quick", Opts: fixed(2), Body: sizeMany,
		Bound: fmt.Sprint(many, " messages with a change of the chunk size before each or every other one")})
	R(gomc.Scenario{Prop: "C08", Name: "c08-many", Tier: "quick", Opts: fixed(2), Body: routeMany,
		Bound: fmt.Sprint(many, " messages for 1 or 2 consumers, with and without errors in between")})
	R(gomc.Scenario{Prop: "C09", Name: "c09-many", Tier: "quick", Opts: fixed(2), Body: mergeMany,
		Bound: fmt.Sprint(many, " messages from 1 or 2 sources")})
	R(gomc.Scenario{Prop: "C04", Name: "c04-history", Tier: "quick", Opts: fixed(7), Body: fragmentHistory,
		Bound: "200 messages on 1 to 300 chunk streams x 2 chunk sizes x 3 kinds of lengths x 7 sizes of reads x up to 100 empty reads in a row"})
	R(gomc.Scenario{Prop: "C05", Name: "c05-history", Tier: "quick", Opts: fixed(3), Body: sizeHistory(300),
		Bound: "300 messages on 1, 2 or 40 chunk streams with up to 300 changes of the chunk size in between"})
	R(gomc.Scenario{Prop: "C06", Name: "c06-history", Tier: "quick", Opts: fixed(5), Body: failHistory,
		Bound: "150 messages on 1 to 300 chunk streams x failure after each of the last 60 bytes and every 2003rd other x 6 kinds of failure"})
	R(gomc.Scenario{Prop: "C02", Name: "c02-history", Tier: "quick", Opts: fixed(4), Body: writeHistory(800),
		Bound: "800 messages on 1 to 300 chunk streams with up to 800 changes of the write size"})
	R(gomc.Scenario{Prop: "C08", Name: "c08-history", Tier: "quick", Opts: fixed(12), Body: routeHistory(300),
		Bound: "300 messages and errors for 1 to 70 consumers of 1 to 5 chunk streams each, asked for early or late, quick or slow consumers"})
	R(gomc.Scenario{Prop: "C10", Name: "c10-history", Tier: "quick", Opts: fixed(7), Body: closeHistory,
		Bound: "up to 40 messages on up to 70 chunk streams, up to 100 more asked for, closed after every number of messages and errors (every 9th with many chunk streams), quick or slow application"})
	R(gomc.Scenario{Prop: "C09", Name: "c09-history", Tier: "quick", Opts: fixed(5), Body: mergeHistory,
		Bound: "1 to 70 sources of up to 60 messages or 700 of up to 1, appended at once or one by one, quick or slow consumer"})
}
