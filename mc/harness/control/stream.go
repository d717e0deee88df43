package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// fakeStream is a chunk.Stream fed by the harness.
type fakeStream struct{ c chan *chunk.Chunk }

func (f *fakeStream) In() <-chan *chunk.Chunk { return f.c }

// fakeWriter notes what is written; it fails on the messages numbered in fail.
type fakeWriter struct {
	got  []ctl
	n    int
	fail map[int]bool
	err  error // of every write
	obj  gomc.Obj
}

func (w *fakeWriter) Write(c *chunk.Chunk) error {
	gomc.PointNoHB(&w.obj, "chunk writer")
	w.n++
	if w.err != nil {
		return w.err
	}
	if w.fail[w.n] {
		return fmt.Errorf("w%d", w.n)
	}
	m, ok := decodePayload(c.Header.MessageHeader.TypeId, append([]byte(nil), c.Data...))
	if !ok {
		gomc.Fail("written: type %d, % x", c.Header.MessageHeader.TypeId, c.Data)
	}
	if d := checkChunk(m, c); d != "" {
		gomc.Fail("written %v: %s", m, d)
	}
	w.got = append(w.got, m)
	return nil
}
func (w *fakeWriter) WriteSize() int   { return 128 }
func (w *fakeWriter) SetWriteSize(int) {}

// unwritable is a control message that cannot be encoded.
type unwritable struct{ n int }

func (u *unwritable) Read(io.Reader) error  { return nil }
func (u *unwritable) Write(io.Writer) error { return fmt.Errorf("u%d", u.n) }
func (u *unwritable) TypeId() byte          { return 9 }

type inMsg struct {
	typ byte
	p   []byte
}

type seen struct {
	in, errs         []string
	inDone, errsDone bool
	kept             []control.Control
}

// recheck looks again at everything that was taken: it must not have changed.
func (k *seen) recheck() {
	for i, c := range k.kept {
		if s := of(c).String(); s != k.in[i] {
			gomc.Fail("the control message delivered as %q later became %q", k.in[i], s)
		}
	}
}

// slow makes applications take a result only when nothing else can happen.
var slow bool

func lazily() {
	if slow {
		hlib.Slow("slow application")
	}
}

func (k *seen) take(c control.Control) {
	if c == nil {
		gomc.Fail("a nil control message was delivered")
	}
	k.in = append(k.in, of(c).String())
	k.kept = append(k.kept, c)
}

func (k *seen) fail(e error) {
	if e == nil {
		gomc.Fail("a nil error was reported")
	}
	k.errs = append(k.errs, errName(e))
}

func errName(e error) string {
	var u control.UnknownControlType
	if errors.As(e, &u) {
		return fmt.Sprintf("unknown %d", byte(u))
	}
	if errors.Is(e, io.EOF) || errors.Is(e, io.ErrUnexpectedEOF) {
		return "short"
	}
	s := e.Error()
	return s[strings.LastIndexByte(s, ' ')+1:] // what comes before says where it happened
}

// drain with one goroutine, or with one per channel
func drainControl(s *control.Stream, k *seen, split bool) {
	if split {
		go func() {
			for {
				lazily()
				c, ok := <-s.In()
				if !ok {
					break
				}
				k.take(c)
			}
			k.inDone = true
		}()
		go func() {
			for {
				lazily()
				e, ok := <-s.Errs()
				if !ok {
					break
				}
				k.fail(e)
			}
			k.errsDone = true
		}()
		return
	}
	go func() {
		in, errs := s.In(), s.Errs()
		for in != nil || errs != nil {
			lazily()
			select {
			case c, ok := <-in:
				if !ok {
					in, k.inDone = nil, true
					continue
				}
				k.take(c)
			case e, ok := <-errs:
				if !ok {
					errs, k.errsDone = nil, true
					continue
				}
				k.fail(e)
			}
		}
	}()
}

type setup struct {
	in    []inMsg
	out   []any // ctl or *unwritable
	out2  []any // by a second goroutine
	fail  []int
	split bool
	close bool // close at any moment
	end   bool // the chunk stream ends by itself
	slow  bool // the application takes a result only when nothing else can happen
	reuse bool // what is sent or received again is the same object
	odd   bool // message streams and timestamps are not 0
	renew bool // the application sends one object of each type, filled again once it has been written
}

func expectIn(in []inMsg) (msgs, errs []string) {
	for _, m := range in {
		c, ok := decodePayload(m.typ, m.p)
		if ok {
			msgs = append(msgs, c.String())
		} else if m.typ < 1 || m.typ > 6 {
			errs = append(errs, fmt.Sprintf("unknown %d", m.typ))
		} else {
			errs = append(errs, "short")
		}
	}
	return
}

// run explores a control stream in the given setting.
func (st setup) run() {
	slow = st.slow
	defer func() { slow = false }()
	src := &fakeStream{make(chan *chunk.Chunk)}
	w := &fakeWriter{fail: map[int]bool{}}
	for _, n := range st.fail {
		w.fail[n] = true
	}
	s := control.NewStream(src, w, control.NewParser(), control.NewChunker())
	k := &seen{}
	returned, closed := false, false
	go func() { s.Recv(); returned = true }()
	drainControl(s, k, st.split)
	fed, sent, sent2 := 0, 0, 0
	feed := func() {
		var last *chunk.Chunk
		for i, m := range st.in {
			if !st.reuse || i == 0 || m.typ != st.in[i-1].typ || !bytes.Equal(m.p, st.in[i-1].p) {
				last = chunkOf(m.typ, append([]byte(nil), m.p...))
			}
			if st.odd {
				h := &last.Header.MessageHeader
				h.StreamId, h.Timestamp, h.TimestampDelta = uint32(i%3)<<(8*uint(i%4)), uint32(i), i%4 == 1
				h.FormatId = byte(i % 4)
				last.Header.BasicHeader.FormatId = h.FormatId
			}
			src.c <- last
			fed++
		}
		if st.end {
			close(src.c)
		}
	}
	out := s.Out()
	send := func(l []any, n *int) {
		var last ctl
		var made control.Control
		own := map[byte]control.Control{}
		for _, m := range l {
			switch v := m.(type) {
			case ctl:
				if st.renew {
					o, before := own[v.typ], w.n
					if o == nil {
						o = v.make()
						own[v.typ] = o
					} else {
						v.fill(o)
					}
					out <- o
					gomc.WaitFor(&w.obj, "the message to be written", func() bool { return w.n > before })
					break
				}
				if !st.reuse || made == nil || !v.eq(last) {
					last, made = v, v.make()
				}
				out <- made
			case *unwritable:
				out <- v
			}
			*n++
		}
	}
	if st.close {
		// what is not taken any more after the close is the connection's business
		gomc.GoDaemon("feed", feed)
	} else {
		go feed()
	}
	fin := make(chan struct{}, 2)
	go func() { send(st.out, &sent); fin <- struct{}{} }()
	go func() { send(st.out2, &sent2); fin <- struct{}{} }()
	if st.close {
		go func() {
			// the application does not send while it closes
			<-fin
			<-fin
			gomc.Step("decide to close")
			s.Close()
			closed = true
		}()
	}
	left := gomc.Quiesce()
	if st.close {
		if len(left) > 0 || !closed || !returned {
			gomc.Fail("closing never completes, or leaves something behind: %s (Close returned: %v, Recv returned: %v)", strings.Join(left, "; "), closed, returned)
		}
		if !k.inDone || !k.errsDone {
			gomc.Fail("after the close: messages ended: %v, errors ended: %v", k.inDone, k.errsDone)
		}
	} else {
		if returned {
			gomc.Fail("Recv returned without having been closed")
		}
		if fed != len(st.in) || sent != len(st.out) || sent2 != len(st.out2) {
			gomc.Fail("stuck: took %d of %d chunks, %d of %d and %d of %d messages to send", fed, len(st.in), sent, len(st.out), sent2, len(st.out2))
		}
	}
	// every accepted message has had its effect
	k.recheck()
	msgs, inErrs := expectIn(st.in[:fed])
	if d := hlib.Merge(k.in, msgs); d != "" {
		gomc.Fail("control messages received: %s", d)
	}
	if len(k.in)+len(inErrs) > len(st.in) {
		gomc.Fail("more results than messages")
	}
	// written or reported, in order per sender
	if d := outcome(st, w, k.errs, inErrs); d != "" {
		gomc.Fail("%s (written %v, errors %v)", d, w.got, k.errs)
	}
	gomc.Outcome(fmt.Sprint(k.in, k.errs, w.got))
}

// outcome checks the sending side: the writer saw the encodable messages in
// some order that keeps each sender's, failed where it was told to, and the
// errors are exactly those of the encoder, of the writer and of the receiving
// side, each kind in its order.
func outcome(st setup, w *fakeWriter, errs, inErrs []string) string {
	var seqs [2][]any
	seqs[0], seqs[1] = st.out, st.out2
	add := func(l []string, s string) []string {
		if len(seqs[1]) > 0 { // another order may be tried
			l = l[:len(l):len(l)]
		}
		return append(l, s)
	}
	var try func(a, b, n int, werrs []string) string
	try = func(a, b, n int, werrs []string) string {
		last := "nothing"
		if a == len(seqs[0]) && b == len(seqs[1]) {
			if len(w.got) != n-numFail(w, n) {
				return fmt.Sprintf("%d messages written", len(w.got))
			}
			return hlib.Merge(errs, inErrs, werrs)
		}
		for side := 0; side < 2; side++ {
			i := a
			if side == 1 {
				i = b
			}
			if i >= len(seqs[side]) {
				continue
			}
			na, nb := a+1-side, b+side
			switch v := seqs[side][i].(type) {
			case *unwritable:
				last = try(na, nb, n, add(werrs, fmt.Sprintf("u%d", v.n)))
			case ctl:
				m := n + 1
				if w.fail[m] {
					last = try(na, nb, m, add(werrs, fmt.Sprintf("w%d", m)))
				} else {
					idx := m - numFail(w, m) - 1
					if idx >= len(w.got) || !v.eq(w.got[idx]) {
						last = fmt.Sprintf("%v was not written in its turn", v)
						continue
					}
					last = try(na, nb, m, werrs)
				}
			}
			if last == "" {
				return ""
			}
		}
		return last
	}
	return try(0, 0, 0, nil)
}

// repeats: equal or identical messages one after another
func repeats() {
	in := []inMsg{{3, u32(1)}, {5, u32(1)}, {5, u32(2)}, {6, u32(1)}}
	out := []ctl{{typ: 3, v: 1}, {typ: 5, v: 1}, {typ: 4, event: 7, body: []byte{1, 2}}}
	st := setup{reuse: gomc.Choose(2, "the same object") == 1}
	n := gomc.Choose(2, "what")
	for i := 0; i < 4; i++ {
		if n == 0 {
			st.in = append(st.in, pick("message", in...))
		} else {
			st.out = append(st.out, pick("message", out...))
		}
	}
	st.run()
}

func numFail(w *fakeWriter, n int) int {
	if len(w.fail) == 0 {
		return 0
	}
	k := 0
	for i := 1; i <= n; i++ {
		if w.fail[i] {
			k++
		}
	}
	return k
}

// real: a control stream behind the parser and reader, over a transport,
// closed at any moment.
func behindParser(items int) func() {
	return func() {
		g := hlib.NewGen(128)
		g.Whole(0, 2, 0, 0, 3, 0, u32(1))
		if items > 1 {
			g.Whole(0, 2, 0, 0, 3, 0, []byte{1, 2})
		}
		src := &hlib.Src{Data: g.Out, Hold: true}
		p := chunk.NewParser(chunk.NewReader(src, 128, chunk.NewNormalizer()))
		cs, err := p.Stream(2)
		if err != nil {
			gomc.Fail("asking for chunk stream 2: %v", err)
		}
		w := &fakeWriter{}
		s := control.NewStream(cs, w, control.NewParser(), control.NewChunker())
		k := &seen{}
		returned, recv, closed, pclosed, outs := false, false, false, false, 0
		go func() { p.Recv(); returned = true }()
		go func() { s.Recv(); recv = true }()
		drainControl(s, k, false)
		go func() {
			for range p.Errs() {
			}
		}()
		go func() {
			gomc.Step("decide to close")
			p.Close()
			pclosed = true
			// the control stream still serves the application
			s.Out() <- ctl{typ: 5, v: 1}.make()
			outs++
			s.Close()
			closed = true
		}()
		gomc.GoDaemon("connection closed", func() {
			gomc.LowPrio("close the connection")
			src.Release()
		})
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("closing never completes, or leaves something behind: %s", strings.Join(l, "; "))
		}
		if !returned || !recv || !closed || !pclosed || !k.inDone || !k.errsDone {
			gomc.Fail("after closing: parser %v/%v, control stream %v/%v, its channels %v/%v", pclosed, returned, closed, recv, k.inDone, k.errsDone)
		}
		if len(w.got) != 1 {
			gomc.Fail("what was sent after the chunk stream had ended was written %d times", len(w.got))
		}
		if len(k.in) > 1 || len(k.errs) > items-1 || (len(k.in) == 1 && k.in[0] != "3:0x1") {
			gomc.Fail("received %v %v", k.in, k.errs)
		}
		gomc.Outcome(fmt.Sprint(k.in, k.errs))
	}
}

// hostile messages one after another; every one gives one result
func hostile(depth int) func() {
	return func() {
		var st setup
		first := gomc.Choose(256, "type")
		st.in = append(st.in, inMsg{byte(first), hlib.Pattern(1, gomc.Choose(8, "length"))})
		for i := 1; i < depth; i++ {
			st.in = append(st.in, pick("message", inMsg{1, nil}, inMsg{3, u32(5)}, inMsg{4, []byte{1}}, inMsg{4, []byte{0, 0}},
				inMsg{6, u32(1)}, inMsg{0, nil}, inMsg{0x14, u32(1)}, inMsg{2, hlib.Pattern(2, 40)}))
		}
		st.in = append(st.in, inMsg{3, u32(77)})
		st.out = []any{ctl{typ: 3, v: 1}}
		st.run()
		gomc.Count("evaluations", 1)
	}
}

// variety is the i-th of a long series of control messages.
func variety(i int) ctl {
	v := uint32(i)*0x01010101 + 7
	switch i % 6 {
	case 0:
		return ctl{typ: 3, v: v}
	case 1:
		return ctl{typ: 4, event: uint16(i % 32), body: hlib.Pattern(i, i%23)}
	case 2:
		return ctl{typ: 5, v: v}
	case 3:
		return ctl{typ: 6, v: v, limit: byte(i)}
	case 4:
		return ctl{typ: 2, v: v}
	}
	return ctl{typ: 1, v: v & 0xffffff}
}

func (c ctl) msg() inMsg { return inMsg{c.typ, c.payload()} }

func history() {
	st := setup{split: gomc.Choose(2, "drained by two goroutines") == 1, slow: gomc.Choose(2, "slow application") == 1}
	st.close = gomc.Choose(2, "closed at the end") == 1
	st.end = gomc.Choose(2, "the chunk stream ends") == 1
	every := pick("bad messages", 0, 2, 7)
	for i := 0; i < 300; i++ {
		m := variety(i).msg()
		if every > 0 && i%every == every-1 {
			if i%3 == 0 {
				m.typ += 0x20
			} else {
				m.p = m.p[:1]
			}
		}
		st.in = append(st.in, m)
	}
	for i := 0; i < 150; i++ {
		if every > 0 && i%(every+4) == 1 {
			st.out = append(st.out, &unwritable{i})
		} else {
			st.out = append(st.out, variety(i+1000))
		}
	}
	for i := 0; i < 80; i++ {
		st.out2 = append(st.out2, variety(i+2000))
	}
	for i := 1; every > 0 && i < 150; i += every + 3 {
		st.fail = append(st.fail, i)
	}
	st.run()
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// odd: on whatever message stream and with whatever timestamp they come
func odd() {
	st := setup{odd: true, split: gomc.Choose(2, "drained by two goroutines") == 1, close: gomc.Choose(2, "closed at the end") == 1}
	off := gomc.Choose(12, "first message")
	for i := 0; i < 30; i++ {
		m := variety(i + off).msg()
		if i%4 == 3 {
			m.p = m.p[:1]
		}
		st.in = append(st.in, m)
	}
	st.run()
	gomc.Count("evaluations", 1)
}

// renewed: one object per type, sent again with other contents
func renewed() {
	st := setup{renew: true}
	a := pick("first", ctl{typ: 3, v: 1}, ctl{typ: 5, v: 1}, ctl{typ: 4, event: 7, body: []byte{1, 2}}, ctl{typ: 6, v: 9, limit: 1}, ctl{typ: 1, v: 4096}, ctl{typ: 2, v: 6})
	st.slow = gomc.Choose(2, "slow application") == 1
	if n := gomc.Choose(4, "a failing write"); n > 0 {
		st.fail = []int{n}
	}
	b := a
	b.v++
	if a.typ == 4 {
		b = ctl{typ: 4, event: 7, body: []byte{1, 3}}
	}
	for _, m := range []ctl{a, b, a, a, b, b, {typ: 5, v: 77}, a} {
		st.out = append(st.out, m)
	}
	st.run()
	gomc.Count("evaluations", 1)
}

// more messages than a 16-bit counter counts
const many = 65536 + 700

// manyMessages: a control stream, or one parser and one chunker, used very
// many times.
func manyMessages() { manyOf(pick("what", 0, 1, 2, 3)) }
func manyCodings()  { manyOf(pick("what", 4, 5)) }

func manyOf(what int) {
	st := setup{split: what%2 == 1}
	for i := 0; i < many; i++ {
		switch what {
		case 0, 1: // received
			m := variety(i).msg()
			if what == 1 && i%2 == 1 {
				m.p = m.p[:1]
			}
			st.in = append(st.in, m)
		case 2, 3: // sent
			if what == 3 && i%2 == 1 {
				st.out = append(st.out, &unwritable{i})
			} else {
				st.out = append(st.out, variety(i))
			}
		}
	}
	if what < 4 {
		st.close = what == 1
		st.run()
	}
	if what == 4 || what == 5 {
		p, k := control.NewParser(), control.NewChunker()
		for i := 0; i < many; i++ {
			m := variety(i)
			if what == 5 { // events only
				m = ctl{typ: 4, event: uint16(i), body: []byte{byte(i), byte(i >> 8)}}
			}
			roundtrip(p, k, m)
			if i%5000 == 0 {
				gomc.Count("beat", 1)
			}
		}
	}
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

func init() {
	R := gomc.Register
	ack, win := inMsg{3, u32(1)}, inMsg{5, u32(2)}
	short, unknown := inMsg{6, u32(1)}, inMsg{9, u32(1)}
	A, B, C := ctl{typ: 3, v: 0xa}, ctl{typ: 5, v: 0xb}, ctl{typ: 4, event: 7, body: []byte{1, 2}}
	mem := gomc.Opts{Mem: true}
	reg := func(tier, name, bound string, st setup) {
		R(gomc.Scenario{Prop: "C14", Name: name, Tier: tier, Bound: bound + "; all schedules", Opts: mem, Body: st.run})
	}
	reg("quick", "c14-in", "4 messages in (valid, too short, unknown, valid)", setup{in: []inMsg{ack, short, unknown, win}})
	reg("quick", "c14-in-split", "the same, messages and errors taken by different goroutines", setup{in: []inMsg{ack, short, unknown, win}, split: true})
	reg("quick", "c14-out", "2 and 2 messages sent by two goroutines, writes 1 and 3 fail", setup{out: []any{A, B}, out2: []any{C, A}, fail: []int{1, 3}})
	reg("quick", "c14-out-bad", "3 messages sent, the second cannot be encoded, the write of the third fails", setup{out: []any{A, &unwritable{1}, B}, out2: []any{C}, fail: []int{2}})
	reg("quick", "c14-both", "3 messages in, 3 out by two goroutines, one of each fails", setup{in: []inMsg{ack, short, win}, out: []any{A, B}, out2: []any{C}, fail: []int{2}})
	reg("quick", "c14-both-split", "2 messages in, 2 out, drained by two goroutines", setup{in: []inMsg{short, win}, out: []any{A, B}, fail: []int{1}, split: true})
	reg("quick", "c14-end", "2 messages in, then the chunk stream ends; 2 out", setup{in: []inMsg{ack, unknown}, out: []any{A, B}, fail: []int{2}, end: true})
	reg("quick", "c14-close-in", "3 messages in, closed at any moment", setup{in: []inMsg{ack, short, win}, close: true})
	reg("quick", "c14-close-split", "2 messages in, 1 out, closed at any moment, drained by two goroutines", setup{in: []inMsg{short, win}, out: []any{A}, close: true, split: true})
	reg("quick", "c14-close-out", "2 messages in, 2 out by two goroutines, a write fails, closed at any moment", setup{in: []inMsg{ack, unknown}, out: []any{A}, out2: []any{B}, fail: []int{2}, close: true})
	reg("quick", "c14-close-end", "1 message in, then the chunk stream ends; closed at any moment", setup{in: []inMsg{ack}, out: []any{A}, close: true, end: true})
	reg("quick", "c14-slow", "3 messages in, 2 out, one of each fails, a slow application", setup{in: []inMsg{ack, short, win}, out: []any{A, B}, fail: []int{2}, slow: true})
	reg("quick", "c14-slow-bad", "2 messages in, 3 sent, the second cannot be encoded, the write of the third fails, a slow application", setup{in: []inMsg{short, ack}, out: []any{A, &unwritable{1}, B}, fail: []int{2}, slow: true})
	reg("quick", "c14-close-last", "1 message in, 1 out, its write fails, closed at any moment", setup{in: []inMsg{ack}, out: []any{A}, fail: []int{1}, close: true})
	reg("quick", "c14-close-last-slow", "1 bad message in, 1 out, its write fails, closed at any moment, a slow application", setup{in: []inMsg{short}, out: []any{A}, fail: []int{1}, close: true, slow: true})
	reg("quick", "c14-close-last-split", "1 message in, 1 out, its write fails, closed at any moment, drained by two slow goroutines", setup{in: []inMsg{win}, out: []any{A}, fail: []int{1}, close: true, slow: true, split: true})
	reg("quick", "c14-close-slow", "3 messages in, 1 out, closed at any moment, a slow application", setup{in: []inMsg{ack, win, short}, out: []any{A}, close: true, slow: true})
	reg("quick", "c14-close-slow-split", "2 messages in, 2 out, a write fails, closed at any moment, drained by two slow goroutines", setup{in: []inMsg{ack, short}, out: []any{A}, out2: []any{B}, fail: []int{1}, close: true, slow: true, split: true})
	R(gomc.Scenario{Prop: "C14", Name: "c14-history", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 4}, Body: history,
		Bound: "long histories: 300 messages in (some too short or unknown), 150 and 80 out by two goroutines (some cannot be encoded, some writes fail), drained in 4 ways, closed at the end or not, everything compared again at the end"})
	R(gomc.Scenario{Prop: "C14", Name: "c14-many", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 4}, Body: manyMessages,
		Bound: fmt.Sprint(many, " control messages received (good, or every other too short) or sent (good, or every other unencodable)")})
	R(gomc.Scenario{Prop: "C13", Name: "c13-many", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 2}, Body: manyCodings,
		Bound: fmt.Sprint(many, " control messages through one parser and one chunker: of all types, or events of all types")})
	reg("quick", "c14-deep", "5 messages in, 4 out by two goroutines, two writes fail", setup{in: []inMsg{ack, short, win, unknown, ack}, out: []any{A, B}, out2: []any{C, &unwritable{1}}, fail: []int{1, 3}, split: true})
	reg("quick", "c14-close-deep", "4 messages in, 3 out by two goroutines, closed at any moment", setup{in: []inMsg{ack, short, win, unknown}, out: []any{A, B}, out2: []any{C}, fail: []int{3}, split: true, close: true})

	R(gomc.Scenario{Prop: "C14", Name: "c14-repeats", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 2}, Body: repeats,
		Bound: "all sequences of 4 of 4 messages received or of 3 sent, repeated ones being equal or the very same object"})
	R(gomc.Scenario{Prop: "C14", Name: "c14-odd", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 2}, Body: odd,
		Bound: "30 messages of all types in 12 rotations, every fourth too short, on varying message streams and with varying timestamps and header types, drained in 2 ways, closed or not"})
	R(gomc.Scenario{Prop: "C14", Name: "c14-renewed", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 6}, Body: renewed,
		Bound: "each type sent as one object that is filled with something else, or the same, once it has been written; 8 messages, no or one write failing"})
	R(gomc.Scenario{Prop: "C10", Name: "c10-control1", Tier: "quick", Bound: "control stream behind parser and reader with one message, both closed at any moment; all schedules", Opts: mem, Body: behindParser(1)})
	R(gomc.Scenario{Prop: "C10", Name: "c10-control2", Tier: "quick", Bound: "the same with a valid and a malformed message", Opts: mem, Body: behindParser(2)})
	R(gomc.Scenario{Prop: "C07", Name: "c07-control", Tier: "quick",
		Bound: "control stream: a message of any of the 256 types with 0-7 bytes, then one of 8 malformed or valid ones, then a valid one", Opts: gomc.Opts{Fixed: true, Shards: 8}, Body: hostile(2)})
	R(gomc.Scenario{Prop: "C07", Name: "c07-control-deep", Tier: "quick",
		Bound: "the same with 4 messages before the valid one", Opts: gomc.Opts{Fixed: true, Shards: 16}, Body: hostile(4)})
}
