package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// script is a chunk.Reader that hands over given messages and errors.
type script struct {
	items  []any // *chunk.Chunk or error
	chunks chan *chunk.Chunk
	errs   chan error
	closer chan struct{}
}

func newScript(items ...any) *script {
	return &script{items, make(chan *chunk.Chunk), make(chan error), make(chan struct{})}
}

func (s *script) Recv() {
	for _, it := range s.items {
		switch v := it.(type) {
		case *chunk.Chunk:
			select {
			case s.chunks <- v:
			case <-s.closer:
				return
			}
		case error:
			select {
			case s.errs <- v:
			case <-s.closer:
				return
			}
		}
	}
	<-s.closer
}
func (s *script) ReadSize() int               { return 128 }
func (s *script) SetReadSize(int)             {}
func (s *script) Chunks() <-chan *chunk.Chunk { return s.chunks }
func (s *script) Errs() <-chan error          { return s.errs }
func (s *script) Close()                      { s.closer <- struct{}{} }

// msg makes a message that is recognised by its stream and number.
func msg(csid uint32, n int) *chunk.Chunk {
	return fromMsg(hlib.Msg{CSID: csid, Type: 9, SID: 1, TS: uint32(n), Data: []byte{byte(csid), byte(n)}})
}

func name(c *chunk.Chunk) string {
	if c == nil {
		return "nil"
	}
	if len(c.Data) != 2 {
		return fmt.Sprintf("?%x", c.Data)
	}
	return fmt.Sprintf("%d.%d", c.Data[0], c.Data[1])
}

type sink struct {
	got  []string
	done bool
}

// drain takes everything from a stream until it ends.
func drain(s chunk.Stream, k *sink) {
	rest()
	for c := range s.In() {
		k.got = append(k.got, name(c))
		rest()
	}
	k.done = true
}

func drainErrs(p *chunk.Parser, k *sink) {
	rest()
	for e := range p.Errs() {
		if e == nil {
			k.got = append(k.got, "nil error")
		} else {
			k.got = append(k.got, e.Error())
		}
		rest()
	}
	k.done = true
}

// --- C08 ------------------------------------------------------------------

type plan struct {
	items []any
	asks  [][]uint32 // what the consumers ask for, each in its own goroutine
}

func plans() []plan {
	e1, e2 := errors.New("e1"), errors.New("e2")
	return []plan{
		{[]any{msg(4, 1), msg(5, 1), msg(4, 2)}, [][]uint32{{4}, {5}}},
		{[]any{msg(4, 1), e1, msg(5, 1), e2, msg(4, 2)}, [][]uint32{{4}, {5}}},
		{[]any{msg(4, 1), msg(5, 1), msg(6, 1), msg(4, 2)}, [][]uint32{{4, 5}, {6}}},
		{[]any{msg(4, 1), msg(4, 2), msg(5, 1), msg(5, 2)}, [][]uint32{{4, 5}}},
		{[]any{e1, msg(4, 1), e2, msg(4, 2)}, [][]uint32{{4}}},
		{[]any{msg(4, 1), msg(5, 1), msg(6, 1), msg(5, 2)}, [][]uint32{{4, 5, 6}}},
	}
}

func has(l []uint32, v uint32) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// checkSinks compares what the consumers got with what was sent.
func checkSinks(items []any, asks [][]uint32, sinks []*sink, errs *sink) {
	for i, ask := range asks {
		seqs := make([][]string, len(ask))
		for k, id := range ask {
			for _, it := range items {
				if c, ok := it.(*chunk.Chunk); ok && c.StreamId() == id {
					seqs[k] = append(seqs[k], name(c))
				}
			}
		}
		if d := hlib.Merge(sinks[i].got, seqs...); d != "" {
			gomc.Fail("the consumer of chunk streams %v: %s", ask, d)
		}
	}
	var want []string
	for _, it := range items {
		if e, ok := it.(error); ok {
			want = append(want, e.Error())
		}
	}
	if d := hlib.Merge(errs.got, want); d != "" {
		gomc.Fail("the error channel: %s", d)
	}
}

func routing(which int, early bool) func() {
	return func() {
		pl := plans()[which]
		p := chunk.NewParser(newScript(pl.items...))
		sinks := make([]*sink, len(pl.asks))
		errs := &sink{}
		streams := make([]chunk.Stream, len(pl.asks))
		ask := func(i int) {
			s, err := p.Stream(pl.asks[i]...)
			if err != nil || s == nil {
				gomc.Fail("asking for %v for the first time: %v", pl.asks[i], err)
			}
			streams[i] = s
		}
		for i := range pl.asks {
			sinks[i] = &sink{}
			if early {
				ask(i)
			}
		}
		go p.Recv()
		go drainErrs(p, errs)
		for i := range pl.asks {
			go func() {
				if !early {
					ask(i)
				}
				drain(streams[i], sinks[i])
			}()
		}
		gomc.Quiesce()
		checkSinks(pl.items, pl.asks, sinks, errs)
		var o []string
		for _, s := range sinks {
			o = append(o, strings.Join(s.got, ","))
		}
		gomc.Outcome(strings.Join(o, " | "))
	}
}

// the same with the real reader over a transport, ending in an error
func routingReal(second bool) func() {
	return func() {
		g := hlib.NewGen(128)
		g.Whole(0, 4, 1, 0, 9, 1, []byte{4, 1})
		g.Whole(0, 5, 1, 0, 9, 1, []byte{5, 1})
		if second {
			g.Whole(3, 4, 0, 0, 0, 0, []byte{4, 2})
		}
		src := &hlib.Src{Data: g.Out, Hold: true, First: 1, Err: hlib.ErrTransport}
		p := chunk.NewParser(chunk.NewReader(src, 128, chunk.NewNormalizer()))
		var items []any
		for _, m := range g.Want {
			items = append(items, fromMsg(m))
		}
		items = append(items, hlib.ErrTransport)
		errs, a, b := &sink{}, &sink{}, &sink{}
		go p.Recv()
		go drainErrs(p, errs)
		asks := [][]uint32{{4}, {5}}
		for i, k := range []*sink{a, b} {
			go func() {
				s, err := p.Stream(asks[i]...)
				if err != nil {
					gomc.Fail("asking for %v: %v", asks[i], err)
				}
				drain(s, k)
			}()
		}
		gomc.Quiesce()
		checkSinks(items, asks, []*sink{a, b}, errs)
		gomc.Outcome(fmt.Sprint(a.got, b.got, errs.got))
	}
}

// asking again, and groups that overlap: everything sequential first
func askSequences(depth int) func() {
	return func() {
		p := chunk.NewParser(newScript())
		single := map[uint32]chunk.Stream{}
		taken := map[uint32]bool{}
		inGroup := map[uint32]bool{}
		asks := [][]uint32{{4}, {5}, {6}, {4, 5}, {5, 6}, {4, 6}, {4, 5, 6}, {6, 5}}
		for i := 0; i < depth; i++ {
			ids := pick("ask for", asks...)
			s, err := p.Stream(ids...)
			if len(ids) == 1 {
				id := ids[0]
				if err != nil || s == nil {
					gomc.Fail("asking for %v: %v", ids, err)
				}
				if single[id] != nil && single[id] != s {
					gomc.Fail("asking again for chunk stream %d gives another stream", id)
				}
				for other, t := range single {
					if other != id && t == s {
						gomc.Fail("chunk streams %d and %d are the same stream", id, other)
					}
				}
				single[id] = s
				taken[id] = true
				continue
			}
			refused := false
			for _, id := range ids {
				refused = refused || taken[id]
			}
			if refused {
				if err == nil {
					gomc.Fail("a group %v with a chunk stream already handed out was not refused", ids)
				}
				if s != nil {
					gomc.Fail("a refused group yields a stream")
				}
				continue
			}
			if err != nil || s == nil {
				gomc.Fail("a group %v of free chunk streams was refused: %v", ids, err)
			}
			for _, id := range ids {
				taken[id], inGroup[id] = true, true
			}
		}
		if s, err := p.Stream(); err == nil || s != nil {
			gomc.Fail("asking for no chunk stream at all succeeds")
		}
		gomc.Count("evaluations", 1)
	}
}

// a group that names a chunk stream more than once
func groupRepeats(ids ...uint32) func() {
	return func() {
		items := []any{msg(4, 1), msg(4, 2), msg(5, 1), msg(4, 3)}
		p := chunk.NewParser(newScript(items...))
		errs, k, k5 := &sink{}, &sink{}, &sink{}
		go p.Recv()
		go drainErrs(p, errs)
		s, err := p.Stream(ids...)
		if err != nil { // refusing is fine too, but then nothing is taken
			if s, err = p.Stream(4); err != nil {
				gomc.Fail("a refused group took chunk stream 4: %v", err)
			}
			ids = []uint32{4}
		}
		go drain(s, k)
		asks, sinks := [][]uint32{{4}, {5}}, []*sink{k, k5}
		if has(ids, 5) {
			asks, sinks = [][]uint32{{4, 5}}, []*sink{k}
		} else {
			s5, err := p.Stream(5)
			if err != nil {
				gomc.Fail("asking for chunk stream 5: %v", err)
			}
			go drain(s5, k5)
		}
		gomc.Quiesce()
		checkSinks(items, asks, sinks, errs)
	}
}

// concurrent asking while messages arrive
func askConcurrently(which int) func() {
	return func() {
		asks := [][][]uint32{
			{{4}, {4}, {4}},
			{{4, 5}, {5, 6}},
			{{4, 5}, {5}},
		}[which]
		items := [][]any{
			{msg(4, 1), msg(4, 2)},
			{},
			{msg(5, 1), msg(4, 1)},
		}[which]
		p := chunk.NewParser(newScript(items...))
		streams := make([]chunk.Stream, len(asks))
		errs := make([]error, len(asks))
		sinks := make([]*sink, len(asks))
		go p.Recv()
		for i, ids := range asks {
			sinks[i] = &sink{}
			go func() {
				streams[i], errs[i] = p.Stream(ids...)
				if errs[i] == nil {
					drain(streams[i], sinks[i])
				}
			}()
		}
		gomc.Quiesce()
		switch which {
		case 0:
			if streams[0] == nil || streams[0] != streams[1] || streams[0] != streams[2] {
				gomc.Fail("concurrent callers asking for one chunk stream get different streams")
			}
			all := append(append(append([]string(nil), sinks[0].got...), sinks[1].got...), sinks[2].got...)
			if d := hlib.Merge(all, []string{"4.1"}, []string{"4.2"}); d != "" {
				gomc.Fail("messages: %s", d)
			}
		case 1:
			if (errs[0] == nil) == (errs[1] == nil) {
				gomc.Fail("of two overlapping groups asked for concurrently, not exactly one was refused: %v, %v", errs[0], errs[1])
			}
			free := uint32(6)
			if errs[0] != nil {
				free = 4
			}
			if _, err := p.Stream(free, 7); err != nil {
				gomc.Fail("the refused group took chunk stream %d: %v", free, err)
			}
		case 2:
			if errs[1] != nil {
				gomc.Fail("asking for a single chunk stream: %v", errs[1])
			}
			if errs[0] != nil {
				if d := hlib.Merge(sinks[1].got, []string{"5.1"}); d != "" {
					gomc.Fail("the consumer of chunk stream 5: %s", d)
				}
				s, err := p.Stream(4)
				if err != nil {
					gomc.Fail("asking for chunk stream 4: %v", err)
				}
				go drain(s, sinks[0])
				gomc.Quiesce()
				if d := hlib.Merge(sinks[0].got, []string{"4.1"}); d != "" {
					gomc.Fail("the consumer of chunk stream 4: %s", d)
				}
			} else {
				all := append(append([]string(nil), sinks[0].got...), sinks[1].got...)
				if d := hlib.Merge(all, []string{"5.1"}, []string{"4.1"}); d != "" {
					gomc.Fail("messages: %s", d)
				}
				if len(sinks[0].got) == 0 {
					gomc.Fail("the group never got the message of chunk stream 4")
				}
			}
		}
		gomc.Outcome(fmt.Sprint(errs, sinks[0].got, sinks[1].got))
	}
}

// --- C09 ------------------------------------------------------------------

type source struct{ ch chan *chunk.Chunk }

func (s *source) In() <-chan *chunk.Chunk { return s.ch }

// merging: sources with the given numbers of messages; the sources in late are
// appended by another goroutine while source 0 is still open.
func merging(counts []int, late int, waitEarly bool) func() {
	return func() {
		m := chunk.NewMultiStream()
		var srcs []*source
		var want [][]string
		ended := 0
		for i, n := range counts {
			srcs = append(srcs, &source{make(chan *chunk.Chunk)})
			var w []string
			for k := 1; k <= n; k++ {
				w = append(w, fmt.Sprintf("%d.%d", i+1, k))
			}
			want = append(want, w)
		}
		appended := make(chan struct{})
		feed := func(i int) {
			for k := 1; k <= counts[i]; k++ {
				srcs[i].ch <- msg(uint32(i+1), k)
			}
			if i == 0 {
				<-appended // source 0 outlives the appending
			}
			ended++
			close(srcs[i].ch)
		}
		first := len(counts) - late
		var ss []chunk.Stream
		for i := 0; i < first; i++ {
			ss = append(ss, srcs[i])
		}
		if m.Append(ss...) != m {
			gomc.Fail("Append returns another merged stream")
		}
		for i := 0; i < first; i++ {
			go feed(i)
		}
		go func() {
			for i := first; i < len(counts); i++ {
				m.Append(srcs[i])
				go feed(i)
			}
			close(appended)
		}()
		k := &sink{}
		waited := false
		go func() {
			if !waitEarly {
				<-appended
			}
			m.AwaitClose()
			waited = true
			if ended != len(counts) {
				gomc.Fail("waiting for the merged stream returned when %d of %d sources had ended", ended, len(counts))
			}
		}()
		go drain(m, k)
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("never ends: %s", strings.Join(l, "; "))
		}
		if !waited || !k.done {
			gomc.Fail("the merged stream has not ended (waited=%v)", waited)
		}
		if d := hlib.Merge(k.got, want...); d != "" {
			gomc.Fail("merged stream: %s", d)
		}
		gomc.Outcome(strings.Join(k.got, ","))
	}
}

// the merged stream stays open as long as a source is open
func mergingOpen() {
	m := chunk.NewMultiStream()
	a, b := &source{make(chan *chunk.Chunk)}, &source{make(chan *chunk.Chunk)}
	m.Append(a, b)
	k := &sink{}
	waited := false
	go drain(m, k)
	go func() { m.AwaitClose(); waited = true }()
	go func() {
		a.ch <- msg(1, 1)
		close(a.ch)
	}()
	go func() { b.ch <- msg(2, 1) }()
	gomc.Quiesce()
	if waited || k.done {
		gomc.Fail("the merged stream ended although a source is open")
	}
	if d := hlib.Merge(k.got, []string{"1.1"}, []string{"2.1"}); d != "" {
		gomc.Fail("merged stream: %s", d)
	}
	close(b.ch)
	if l := gomc.Quiesce(); len(l) > 0 || !waited || !k.done {
		gomc.Fail("the merged stream does not end with its last source: %v", l)
	}
	if _, ok := <-m.In(); ok {
		gomc.Fail("the merged stream yields something after its end")
	}
}

// --- C10 ------------------------------------------------------------------

func closeStream() []byte {
	g := hlib.NewGen(128)
	g.Whole(0, 4, 1, 0, 9, 1, []byte{4, 1})
	g.Whole(0, 5, 1, 0, 9, 1, []byte{5, 1})
	return g.Out
}

// cutStream: messages in several chunks, with extended timestamps, cut off
// after any byte, with errors without end or one and then silence.
func cutStream(src *hlib.Src) {
	g := hlib.NewGen(1)
	g.Start(0, 4, 0xffffff, 0x01020304, 9, 1, []byte{4, 1})
	g.Whole(0, 5, 1, 0, 9, 1, []byte{5, 1})
	g.Cont(4)
	src.Data = g.Out[:gomc.Choose(len(g.Out)+1, "bytes before the failure")]
	src.Hold = gomc.Choose(2, "silence after the failure") == 1
	src.First = 1
}

// closing a reader at any moment
func closeReader(mode int) func() {
	return func() {
		data := closeStream()
		size := 128
		src := &hlib.Src{Data: data, Hold: true}
		switch mode {
		case 1: // an error, then nothing
			src.First = 1
		case 2: // errors without end
			src.Hold = false
		case 3: // a message only half there
			src.Data = data[:len(data)-1]
			src.First = 1
		case 4: // only Set Chunk Size messages
			g := hlib.NewGen(128)
			g.Whole(0, 2, 0, 0, 1, 0, []byte{0, 0, 1, 0})
			src.Data = g.Out
		case 5: // the connection fails after any byte
			size = 1
			cutStream(src)
		}
		r := chunk.NewReader(src, size, chunk.NewNormalizer())
		returned, closed := false, false
		go func() { r.Recv(); returned = true }()
		go func() {
			gomc.Step("decide to close")
			r.Close()
			closed = true
		}()
		gomc.GoDaemon("connection closed", func() {
			gomc.LowPrio("close the connection")
			src.Release()
		})
		var got []string
		// the application drains until the reader is closed
		gomc.GoDaemon("application", func() {
			for {
				rest()
				select {
				case c, ok := <-r.Chunks():
					if !ok {
						return
					}
					got = append(got, name(c))
				case _, ok := <-r.Errs():
					if !ok {
						return
					}
				}
			}
		})
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("closing never completes: %s", strings.Join(l, "; "))
		}
		if !returned || !closed {
			gomc.Fail("returned=%v closed=%v", returned, closed)
		}
		if mode == 5 {
			prefix(got, []string{"5.1", "4.1"})
		} else {
			prefix(got, []string{"4.1", "5.1"})
		}
		gomc.Outcome(strings.Join(got, ","))
	}
}

func prefix(got, want []string) {
	for i, g := range got {
		if i >= len(want) || want[i] != g {
			gomc.Fail("delivered before the close: %v, which is not a prefix of %v", got, want)
		}
	}
}

// closing a parser (with its reader) at any moment
func closeParser(mode int) func() {
	return func() {
		size := 128
		src := &hlib.Src{Data: closeStream(), Hold: true}
		switch mode {
		case 1:
			src.First = 1
		case 2:
			src.Hold = false
		case 3:
			src.Data = nil
			src.First = 2
		case 5: // the connection fails after any byte
			size = 1
			cutStream(src)
		}
		p := chunk.NewParser(chunk.NewReader(src, size, chunk.NewNormalizer()))
		a, b, errs := &sink{}, &sink{}, &sink{}
		over := func() {}
		if mode == 4 { // both chunk streams as a group
			s, err := p.Stream(4, 5)
			if err != nil {
				gomc.Fail("asking for a group: %v", err)
			}
			go drain(s, a)
			go s.(*chunk.MultiStream).AwaitClose()
			b.done = true
		} else {
			s4, _ := p.Stream(4)
			s5, _ := p.Stream(5)
			go drain(s4, a)
			go drain(s5, b)
			over = func() {
				for i, s := range []chunk.Stream{s4, s5} {
					select {
					case c, ok := <-s.In():
						if ok {
							gomc.Fail("chunk stream %d delivers %v after the parser was closed", 4+i, name(c))
						}
					default:
						gomc.Fail("chunk stream %d has not ended when Close returns", 4+i)
					}
					if again, err := p.Stream(uint32(4 + i)); err != nil || again != s {
						gomc.Fail("asking again for chunk stream %d of a closed parser gives another one (%v)", 4+i, err)
					}
				}
				select {
				case err, ok := <-p.Errs():
					if ok {
						gomc.Fail("an error is reported after the parser was closed: %v", err)
					}
				default:
					gomc.Fail("the error channel has not ended when Close returns")
				}
			}
		}
		go drainErrs(p, errs)
		returned, closed := false, false
		go func() { p.Recv(); returned = true }()
		go func() {
			gomc.Step("decide to close")
			p.Close()
			closed = true
			over()
		}()
		gomc.GoDaemon("connection closed", func() {
			gomc.LowPrio("close the connection")
			src.Release()
		})
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("closing never completes, or leaves something behind: %s", strings.Join(l, "; "))
		}
		if !returned || !closed {
			gomc.Fail("Recv returned=%v, Close returned=%v", returned, closed)
		}
		if !a.done || !b.done || !errs.done {
			gomc.Fail("not ended: chunk streams %v %v, errors %v", a.done, b.done, errs.done)
		}
		if mode == 4 {
			// the two sources of a group are merged in any order
			seen := map[string]bool{}
			for _, g := range a.got {
				if seen[g] || (g != "4.1" && g != "5.1") {
					gomc.Fail("the group delivered %v", a.got)
				}
				seen[g] = true
			}
		} else {
			prefix(a.got, []string{"4.1"})
			prefix(b.got, []string{"5.1"})
		}
		gomc.Outcome(fmt.Sprint(a.got, b.got, len(errs.got)))
	}
}

// --- C11 ------------------------------------------------------------------

type written struct {
	m     hlib.Msg
	sizes []int
}

// concurrentWrites: writers with their messages; a size changer.
func concurrentWrites(msgs [][]hlib.Msg, size int, changes []int) func() {
	return func() {
		dst := hlib.NewDst()
		w := chunk.NewWriter(dst, size)
		recs := make([][]written, len(msgs))
		type change struct {
			v          int
			begun, end bool
		}
		chs := make([]change, len(changes))
		for i := range chs {
			chs[i].v = changes[i]
		}
		for i, l := range msgs {
			go func() {
				for _, m := range l {
					// sizes that may be in force: what the last completed
					// change set, and whatever is or gets under way
					last := size
					from := 0
					for k := range chs {
						if chs[k].end {
							last = chs[k].v
							from = k + 1
						}
					}
					if err := w.Write(fromMsg(m)); err != nil {
						gomc.Fail("Write: %v", err)
					}
					ok := []int{last}
					for k := from; k < len(chs); k++ {
						if chs[k].begun {
							ok = append(ok, chs[k].v)
						}
					}
					recs[i] = append(recs[i], written{m, ok})
				}
			}()
		}
		if len(changes) > 0 {
			go func() {
				for k := range chs {
					gomc.Step("change the write size")
					chs[k].begun = true
					w.SetWriteSize(chs[k].v)
					chs[k].end = true
				}
			}()
		}
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("stuck: %s", strings.Join(l, "; "))
		}
		// parse the output as a sequence of whole messages
		pos := make([]int, len(recs))
		out := dst.Data
		var order []string
		var rec func(out []byte) bool
		rec = func(out []byte) bool {
			if len(out) == 0 {
				for i := range pos {
					if pos[i] < len(recs[i]) {
						return false
					}
				}
				return true
			}
			for i := range recs {
				if pos[i] >= len(recs[i]) {
					continue
				}
				r := recs[i][pos[i]]
				for _, s := range r.sizes {
					enc := hlib.Encode(r.m, s)
					if len(enc) <= len(out) && string(out[:len(enc)]) == string(enc) {
						pos[i]++
						order = append(order, fmt.Sprintf("%d.%d", i, pos[i]))
						if rec(out[len(enc):]) {
							return true
						}
						order = order[:len(order)-1]
						pos[i]--
					}
				}
			}
			return false
		}
		if !rec(out) {
			gomc.Fail("what was written is not a sequence of whole messages, each cut with one size in force: %s", clipBytes(out))
		}
		gomc.Outcome(strings.Join(order, ","))
	}
}

func wm(csid uint32, n, l int) hlib.Msg {
	return hlib.Msg{CSID: csid, TS: uint32(n), Type: 9, SID: 1, Data: hlib.Pattern(n*16+int(csid), l)}
}

// --- C12 ------------------------------------------------------------------

func sizeReader() {
	g := hlib.NewGen(128)
	g.Whole(0, 2, 0, 0, 1, 0, []byte{0, 0, 0, 99})
	g.Whole(0, 4, 1, 0, 9, 1, []byte{4, 1})
	src := &hlib.Src{Data: g.Out, Hold: true}
	r := chunk.NewReader(src, 128, chunk.NewNormalizer())
	go r.Recv()
	var a, b []hlib.RegOp
	go func() {
		r.SetReadSize(55)
		a = append(a, hlib.RegOp{'w', 55})
		a = append(a, hlib.RegOp{'r', r.ReadSize()})
	}()
	go func() {
		b = append(b, hlib.RegOp{'r', r.ReadSize()})
		b = append(b, hlib.RegOp{'r', r.ReadSize()})
	}()
	c := <-r.Chunks()
	if name(c) != "4.1" {
		gomc.Fail("wrong message %s", name(c))
	}
	gomc.Quiesce()
	if !hlib.Serial([][]hlib.RegOp{a, b, {{'w', 99}}}, 128, r.ReadSize()) {
		gomc.Fail("read sizes %v %v, final %d cannot be explained by any order of setting 55 and 99", a, b, r.ReadSize())
	}
	gomc.Outcome(fmt.Sprint(a, b, r.ReadSize()))
}

func sizeWriter() {
	dst := hlib.NewDst()
	w := chunk.NewWriter(dst, 3)
	var a, b []hlib.RegOp
	go func() {
		w.SetWriteSize(2)
		a = append(a, hlib.RegOp{'w', 2})
		a = append(a, hlib.RegOp{'r', w.WriteSize()})
	}()
	go func() {
		b = append(b, hlib.RegOp{'r', w.WriteSize()})
		w.SetWriteSize(5)
		b = append(b, hlib.RegOp{'w', 5})
		b = append(b, hlib.RegOp{'r', w.WriteSize()})
	}()
	go func() {
		if err := w.Write(fromMsg(wm(3, 1, 7))); err != nil {
			gomc.Fail("Write: %v", err)
		}
	}()
	gomc.Quiesce()
	if !hlib.Serial([][]hlib.RegOp{a, b}, 3, w.WriteSize()) {
		gomc.Fail("write sizes %v %v, final %d cannot be explained by any order", a, b, w.WriteSize())
	}
	gomc.Outcome(fmt.Sprint(a, b, w.WriteSize()))
}

func counters() {
	b := chunk.NewBuilder(&chunk.Header{MessageHeader: chunk.MessageHeader{Length: 20}})
	var t1, t2, t3 []hlib.RegOp
	go func() {
		b.AddLeft(5)
		t1 = append(t1, hlib.RegOp{'a', 5})
		t1 = append(t1, hlib.RegOp{'r', b.BytesLeft()})
	}()
	go func() {
		if n, err := b.Append([]byte{1, 2, 3}); n != 3 || err != nil {
			gomc.Fail("Append: %d %v", n, err)
		}
		t2 = append(t2, hlib.RegOp{'a', -3})
		b.AddLeft(-4)
		t2 = append(t2, hlib.RegOp{'a', -4})
	}()
	go func() {
		t3 = append(t3, hlib.RegOp{'r', b.BytesLeft()})
		if n, err := b.Append([]byte{7}); n != 1 || err != nil {
			gomc.Fail("Append: %d %v", n, err)
		}
		t3 = append(t3, hlib.RegOp{'a', -1})
	}()
	gomc.Quiesce()
	if !hlib.Serial([][]hlib.RegOp{t1, t2, t3}, 20, b.BytesLeft()) {
		gomc.Fail("byte counter: %v %v %v, final %d cannot be explained by any order", t1, t2, t3, b.BytesLeft())
	}
	d := b.Build().Data
	if s := string(d); s != "\x01\x02\x03\x07" && s != "\x07\x01\x02\x03" {
		gomc.Fail("payload % x after appending 010203 and 07", d)
	}
	gomc.Outcome(fmt.Sprint(t1, t3, b.BytesLeft()))
}

func buildWhileAppending() {
	b := chunk.NewBuilder(&chunk.Header{MessageHeader: chunk.MessageHeader{Length: 4}})
	go b.Append([]byte{1, 2})
	var d []byte
	go func() { d = b.Build().Data }()
	gomc.Quiesce()
	if s := string(d); s != "" && s != "\x01\x02" {
		gomc.Fail("payload % x built while appending 0102", d)
	}
	// the builder is as usable as before
	left := -1
	done := false
	go func() {
		b.Append([]byte{3, 4})
		left = b.BytesLeft()
		d = b.Build().Data
		done = true
	}()
	go b.Build()
	gomc.Quiesce()
	if !done {
		gomc.Fail("a builder that has built a chunk once is stuck")
	}
	if left != 0 || string(d) != "\x01\x02\x03\x04" {
		gomc.Fail("after all four bytes: %d left, payload % x", left, d)
	}
}

func lookups() {
	p := chunk.NewParser(newScript(msg(4, 1), msg(5, 1), msg(4, 2)))
	go p.Recv()
	k4, k5 := &sink{}, &sink{}
	var s [3]chunk.Stream
	for i := range s {
		go func() {
			s[i], _ = p.Stream(4)
			if i == 0 {
				drain(s[i], k4)
			}
		}()
	}
	go func() {
		t, _ := p.Stream(5)
		drain(t, k5)
	}()
	gomc.Quiesce()
	if s[0] == nil || s[0] != s[1] || s[0] != s[2] {
		gomc.Fail("concurrent callers asking for one chunk stream get different streams")
	}
	if d := hlib.Merge(k4.got, []string{"4.1", "4.2"}); d != "" {
		gomc.Fail("chunk stream 4: %s", d)
	}
	if d := hlib.Merge(k5.got, []string{"5.1"}); d != "" {
		gomc.Fail("chunk stream 5: %s", d)
	}
}

func headers() {
	n := chunk.NewNormalizer().(*chunk.DefaultNormalizer)
	h := func(id, ts uint32) *chunk.Header {
		return &chunk.Header{BasicHeader: chunk.BasicHeader{StreamId: id}, MessageHeader: chunk.MessageHeader{Timestamp: ts}}
	}
	h1, h2, h3 := h(3, 1), h(3, 2), h(4, 3)
	go func() { n.StoreHeader(h1); n.SetLast(h1) }()
	go func() { n.StoreHeader(h2); n.SetLast(h2) }()
	go func() {
		if g := n.Header(3); g != nil && g != h1 && g != h2 {
			gomc.Fail("a header nobody stored")
		}
		n.StoreHeader(h3)
		if n.Header(4) != h3 {
			gomc.Fail("a stored header is not found")
		}
		if g := n.Last(); g != nil && g != h1 && g != h2 {
			gomc.Fail("a header nobody set")
		}
	}()
	gomc.Quiesce()
	if g := n.Header(3); g != h1 && g != h2 {
		gomc.Fail("the last header stored for a stream is lost")
	}
	if g := n.Last(); g != h1 && g != h2 {
		gomc.Fail("the last header is lost")
	}
	if n.Header(4) != h3 {
		gomc.Fail("a stored header is lost")
	}
}

func init() {
	R := gomc.Register
	M := gomc.Opts{Mem: true}
	L := gomc.Opts{Mem: true, RaceFails: true}
	for i := range plans() {
		tier := "quick"
		R(gomc.Scenario{Prop: "C08", Name: fmt.Sprintf("c08-plan%d-early", i), Tier: tier,
			Bound: fmt.Sprintf("all schedules: plan %d (3-5 messages and errors on up to 3 chunk streams, alone and grouped), asked for before receiving", i),
			Opts:  M, Body: routing(i, true)})
		R(gomc.Scenario{Prop: "C08", Name: fmt.Sprintf("c08-plan%d-any", i), Tier: tier,
			Bound: fmt.Sprintf("all schedules: plan %d, asked for at any moment", i),
			Opts:  M, Body: routing(i, false)})
	}
	R(gomc.Scenario{Prop: "C08", Name: "c08-reader", Tier: "quick",
		Bound: "all schedules: real reader over a transport with 2 messages and a failure, 2 consumers asking at any moment",
		Opts:  M, Body: routingReal(false)})
	R(gomc.Scenario{Prop: "C08", Name: "c08-reader3", Tier: "quick",
		Bound: "all schedules: real reader over a transport with 3 messages and a failure, 2 consumers asking at any moment",
		Opts:  M, Body: routingReal(true)})
	R(gomc.Scenario{Prop: "C08", Name: "c08-ask", Tier: "quick",
		Bound: "all sequences of 4 requests out of 8 (single chunk streams and groups of 3 chunk streams)",
		Opts:  gomc.Opts{Fixed: true, Shards: 8}, Body: askSequences(4)})
	R(gomc.Scenario{Prop: "C08", Name: "c08-ask-deep", Tier: "quick",
		Bound: "all sequences of 6 requests out of 8",
		Opts:  gomc.Opts{Fixed: true, Shards: 8}, Body: askSequences(6)})
	for i := 0; i < 3; i++ {
		R(gomc.Scenario{Prop: "C08", Name: fmt.Sprintf("c08-concurrent%d", i), Tier: "quick",
			Bound: "all schedules: 2-3 goroutines asking for the same or overlapping chunk streams while messages arrive",
			Opts:  M, Body: askConcurrently(i)})
	}
	R(gomc.Scenario{Prop: "C09", Name: "c09-2-1", Tier: "quick", Bound: "all schedules: 2 sources with 2 and 1 messages", Opts: M, Body: merging([]int{2, 1}, 0, true)})
	R(gomc.Scenario{Prop: "C09", Name: "c09-2-2-late", Tier: "quick", Bound: "all schedules: 2 sources with 2 messages, one appended while the other is open, waiting from the start or afterwards", Opts: M, Body: merging([]int{2, 2}, 1, true)})
	R(gomc.Scenario{Prop: "C09", Name: "c09-2-2-late-wait", Tier: "quick", Bound: "all schedules: 2 sources with 2 messages, one appended while the other is open, waiting after that", Opts: M, Body: merging([]int{2, 2}, 1, false)})
	R(gomc.Scenario{Prop: "C09", Name: "c09-1-1-1", Tier: "quick", Bound: "all schedules: 3 sources with 1 message each, one appended late", Opts: M, Body: merging([]int{1, 1, 1}, 1, true)})
	R(gomc.Scenario{Prop: "C09", Name: "c09-0-1-0", Tier: "quick", Bound: "all schedules: 3 sources with 0, 1 and 0 messages, two appended late", Opts: M, Body: merging([]int{0, 1, 0}, 2, true)})
	R(gomc.Scenario{Prop: "C09", Name: "c09-open", Tier: "quick", Bound: "all schedules: one source stays open", Opts: M, Body: mergingOpen})
	R(gomc.Scenario{Prop: "C09", Name: "c09-3-3", Tier: "quick", Bound: "all schedules: 2 sources with 3 messages each", Opts: M, Body: merging([]int{3, 3}, 0, true)})
	R(gomc.Scenario{Prop: "C09", Name: "c09-2-2-1", Tier: "quick", Bound: "all schedules: 3 sources with 2, 2 and 1 messages, one appended late", Opts: M, Body: merging([]int{2, 2, 1}, 1, true)})
	for i, b := range []string{"2 messages, then silence", "2 messages, an error, then silence", "2 messages, then errors without end", "1 message and half of another", "a Set Chunk Size message", "2 interleaved messages with an extended timestamp, cut off after any byte"} {
		R(gomc.Scenario{Prop: "C10", Name: fmt.Sprintf("c10-reader%d", i), Tier: "quick",
			Bound: "all schedules: a reader closed at any moment while the application drains it; transport: " + b,
			Opts:  M, Body: closeReader(i)})
	}
	for i, b := range []string{"2 messages, then silence", "2 messages, an error, then silence", "2 messages, then errors without end", "2 errors, then silence", "2 messages for a group", "2 interleaved messages with an extended timestamp, cut off after any byte"} {
		R(gomc.Scenario{Prop: "C10", Name: fmt.Sprintf("c10-parser%d", i), Tier: "quick",
			Bound: "all schedules: a parser and its reader closed at any moment while the application drains streams and errors; transport: " + b,
			Opts:  M, Body: closeParser(i)})
	}
	R(gomc.Scenario{Prop: "C11", Name: "c11-2x2", Tier: "quick",
		Bound: "all schedules: 2 goroutines writing 2 messages of 1-3 chunks each (same chunk stream), all accesses to memory tracked for races",
		Opts:  L, Body: concurrentWrites([][]hlib.Msg{{wm(3, 1, 5), wm(3, 2, 0)}, {wm(3, 3, 4), wm(3, 4, 2)}}, 2, nil)})
	R(gomc.Scenario{Prop: "C11", Name: "c11-3x1", Tier: "quick",
		Bound: "all schedules: 3 goroutines writing 1 message of 2-3 chunks on different chunk streams",
		Opts:  L, Body: concurrentWrites([][]hlib.Msg{{wm(3, 1, 5)}, {wm(70, 3, 4)}, {wm(400, 5, 3)}}, 2, nil)})
	R(gomc.Scenario{Prop: "C11", Name: "c11-sizes", Tier: "quick",
		Bound: "all schedules: 2 goroutines writing a message of up to 7 chunks while the write size changes from 2 to 3 to 1",
		Opts:  L, Body: concurrentWrites([][]hlib.Msg{{wm(3, 1, 7)}, {wm(70, 3, 5)}}, 2, []int{3, 1})})
	R(gomc.Scenario{Prop: "C11", Name: "c11-sizes2", Tier: "quick",
		Bound: "all schedules: 1 goroutine writing 2 messages while the write size changes from 1 to 4 to 2",
		Opts:  L, Body: concurrentWrites([][]hlib.Msg{{wm(3, 1, 6), wm(4, 2, 6)}}, 1, []int{4, 2})})
	long := func(name, bound string, size int, changes []int, lens ...int) {
		msgs := [][]hlib.Msg{{wm(4, 1, lens[0])}, {wm(70, 3, lens[1])}}
		for _, n := range lens[2:] {
			msgs[1] = append(msgs[1], wm(70, 4+n%7, n))
		}
		R(gomc.Scenario{Prop: "C11", Name: "c11-long-" + name, Tier: "quick", Bound: "all schedules: 2 goroutines writing " + bound,
			Opts: L, Body: concurrentWrites(msgs, size, changes)})
	}
	long("default", "5000 and 700 bytes in pieces of 128", 128, nil, 5000, 700)
	long("64k", "70000 and 300 bytes in pieces of 128", 128, nil, 70000, 300)
	long("64k-both", "66000 bytes each, then 3 bytes, in pieces of 4096", 4096, nil, 66000, 66000, 3)
	long("one-piece", "100000 and 40000 bytes in one piece each", 1<<17, nil, 100000, 40000)
	long("1M", "1.1 million and 3 bytes in pieces of 4096", 4096, nil, 1100000, 3)
	long("16M", "0xffffff and 70000 bytes in pieces of 65536", 65536, nil, 0xffffff, 70000)
	long("sizes", "70000 and 9000 bytes while the write size changes from 128 to 4096 to 1000", 128, []int{4096, 1000}, 70000, 9000)
	ext := func(f byte, csid uint32, n, l int) hlib.Msg {
		m := wm(csid, n, l)
		m.Fmt, m.Delta, m.TS, m.Ext = f, f > 0, 0xffffff, uint32(0x1000000*n)
		return m
	}
	R(gomc.Scenario{Prop: "C11", Name: "c11-headers", Tier: "quick",
		Bound: "all schedules: 3 goroutines writing messages of 2-4 chunks with extended timestamps and header types 0-3",
		Opts:  L, Body: concurrentWrites([][]hlib.Msg{{ext(0, 3, 1, 7), ext(3, 3, 2, 4)}, {ext(1, 70, 3, 5)}, {ext(2, 400, 5, 4)}}, 2, nil)})
	R(gomc.Scenario{Prop: "C11", Name: "c11-deep", Tier: "quick",
		Bound: "all schedules: 3 goroutines writing 2 messages each while the write size changes",
		Opts:  L, Body: concurrentWrites([][]hlib.Msg{{wm(3, 1, 5), wm(3, 2, 3)}, {wm(70, 3, 4), wm(70, 4, 4)}, {wm(400, 5, 3), wm(5, 6, 0)}}, 2, []int{3})})
	R(gomc.Scenario{Prop: "C12", Name: "c12-read-size", Tier: "quick", Bound: "all schedules: a reader receiving a Set Chunk Size and a message, 1 goroutine setting and 2 reading the size; races", Opts: L, Body: sizeReader})
	R(gomc.Scenario{Prop: "C12", Name: "c12-write-size", Tier: "quick", Bound: "all schedules: 2 goroutines setting and reading the size while a third writes; races", Opts: L, Body: sizeWriter})
	R(gomc.Scenario{Prop: "C12", Name: "c12-counter", Tier: "quick", Bound: "all schedules: 3 goroutines with 2 operations each on the byte counter of a builder; races", Opts: L, Body: counters})
	for i, ids := range [][]uint32{{4, 4}, {4, 5, 4}} {
		R(gomc.Scenario{Prop: "C08", Name: fmt.Sprintf("c08-group-repeated-%d", i), Tier: "quick", Opts: M, Body: groupRepeats(ids...),
			Bound: fmt.Sprintf("all schedules: 4 messages on 2 chunk streams, a group asked for as %v", ids)})
	}
	R(gomc.Scenario{Prop: "C12", Name: "c12-build", Tier: "quick", Bound: "all schedules: building while appending; races", Opts: L, Body: buildWhileAppending})
	R(gomc.Scenario{Prop: "C12", Name: "c12-lookups", Tier: "quick", Bound: "all schedules: 4 goroutines asking for chunk streams while 3 messages arrive; races", Opts: L, Body: lookups})
	R(gomc.Scenario{Prop: "C12", Name: "c12-headers", Tier: "quick", Bound: "all schedules: 3 goroutines storing and looking up headers; races", Opts: L, Body: headers})
}
