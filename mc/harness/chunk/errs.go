package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// Failures of every kind, and what follows them.

func failKinds() {
	errs := hlib.AllErrs()
	e := errs[gomc.Choose(len(errs), "error")]
	last := gomc.Choose(2, "with the last bytes") == 1
	once := gomc.Choose(2, "only once") == 1
	if last && once {
		return // a reader that had asked for no more may not notice
	}
	for w := 0; w < 2; w++ {
		g := session(w)
		for cut := 0; cut <= min(len(g.Out), 90); cut++ {
			if cut == 0 && last {
				continue
			}
			src := &hlib.Src{Data: g.Out[:cut], Err: e, WithLast: last}
			if once {
				src.Once, src.Err = e, hlib.ErrTransport
			}
			res := decode(src, initial(w), nil)
			var want []hlib.Msg
			for i, end := range g.Ends {
				if end <= cut {
					want = append(want, g.Want[i])
				}
			}
			if d := hlib.SeqDiff(want, res.msgs); d != "" {
				gomc.Fail("transport failing with %q (%T) after %d of %d bytes: %s", e, e, cut, len(g.Out), d)
			}
			got := res.errs[0]
			if e == io.EOF && errors.Is(got, io.ErrUnexpectedEOF) || errors.Is(got, e) {
				continue
			}
			gomc.Fail("the transport failed with %q (%T) after %d bytes and %q was reported", e, e, cut, got)
		}
		gomc.Count("evaluations", int64(len(g.Out)+1))
		gomc.Count("beat", 1)
	}
}

// failing takes a number of bytes of one message and fails, then works again.
type failing struct {
	*hlib.Dst
	at, n int // fail in write number at, after n bytes
	err   error
	calls int
}

func (f *failing) Write(p []byte) (int, error) {
	if len(f.Data) < f.at || f.err == nil || len(f.Data)+len(p) <= f.at+f.n {
		return f.Dst.Write(p)
	}
	e := f.err
	f.err = nil
	n, _ := f.Dst.Write(p[:f.at+f.n-len(f.Data)])
	return n, e
}

// a failure of the connection, and the messages after it
func writeAfter() {
	errs := hlib.AllErrs()
	e := errs[gomc.Choose(len(errs), "error")]
	size := pick("write size", 128, 4)
	lens := pick("lengths", [3]int{5, 5, 5}, [3]int{300, 0, 9}, [3]int{0, 140, 0})
	first := gomc.Choose(2, "failing message")
	mk := func(i int) hlib.Msg {
		m := hlib.Msg{CSID: []uint32{3, 70, 400}[i], TS: uint32(i), Type: 9, SID: 1, Data: hlib.Pattern(i, lens[i])}
		if i == 1 {
			m.TS, m.Ext = 0xffffff, 77
		}
		return m
	}
	full := wireForm(mk(first), size)
	for n := 0; n < len(full); n++ {
		if n > 20 && n%37 != 0 && n < len(full)-3 {
			continue
		}
		dst := &failing{Dst: hlib.NewDst(), n: n, err: e}
		dst.Quiet = true
		if first == 1 {
			dst.at = len(wireForm(mk(0), size))
		}
		w := chunk.NewWriter(dst, size)
		var exp []byte
		for i := 0; i < 3; i++ {
			m := mk(i)
			err := w.Write(fromMsg(m))
			b := wireForm(m, size)
			if i == first {
				if !errors.Is(err, e) {
					gomc.Fail("the connection failed with %q (%T) after %d of %d bytes, and Write returned %v", e, e, n, len(b), err)
				}
				b = b[:n]
			} else if err != nil {
				gomc.Fail("message %d, after a failure of the connection: %v", i, err)
			}
			exp = append(exp, b...)
			if d := hlib.BytesDiff(exp, dst.Data); d != "" {
				gomc.Fail("the connection failed with %q after %d bytes of message %d; after message %d the bytes written are wrong: %s", e, n, first, i, d)
			}
		}
		gomc.Count("evaluations", 1)
	}
	gomc.Count("beat", 1)
}

// the writer of a header fails with an error of any kind
func headerFails() {
	errs := hlib.AllErrs()
	e := errs[gomc.Choose(len(errs), "error")]
	for f := byte(0); f < 4; f++ {
		for _, csid := range []uint32{3, 70, 400} {
			h, m := mkHeader(f, csid, 0xffffff, 5, 6, 7, 8)
			full := refHeader(m, 6)
			for n := range full {
				dst := &failing{Dst: hlib.NewDst(), n: n, err: e}
				dst.Quiet = true
				if err := h.Write(dst); !errors.Is(err, e) {
					gomc.Fail("the writer failed with %q after %d of %d bytes of a header, and encoding it returned %v", e, n, len(full), err)
				}
				var g chunk.Header
				err := g.Read(plain{&hlib.Src{Data: full[:n], Err: e}})
				if !errors.Is(err, e) && !(e == io.EOF && errors.Is(err, io.ErrUnexpectedEOF)) {
					gomc.Fail("the reader failed with %q after %d of %d bytes of a header, and decoding it returned %v", e, n, len(full), err)
				}
				gomc.Count("evaluations", 1)
			}
		}
	}
}

// the same error again and again, and errors of every kind
func routeErrs() {
	errs := hlib.AllErrs()
	which := gomc.Choose(len(errs)+1, "errors")
	var items []any
	for i := 0; i < 12; i++ {
		e := errs[i]
		if which < len(errs) {
			e = errs[which]
		} else if i < len(errs)-12 {
			e = errs[12+i]
		}
		items = append(items, e)
		if i%3 == 0 {
			items = append(items, msg(4, i))
		}
	}
	p := chunk.NewParser(newScript(items...))
	s, err := p.Stream(4)
	if err != nil {
		gomc.Fail("asking for chunk stream 4: %v", err)
	}
	k, es := &sink{}, &sink{}
	go p.Recv()
	go drain(s, k)
	go drainErrs(p, es)
	gomc.Quiesce()
	checkSinks(items, [][]uint32{{4}}, []*sink{k}, es)
	gomc.Count("evaluations", 1)
}

// a transport that fails a number of times, the reader and the parser on it
func failRepeated() {
	n := 1 + gomc.Choose(12, "failures")
	errs := hlib.AllErrs()
	e := pick("error", errs[0], errs[1], errs[5], io.EOF, io.ErrUnexpectedEOF)
	parser := gomc.Choose(2, "with a parser") == 1
	g := hlib.NewGen(128)
	g.Whole(0, 4, 1, 0, 9, 1, []byte{4, 1})
	src := &hlib.Src{Data: g.Out, Err: e, First: n, Hold: true}
	r := chunk.NewReader(src, 128, chunk.NewNormalizer())
	es, k := &sink{}, &sink{}
	take := func(c <-chan error) {
		for e := range c {
			es.got = append(es.got, fmt.Sprint(e))
		}
	}
	if parser {
		p := chunk.NewParser(r)
		s, _ := p.Stream(4)
		go p.Recv()
		go drain(s, k)
		go take(p.Errs())
	} else {
		go r.Recv()
		go take(r.Errs())
		go func() {
			for c := range r.Chunks() {
				k.got = append(k.got, name(c))
			}
		}()
	}
	gomc.Quiesce()
	if strings.Join(k.got, " ") != "4.1" {
		gomc.Fail("messages delivered: %v", k.got)
	}
	if len(es.got) != n {
		gomc.Fail("the transport failed %d times with %q and %d errors were reported: %v", n, e, len(es.got), es.got)
	}
	gomc.Count("evaluations", 1)
}

// --- pairs of chunk streams ------------------------------------------------

// pairIDs are chunk stream IDs that some representation might take for one another.
func pairIDs() []uint32 {
	seen := map[uint32]bool{63: true}
	var l []uint32
	add := func(v uint32) {
		if v >= 2 && v <= 65599 && !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	for _, b := range []uint32{2, 3, 4, 5, 8} {
		for k := 0; k <= 16; k++ {
			add(b + 1<<k)
		}
		add(b)
		add(b * 10)
		add(b * 1000)
	}
	for k := 1; k <= 16; k++ {
		add(1 << k)
		add(1<<k - 1)
		add(1<<k + 1)
		add(64 + 1<<k)
		add(64 + 1<<k - 1)
		add(64 + 3*256>>1)
	}
	for _, v := range []uint32{0x0102, 0x0201, 0x0304, 0x0403, 0x1003, 0x0310} {
		add(v)
		add(v + 64)
	}
	add(65598)
	add(65599)
	return l
}

func decodePairs() {
	ids := pairIDs()
	a := ids[gomc.Choose(len(ids), "chunk stream")]
	for _, b := range ids {
		if a == b {
			continue
		}
		g := hlib.NewGen(3)
		g.Start(0, a, 0xffffff, 0x01000001, 9, 1, hlib.Pattern(1, 7))
		g.Start(0, b, 5, 0, 8, 2, hlib.Pattern(2, 5))
		g.Cont(a)
		g.Finish()
		g.Start(3, b, 0, 0, 0, 0, hlib.Pattern(3, 5))
		g.Start(2, a, 9, 0, 0, 0, hlib.Pattern(4, 7))
		g.Finish()
		g.Start(1, a, 0xffffff, 0x01000002, 9, 0, hlib.Pattern(5, 4))
		g.Start(2, b, 11, 0, 0, 0, hlib.Pattern(6, 5))
		g.Finish()
		g.Whole(3, b, 0, 0, 0, 0, hlib.Pattern(7, 5))
		g.Whole(3, a, 0, 0x01000003, 0, 0, hlib.Pattern(8, 4))
		expect(g, decode(&hlib.Src{Data: g.Out}, 3, nil), fmt.Sprintf("messages on chunk streams %d and %d", a, b))
	}
	gomc.Count("beat", 1)
}

func routePairs() {
	ids := pairIDs()
	a := ids[gomc.Choose(len(ids), "chunk stream")]
	i := gomc.Choose(len(ids), "other chunk stream")
	group := gomc.Choose(2, "in groups") == 1
	if b := ids[i]; b > a {
		c := ids[(i+3)%len(ids)]
		if c == a || c == b {
			c = 7777
		}
		items := []any{msg(a, 1), msg(b, 1), msg(c, 1), msg(a, 2), msg(b, 2)}
		asks := [][]uint32{{a}, {b}, {c}}
		if group {
			asks = [][]uint32{{a, c}, {b}}
		}
		p := chunk.NewParser(newScript(items...))
		var sinks []*sink
		for _, ask := range asks {
			s, err := p.Stream(ask...)
			if err != nil {
				gomc.Fail("asking for %v: %v", ask, err)
			}
			k := &sink{}
			sinks = append(sinks, k)
			gomc.GoDaemon("consumer", func() {
				for c := range s.In() {
					k.got = append(k.got, fmt.Sprintf("%d: %s", c.StreamId(), name(c)))
				}
			})
		}
		gomc.GoDaemon("receive", p.Recv)
		want := make([][]string, len(asks))
		for i, ask := range asks {
			for _, it := range items {
				if m := it.(*chunk.Chunk); has(ask, m.StreamId()) {
					want[i] = append(want[i], fmt.Sprintf("%d: %s", m.StreamId(), name(m)))
				}
			}
		}
		gomc.Quiesce()
		for i, ask := range asks {
			if !group && fmt.Sprint(sinks[i].got) != fmt.Sprint(want[i]) || len(sinks[i].got) != len(want[i]) {
				gomc.Fail("the consumer of chunk streams %v got %q instead of %q", ask, sinks[i].got, want[i])
			}
			for _, m := range sinks[i].got {
				if !strings.Contains(fmt.Sprint(want[i]), m) {
					gomc.Fail("the consumer of chunk streams %v got %q instead of %q", ask, sinks[i].got, want[i])
				}
			}
		}
		gomc.Count("evaluations", 1)
	}
}

// all chunk streams there are, with a message in progress on each
func decodeAll() {
	w := pick("chunk streams", [2]uint32{64, 9000}, [2]uint32{2, 65599}, [2]uint32{64, 65599}, [2]uint32{320, 65599})
	lo, hi := w[0], w[1]
	back := gomc.Choose(2, "continued in reverse order") == 1
	g := hlib.NewGen(2)
	var ids []uint32
	for c := lo; c <= hi; c++ {
		if c != 63 {
			ids = append(ids, c)
		}
	}
	for i, c := range ids {
		g.Start(0, c, uint32(i), 0, byte(i%200+8), uint32(i*7), hlib.Pattern(i, 3))
	}
	for i := range ids {
		if back {
			i = len(ids) - 1 - i
		}
		g.Cont(ids[i])
	}
	for i, c := range ids {
		f := byte(1 + i%3)
		n := 3
		if f == 1 {
			n = 1
		}
		g.Whole(f, c, uint32(i%1000), 0, 8, 0, hlib.Pattern(i, n))
		if i%4096 == 0 {
			gomc.Count("beat", 1)
		}
	}
	expect(g, decode(&hlib.Src{Data: g.Out}, 2, nil), "messages on every chunk stream")
}

func init() {
	R := gomc.Register
	F := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	n := len(hlib.AllErrs())
	R(gomc.Scenario{Prop: "C06", Name: "c06-kinds", Tier: "quick", Opts: F(n), Body: failKinds,
		Bound: fmt.Sprintf("2 sessions x failure after every byte (up to 90) x %d errors (timeouts, temporary, wrapped, of the system, of types that cannot be compared...), with the last bytes or after them, repeated or not", n)})
	R(gomc.Scenario{Prop: "C06", Name: "c06-repeated", Tier: "quick", Opts: F(12), Body: failRepeated,
		Bound: "1-12 failures of one kind (5 kinds), each reported once; reader alone and with a parser"})
	R(gomc.Scenario{Prop: "C02", Name: "c02-after-error", Tier: "quick", Opts: F(n), Body: writeAfter,
		Bound: fmt.Sprintf("%d errors of the connection during one message, after any number of its bytes, then further messages", n)})
	R(gomc.Scenario{Prop: "C03", Name: "c03-errors", Tier: "quick", Opts: F(n), Body: headerFails,
		Bound: fmt.Sprintf("%d errors of the reader and of the writer at every byte of the headers", n)})
	R(gomc.Scenario{Prop: "C08", Name: "c08-errors", Tier: "quick", Opts: F(n + 1), Body: routeErrs,
		Bound: fmt.Sprintf("12 errors: all the same one, of %d kinds, or all different", n)})
	R(gomc.Scenario{Prop: "C01", Name: "c01-pairs", Tier: "quick", Opts: F(len(pairIDs())), Body: decodePairs,
		Bound: fmt.Sprintf("all ordered pairs of %d chunk stream IDs (powers of two apart, bytes exchanged, at every limit), interleaved, header types 0-3", len(pairIDs()))})
	R(gomc.Scenario{Prop: "C08", Name: "c08-pairs", Tier: "quick", Opts: F(len(pairIDs())), Body: routePairs,
		Bound: fmt.Sprintf("all pairs of %d chunk stream IDs and a third one, asked for alone or in groups", len(pairIDs()))})
	R(gomc.Scenario{Prop: "C01", Name: "c01-all-streams", Tier: "quick", Opts: F(4), Body: decodeAll,
		Bound: "messages in progress on all 65597 chunk streams at once, then messages with header types 1-3 on each"})
}
