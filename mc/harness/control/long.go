package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

var longSizes = []int{14, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 513, 1024, 4094, 4095, 4096, 4097, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70000, 131073, 1 << 20}

// longEvents: user control events with long bodies, all kept.
func longEvents() {
	n := pick("length", longSizes...)
	e := pick("event", uint16(0), 3, 6, 31, 0x0100, 0xffff)
	p, k := control.NewParser(), control.NewChunker()
	var ms []ctl
	var out []*chunk.Chunk
	var got []control.Control
	for _, l := range []int{n, 4, n - 1, n} {
		m := ctl{typ: 4, event: e, body: hlib.Pattern(l+int(e), l)}
		roundtrip(p, k, m)
		c, err := k.Chunk(m.make())
		if err != nil {
			gomc.Fail("encoding %v: %v", m, err)
		}
		g, err := p.Parse(chunkOf(4, m.payload()))
		if err != nil {
			gomc.Fail("an event of %d bytes: %v", l, err)
		}
		ms, out, got = append(ms, m), append(out, c), append(got, g)
	}
	for i, m := range ms {
		if d := checkChunk(m, out[i]); d != "" {
			gomc.Fail("an event of %d bytes in the end: %s", len(m.body), d)
		}
		if !m.eq(of(got[i])) {
			gomc.Fail("an event of %d bytes is something else in the end", len(m.body))
		}
	}
	// of the other types the first bytes count
	for typ := 0; typ < 256; typ++ {
		b := hlib.Pattern(n+typ, n)
		c, err := p.Parse(chunkOf(byte(typ), b))
		m, ok := decodePayload(byte(typ), b)
		switch {
		case ok && err != nil:
			gomc.Fail("type %d with %d bytes: %v", typ, n, err)
		case !ok && err == nil:
			gomc.Fail("type %d with %d bytes is decoded as %v", typ, n, c)
		case ok && !m.eq(of(c)):
			gomc.Fail("type %d with %d bytes is decoded as %v instead of %v", typ, n, of(c), m)
		}
	}
	gomc.Count("evaluations", 260)
	gomc.Count("beat", 1)
}

// longStream: the same through a control stream; longer messages of the other
// types, whose first bytes count.
func longStream() {
	n := pick("length", longSizes...)
	ev := ctl{typ: 4, event: 3, body: hlib.Pattern(n, n)}
	ack := ctl{typ: 3, v: 5}
	st := setup{split: gomc.Choose(2, "drained by two goroutines") == 1, close: gomc.Choose(2, "closed at the end") == 1}
	st.in = []inMsg{ev.msg(), ack.msg(), {5, hlib.Pattern(n+2, n)}, {6, hlib.Pattern(n+3, n)}, {9, hlib.Pattern(1, n)}, ev.msg()}
	st.out = []any{ev, ack, ev}
	st.run()
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// coding: a message is written to and read from what may fail anywhere or
// return its bytes in any pieces.
func coding() {
	e := pick("error", hlib.AllErrs()...)
	for _, m := range []ctl{{typ: 1, v: 0x010203}, {typ: 2, v: 0x01020304}, {typ: 3, v: 0xfefdfcfb}, {typ: 4, event: 0x0102, body: hlib.Pattern(3, 6)}, {typ: 4, event: 6}, {typ: 5, v: 7}, {typ: 6, v: 0x05060708, limit: 2}} {
		pay := m.payload()
		for k := 0; k <= len(pay); k++ {
			w := &failing{left: k, err: e}
			err := m.make().(control.Control).Write(w)
			switch {
			case k == len(pay) && (err != nil || string(w.got) != string(pay)):
				gomc.Fail("%v is written as % x (%v)", m, w.got, err)
			case k < len(pay) && !errors.Is(err, e):
				gomc.Fail("writing %v fails after %d bytes with %q and %v is returned", m, k, e, err)
			}
			w = &failing{left: k, err: e, once: true}
			if err := m.make().(control.Control).Write(w); k < len(pay) && !errors.Is(err, e) {
				gomc.Fail("writing %v fails once after %d bytes with %q and %v is returned", m, k, e, err)
			}
			for mode := 0; mode < 4; mode++ {
				src := &hlib.Src{Data: pay[:k], Err: e, WithLast: mode&1 == 1 && k > 0}
				n := 0
				src.Frag = func(want int) (int, bool) { n++; return min(want, 1+mode), mode > 1 && n%2 == 0 }
				c := reflect.New(reflect.TypeOf(m.make()).Elem()).Interface().(control.Control)
				err := c.Read(src)
				// an event goes on to the end of what is read
				ok := k == len(pay) && (m.typ != 4 || e == io.EOF) || m.typ == 4 && k >= 2 && e == io.EOF
				switch want := m; {
				case ok && err != nil:
					gomc.Fail("reading %v from % x: %v", m, pay[:k], err)
				case ok:
					if m.typ == 4 {
						want.body = pay[2:k]
					}
					if r := of(c); !want.eq(r) {
						gomc.Fail("% x is read as %v instead of %v", pay[:k], r, want)
					}
				case err == nil:
					gomc.Fail("reading %v fails with %q after %d bytes and no error is returned", m, e, k)
				case e != io.EOF && !errors.Is(err, e):
					gomc.Fail("reading %v fails with %q after %d bytes and %q is returned", m, e, k, err)
				}
			}
		}
	}
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// failing fails from when more than left bytes are written, or then only.
type failing struct {
	left int
	err  error
	once bool
	got  []byte
}

func (f *failing) Write(p []byte) (int, error) {
	if len(p) > f.left {
		n := f.left
		f.got, f.left = append(f.got, p[:n]...), 0
		if f.once {
			f.left = 1 << 30
		}
		return n, f.err
	}
	f.got, f.left = append(f.got, p...), f.left-len(p)
	return len(p), nil
}

func init() {
	gomc.Register(gomc.Scenario{Prop: "C13", Name: "c13-coding", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: len(hlib.AllErrs())}, Body: coding,
		Bound: fmt.Sprintf("7 messages written and read directly, failing after every byte with %d errors, 4 ways of reading", len(hlib.AllErrs()))})
	R := gomc.Register
	f := gomc.Opts{Fixed: true, Shards: len(longSizes)}
	R(gomc.Scenario{Prop: "C13", Name: "c13-long", Tier: "quick", Opts: f, Body: longEvents,
		Bound: fmt.Sprintf("6 event types with bodies of %d lengths from 14 bytes to 1 MB, short ones between, all kept; payloads of these lengths for all 256 types", len(longSizes))})
	R(gomc.Scenario{Prop: "C14", Name: "c14-long", Tier: "quick", Opts: f, Body: longStream,
		Bound: fmt.Sprintf("messages of %d lengths from 14 bytes to 1 MB in and out, drained in 2 ways, closed at the end or not", len(longSizes))})
	for _, d := range []int{2, 3} {
		R(gomc.Scenario{Prop: "C13", Name: fmt.Sprintf("c13-schedules-%d", d), Tier: "quick", Opts: gomc.Opts{Mem: true, Shards: 16}, Body: independent(d),
			Bound: fmt.Sprintf("all schedules of all sequences of %d out of 16 messages through one parser and one chunker", d)})
	}
}
