package main

import (
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"

	"verif/mc/gomc"
)

// C16 for the control streams: two connections at once.

// twoStreams: two control streams, each with two messages in and one out, all
// schedules.
func twoStreams(k int) func() {
	return func() {
		var ks [2]*seen
		var ws [2]*fakeWriter
		var want [2][]string
		var sent [2]ctl
		for i := range ks {
			src := &fakeStream{make(chan *chunk.Chunk)}
			w := &fakeWriter{fail: map[int]bool{}}
			s := control.NewStream(src, w, control.NewParser(), control.NewChunker())
			ks[i], ws[i] = &seen{}, w
			typ := byte(5 - k)
			in := []ctl{{typ: typ, v: uint32(0x01020304 * (i + 1)), event: uint16(i), body: []byte{byte(i), 9}}}
			if typ == 4 {
				in[0].v = 0
			} else {
				in[0].event, in[0].body = 0, nil
			}
			if i == 0 {
				in = append(in, ctl{typ: 6, v: 7, limit: 1})
			}
			sent[i] = ctl{typ: 3, v: uint32(100 + i)}
			gomc.GoDaemon("receive", s.Recv)
			gomc.GoDaemon("control messages", func() {
				for c := range s.In() {
					ks[i].take(c)
				}
			})
			gomc.GoDaemon("errors", func() {
				for e := range s.Errs() {
					ks[i].fail(e)
				}
			})
			for _, m := range in {
				want[i] = append(want[i], m.String())
			}
			gomc.Go("harness/feed", func() {
				for n, m := range in {
					src.c <- chunkOf(m.typ, m.payload())
					if n == 0 {
						s.Out() <- sent[i].make()
					}
				}
			})
		}
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("stuck: %v", l)
		}
		for i := range ks {
			ks[i].recheck()
			if fmt.Sprint(ks[i].in) != fmt.Sprint(want[i]) || len(ks[i].errs) > 0 {
				gomc.Fail("connection %d gave %q, errors %q instead of %q", i+1, ks[i].in, ks[i].errs, want[i])
			}
			if len(ws[i].got) != 1 || !ws[i].got[0].eq(sent[i]) {
				gomc.Fail("connection %d wrote %v instead of %v", i+1, ws[i].got, sent[i])
			}
		}
	}
}

// twoParsers: control messages of two connections decoded and encoded in turn,
// everything kept to the end.
func twoParsers() {
	a := byte(1 + gomc.Choose(6, "type"))
	b := byte(1 + gomc.Choose(6, "other type"))
	l := gomc.Choose(12, "body")
	var ps [2]control.Parser
	var cs [2]control.Chunker
	for i := range ps {
		ps[i], cs[i] = control.NewParser(), control.NewChunker()
	}
	type kept struct {
		want ctl
		got  control.Control
		msg  *chunk.Chunk
	}
	var all []kept
	for n := 0; n < 12; n++ {
		i := n % 2
		typ := []byte{a, b}[i]
		m := ctl{typ: typ, v: uint32(0x010203)*uint32(n+1) + uint32(l)}
		switch typ {
		case 4:
			m = ctl{typ: 4, event: uint16(n), body: make([]byte, (l+n*i)%13)}
			for k := range m.body {
				m.body[k] = byte(n*16 + k)
			}
		case 6:
			m.limit = byte(n)
		}
		p := m.payload()
		if n%5 == 4 { // one that fails in between
			if c, err := ps[i].Parse(chunkOf(typ, p[:1])); err == nil {
				gomc.Fail("a payload of one byte gave %v", of(c))
			}
		}
		c, err := ps[i].Parse(chunkOf(typ, p))
		if err != nil {
			gomc.Fail("%v: %v", m, err)
		}
		w, err := cs[i].Chunk(m.make())
		if err != nil {
			gomc.Fail("%v: %v", m, err)
		}
		all = append(all, kept{m, c, w})
	}
	for n, k := range all {
		if !of(k.got).eq(k.want) {
			gomc.Fail("message %d: %v instead of %v", n+1, of(k.got), k.want)
		}
		if d := checkChunk(k.want, k.msg); d != "" {
			gomc.Fail("message %d for %v: %s", n+1, k.want, d)
		}
	}
	gomc.Count("evaluations", 1)
}

// twoBad: messages of two connections that cannot be decoded, and one that
// cannot be written.
func twoBad() {
	var ks [2]*seen
	for i := range ks {
		src := &fakeStream{make(chan *chunk.Chunk)}
		w := &fakeWriter{fail: map[int]bool{1: true}}
		s := control.NewStream(src, w, control.NewParser(), control.NewChunker())
		ks[i] = &seen{}
		gomc.GoDaemon("receive", s.Recv)
		gomc.GoDaemon("control messages", func() {
			for c := range s.In() {
				ks[i].take(c)
			}
		})
		gomc.GoDaemon("errors", func() {
			for e := range s.Errs() {
				ks[i].fail(e)
			}
		})
		typ := []byte{9, 3}[i]
		gomc.Go("harness/feed", func() {
			src.c <- chunkOf(typ, []byte{1})
			s.Out() <- ctl{typ: 3, v: uint32(i)}.make()
		})
	}
	if l := gomc.Quiesce(); len(l) > 0 {
		gomc.Fail("stuck: %v", l)
	}
	for i := range ks {
		if len(ks[i].in) != 0 || len(ks[i].errs) != 2 {
			gomc.Fail("connection %d gave %q, errors %q", i+1, ks[i].in, ks[i].errs)
		}
	}
}

func init() {
	R := gomc.Register
	for k, b := range []string{"window sizes", "user control events", "acknowledgements"} {
		R(gomc.Scenario{Prop: "C16", Name: fmt.Sprintf("c16-control-%d", k), Tier: "quick", Opts: gomc.Opts{Mem: true, RaceFails: true}, Body: twoStreams(k),
			Bound: "all schedules: two control streams with 1-2 messages in (" + b + ") and 1 out each; races are violations"})
	}
	R(gomc.Scenario{Prop: "C16", Name: "c16-control-bad", Tier: "quick", Opts: gomc.Opts{Mem: true, RaceFails: true}, Body: twoBad,
		Bound: "all schedules: two control streams with a message each that cannot be decoded and one that cannot be written; races are violations"})
	R(gomc.Scenario{Prop: "C16", Name: "c16-control-codec", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 6}, Body: twoParsers,
		Bound: "all pairs of types x 12 lengths: 12 control messages of two connections decoded and encoded in turn, all kept to the end"})
}
