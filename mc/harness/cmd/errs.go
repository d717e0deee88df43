package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/WatchBeam/amf0"
	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// Failures of every kind, again and again; names and types that are almost right.

type marshalErr struct{ e error }

func (b *marshalErr) Marshal() ([]byte, error) { return nil, b.e }

type frameErr struct{ e error }

func (b *frameErr) Id() byte                       { return 9 }
func (b *frameErr) Read(*chunk.Chunk) error        { return nil }
func (b *frameErr) Marshal() (*chunk.Chunk, error) { return nil, b.e }

func unencodable(which int, e error) any {
	switch which {
	case 0:
		return &marshalErr{e}
	case 1:
		st := stream.NewStatus()
		st.Arguments.Add("x", amf0.Unencodable(e))
		return st
	}
	return &frameErr{e}
}

func sameErrors(which int) func() {
	return func() {
		errs := hlib.AllErrs()
		e := errs[gomc.Choose(len(errs), "error")]
		n := pick("failures", 1, 2, 3, 7)
		encoder := gomc.Choose(2, "of the encoder") == 1
		src := make(chan *chunk.Chunk)
		w := &fakeWriter{err: e}
		h := makers[which](src, w)
		gomc.GoDaemon("listen", h.listen)
		k := &seen{}
		var got []error
		k.onErr = func(e error) { got = append(got, e) }
		h.drain(k, false)
		for i := 0; i < n; i++ {
			if encoder {
				h.send(unencodable(which, e))
			} else {
				h.send(outOf(which)[i%2].send)
			}
		}
		gomc.Quiesce()
		if len(got) != n {
			gomc.Fail("%d items failed with %q (%T), %d errors were reported: %v", n, e, e, len(got), got)
		}
		for _, g := range got {
			if !errors.Is(g, e) && !strings.Contains(g.Error(), e.Error()) {
				gomc.Fail("sending failed with %q (%T), reported was %q", e, e, g)
			}
		}
		bad := badOf(which)
		for i := 0; i < n; i++ {
			src <- chunkTo(which, bad[2])
			src <- chunkTo(which, bad[0])
		}
		good := msgsOf(which, 1, "a", true, 9)[0]
		src <- chunkTo(which, good)
		gomc.Quiesce()
		if len(got) != 3*n || len(k.in) != 1 || k.in[0] != good.want {
			gomc.Fail("%d bad messages and a good one: %d errors, delivered %q", 2*n, len(got)-n, k.in)
		}
		w.err = nil
		o := outOf(which)[0]
		h.send(o.send)
		gomc.Quiesce()
		if len(w.got) != 1 || !o.want.eq(w.got[0]) || len(got) != 3*n {
			gomc.Fail("after failures, written is %v, with %d errors more", w.got, len(got)-3*n)
		}
		gomc.Count("evaluations", 1)
	}
}

// wrongNames are names that are not those of a command of this handler.
func wrongNames(which int) []string {
	conns := []string{"connect", "createStream", "releaseStream", "FCPublish", "getStreamLength"}
	streams := []string{"play", "play2", "deleteStream", "receiveAudio", "receiveVideo", "publish", "seek", "pause"}
	known, others := conns, streams
	if which == 1 {
		known, others = streams, conns
	}
	var l []string
	l = append(l, others...)
	l = append(l, "", "close", "call", "_result", "_error", "onStatus", "FCUnpublish", "@setDataFrame", "play3", "\x00")
	for _, k := range known {
		for i := range k {
			c := k[i]
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				l = append(l, k[:i]+string(c^0x20)+k[i+1:])
			}
			l = append(l, k[:i], k[i:], k[:i]+k[i+1:], k[:i]+k[i:i+1]+k[i:], k[:i]+"x"+k[i:], k[:i]+string(c^1)+k[i+1:], k[:i]+string([]byte{c | 0x80})+k[i+1:])
			if i > 0 && k[i] != k[i-1] {
				l = append(l, k[:i-1]+string([]byte{k[i], k[i-1]})+k[i+1:])
			}
		}
		for c := 0; c < 256; c++ {
			x := string([]byte{byte(c)})
			l = append(l, k+x, x+k)
		}
		for _, x := range []string{" ", "\x00", "\n", "\t", "/", ":", "()", ".", "\xff"} {
			l = append(l, x+k+x, k+x+x, k[:1]+x+k[1:], k[:len(k)-1]+x+k[len(k)-1:])
		}
		l = append(l, strings.ToUpper(k), strings.ToLower(k), strings.Title(k), k+k, "net."+k)
	}
	is := map[string]bool{}
	for _, k := range known {
		is[k] = true
	}
	var out []string
	for _, n := range l {
		if !is[n] {
			is[n] = true
			out = append(out, n)
		}
	}
	return out
}

// unknown: only the exact name is that of a command.
func unknown(which int) func() {
	return func() {
		l := wrongNames(which)
		i := gomc.Choose(len(l), "name")
		n := l[i]
		var p []byte
		rest := pick("fields", cat(aStr("a"), aStr("b")), cat(aNum(1), aNum(2)), cat(aBool(true), aNum(1)), cat(aObj("x", aNum(1))))
		if which == 0 {
			p = cat(aStr(n), aNum(1), aNull(), rest)
		} else {
			p = cat(aStr(n), aNum(0), aNull(), rest)
		}
		all := msgsOf(which, 1, "a", true, 9)
		before := all[(i+gomc.Choose(2, "command before"))%len(all)]
		setup{which: which, in: []inMsg{before, {0x14, p, ""}, all[0]}}.run()
		gomc.Count("evaluations", 1)
	}
}

// every type at the data handler
func dataTypes() {
	typ := byte(gomc.Choose(256, "type"))
	for _, p := range [][]byte{{0x2f, 1, 2}, {0xaf}, cat(aStr("@setDataFrame"), aStr("t"), aArr("x", aNum(1)))} {
		m := inMsg{typ, p, ""}
		switch {
		case typ == 8:
			m.want = "audio " + avTxt(p[0], p[1:])
		case typ == 9:
			m.want = "video " + avTxt(p[0], p[1:])
		case typ == 0x12 && p[0] == 2:
			m.want = "frame @setDataFrame t {x:1}"
		}
		other := dataMsgs(1, "o", 7)
		setup{which: 2, in: []inMsg{other[0], m, other[3]}}.run()
	}
	gomc.Count("evaluations", 3)
}

// fields: the strings are exactly those sent, whatever is in them.
func fields(which int) func() {
	return func() {
		first := gomc.Choose(256, "byte")
		for _, s := range []string{string([]byte{byte(first)}), string([]byte{'k', byte(first)}), string([]byte{byte(first), 'k'}), string([]byte{'a', byte(first), byte(first), 'b'})} {
			var in []inMsg
			for _, m := range msgsOf(which, float64(first), s, first%2 == 0, byte(first)) {
				in = append(in, m)
			}
			setup{which: which, in: in}.run()
			gomc.Count("evaluations", int64(len(in)))
		}
	}
}

var (
	_ conn.Marshallable = new(marshalErr)
	_ data.Data         = new(frameErr)
)

func init() {
	n := len(hlib.AllErrs())
	R := gomc.Register
	for w := 0; w < 3; w++ {
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-same-errors", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: n}, Body: sameErrors(w),
			Bound: fmt.Sprintf("1-7 times the same failure of the writer or the encoder (%d kinds), the same bad messages, then good ones", n)})
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-fields", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 16}, Body: fields(w),
			Bound: "every command with strings in which every byte value occurs at the start, inside and at the end"})
		if w < 2 {
			k := len(wrongNames(w))
			R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-unknown", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 16}, Body: unknown(w),
				Bound: fmt.Sprintf("%d names that are almost those of a command (other case, letters lost, added, doubled, exchanged, any byte before or after), 4 kinds of fields, after 2 commands", k)})
		}
	}
	R(gomc.Scenario{Prop: "C19", Name: "c19-data-types", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: 8}, Body: dataTypes,
		Bound: "all 256 message types with 3 payloads"})
}
