package main

import (
	"fmt"

	"github.com/WatchBeam/amf0"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// Long messages: lengths around the limits of every integer a length could
// be squeezed into.

var longSizes = []int{127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 32769,
	65535, 65536, 65537, 70000, 131071, 131072, 131073, 200000}

// filled has keys and strings such that an object with them is n bytes longer
// than an empty one.
func filled(n int) (ks, vs []string) {
	for _, k := range keys {
		over := 2 + len(k) + 3
		if n < over {
			break
		}
		l := min(n-over, 65535)
		if rest := n - over - l; rest > 0 && rest < 10 {
			l -= 10
		}
		ks, vs = append(ks, k), append(vs, string(hlib.Pattern(l, l)))
		n -= over + l
	}
	return
}

func kv(ks, vs []string) (r []any) {
	for i, k := range ks {
		r = append(r, k, aStr(vs[i]))
	}
	return
}

func addAll(p *amf0.Paired, ks, vs []string) {
	for i, k := range ks {
		p.Add(k, amf0.NewString(vs[i]))
	}
}

func shown(ks, vs []string) string {
	o := amf0.NewObject()
	addAll(o.Paired, ks, vs)
	return showObj(o)
}

// longOut is an item that becomes n bytes.
func longOut(which, kind, n int) outMsg {
	switch which {
	case 0:
		empty := len(cat(aStr("_result"), aNum(1), aObj(), aObj()))
		ks, vs := filled(n - empty)
		r := &conn.ConnectResponse{TransactionId: 1, Properties: *amf0.NewObject(), Information: *amf0.NewObject()}
		if kind == 0 {
			addAll(r.Properties.Paired, ks, vs)
			return outMsg{send: r, want: wire{3, 0x14, 0, cat(aStr("_result"), aNum(1), aObj(kv(ks, vs)...), aObj())}}
		}
		addAll(r.Information.Paired, ks, vs)
		return outMsg{send: r, want: wire{3, 0x14, 0, cat(aStr("_result"), aNum(1), aObj(), aObj(kv(ks, vs)...))}}
	case 1:
		empty := len(cat(aStr("onStatus"), aNum(0), aNull(), aObj()))
		ks, vs := filled(n - empty)
		st := stream.NewStatus()
		addAll(st.Arguments.Paired, ks, vs)
		return outMsg{send: st, want: wire{5, 0x14, 1, cat(aStr("onStatus"), aNum(0), aNull(), aObj(kv(ks, vs)...))}}
	}
	if kind == 0 {
		return audio(1, append([]byte{0xaf}, hlib.Pattern(n, n-1)...)...)
	}
	empty := len(cat(aStr("@setDataFrame"), aStr("onMetaData"), aArr()))
	ks, vs := filled(n - empty)
	a := amf0.NewArray()
	addAll(a.Paired, ks, vs)
	return outMsg{send: &data.DataFrame{Header: "@setDataFrame", Type: "onMetaData", Arguments: a},
		want: wire{4, 0x12, 1, cat(aStr("@setDataFrame"), aStr("onMetaData"), aArr(kv(ks, vs)...))}}
}

// longIn is a message of n bytes.
func longIn(which, kind, n int) inMsg {
	switch which {
	case 0:
		switch kind {
		case 0:
			ks, vs := filled(n - len(cat(aStr("connect"), aNum(1), aObj())))
			return inMsg{0x14, cat(aStr("connect"), aNum(1), aObj(kv(ks, vs)...)), "connect 1 " + shown(ks, vs)}
		case 1:
			ks, vs := filled(n - len(cat(aStr("createStream"), aNum(1), aObj())))
			return inMsg{0x14, cat(aStr("createStream"), aNum(1), aObj(kv(ks, vs)...)), "createStream 1 " + shown(ks, vs)}
		}
		s := string(hlib.Pattern(n, min(65535, n-len(cat(aStr("FCPublish"), aNum(1), aNull(), aStr(""))))))
		return inMsg{0x14, cat(aStr("FCPublish"), aNum(1), aNull(), aStr(s)), "FCPublish 1 " + txt(s)}
	case 1:
		switch kind {
		case 0:
			ks, vs := filled(n - len(cat(head("play2"), aObj())))
			return inMsg{0x14, cat(head("play2"), aObj(kv(ks, vs)...)), "play2 " + shown(ks, vs)}
		case 1:
			s := string(hlib.Pattern(n, min(65535, n-len(cat(head("publish"), aStr(""), aStr("live"))))))
			return inMsg{0x14, cat(head("publish"), aStr(s), aStr("live")), "publish " + txt(s) + " live"}
		}
		s := string(hlib.Pattern(n, min(65535, n-len(cat(head("play"), aStr(""), aNum(1))))))
		return inMsg{0x14, cat(head("play"), aStr(s), aNum(1)), "play " + txt(s) + " 1"}
	}
	switch kind {
	case 0, 1:
		p := hlib.Pattern(n, n-1)
		c := byte(n)
		return inMsg{byte(8 + kind), append([]byte{c}, p...), []string{"audio ", "video "}[kind] + avTxt(c, p)}
	}
	ks, vs := filled(n - len(cat(aStr("@setDataFrame"), aStr("onMetaData"), aArr())))
	return inMsg{0x12, cat(aStr("@setDataFrame"), aStr("onMetaData"), aArr(kv(ks, vs)...)), "frame @setDataFrame onMetaData " + shown(ks, vs)}
}

// long messages through a handler, with short ones and longer ones around them
func longRun(which int) func() {
	return func() {
		n := pick("length", longSizes...)
		kind := gomc.Choose(3, "kind")
		other := gomc.Choose(3, "neighbour")
		l := []inMsg{longIn(which, kind, n), msgsOf(which, 1, "a", true, 9)[other], longIn(which, (kind+1)%3, n), longIn(which, kind, 300)}
		outs := func() []outMsg {
			return []outMsg{longOut(which, kind%2, n), outOf(which)[0], longOut(which, (kind+1)%2, n), longOut(which, kind%2, 300)}
		}
		setup{which: which, in: l, out: outs, fail: []int{other + 1}}.run()
		gomc.Count("evaluations", 1)
		gomc.Count("beat", 1)
	}
}

// long items made into messages, all kept
func makeLong() {
	n := pick("length", longSizes...)
	which := gomc.Choose(3, "kind")
	var ms []outMsg
	var cs []*chunk.Chunk
	for _, d := range []int{0, 1, -1, 1000} {
		for kind := 0; kind < 2; kind++ {
			m := longOut(which, kind, n+d)
			if w := len(m.want.data); w != n+d {
				gomc.Fail("the harness makes %d bytes instead of %d", w, n+d)
			}
			ms, cs = append(ms, m), append(cs, made(m))
			o := outOf((which + kind) % 3)[0]
			ms, cs = append(ms, o), append(cs, made(o))
		}
	}
	for i, c := range cs {
		if w := toWire(c); !w.eq(ms[i].want) {
			gomc.Fail("message %d of %d is %v in the end; it was %v", i+1, len(cs), w, ms[i].want)
		}
	}
	gomc.Count("evaluations", int64(len(cs)))
	gomc.Count("beat", 1)
}

// long frames read, marshalled and kept
func longFrames() {
	n := pick("length", append(longSizes, 1<<20, 1<<24-1)...)
	c := pick("control byte", byte(0), 0x17, 0xaf, 0xff)
	var ds []data.Data
	var ms []*chunk.Chunk
	for _, l := range []int{n, 5, n - 1, n} {
		for typ := byte(8); typ <= 9; typ++ {
			p := append([]byte{c}, hlib.Pattern(l+int(typ), l-1)...)
			d, err := parse(avMsg(typ, 4, 1, 0, 5, 0, p))
			if err != nil {
				gomc.Fail("type %d, %d bytes: %v", typ, l, err)
			}
			ds, ms = append(ds, d), append(ms, avMsg(typ, 4, 1, 0, 5, 0, p))
		}
	}
	for i, d := range ds {
		checkFrame(d, ms[i].Header.MessageHeader.TypeId, ms[i].Data[0], ms[i].Data[1:])
		g, err := d.Marshal()
		checkSame(g, err, ms[i])
	}
	gomc.Count("evaluations", int64(len(ds)))
	gomc.Count("beat", 1)
}

func init() {
	R := gomc.Register
	fixed := gomc.Opts{Fixed: true, Shards: len(longSizes)}
	for i := 0; i < 3; i++ {
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[i] + "-long", Tier: "quick", Opts: fixed, Body: longRun(i),
			Bound: fmt.Sprintf("messages in and items out of %d lengths from 127 to 200000 bytes, every kind that can be so long, with short ones between", len(longSizes))})
	}
	R(gomc.Scenario{Prop: "C22", Name: "c22-long", Tier: "quick", Opts: fixed, Body: makeLong,
		Bound: fmt.Sprintf("items of %d lengths from 127 to 200000 bytes and their neighbours, all kept", len(longSizes))})
	R(gomc.Scenario{Prop: "C21", Name: "c21-long", Tier: "quick", Opts: fixed, Body: longFrames,
		Bound: fmt.Sprintf("frames of %d lengths from 127 bytes to 16 MB, short ones between, all kept", len(longSizes)+2)})
}
