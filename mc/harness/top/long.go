package main

import (
	"bytes"
	"fmt"

	"github.com/WatchBeam/amf0"

	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

var longSizes = []int{127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65000, 65535, 65536, 65537, 100000, 131073}

// longSession: long messages in both directions.
func longSession() {
	n := pick("length", longSizes...)
	size := pick("chunk size", 128, 1, 4096, 65536)
	mix := gomc.Choose(2, "chunks interleaved") == 1
	if n/size > 4200 {
		return
	}
	s := newSession(1)
	s.p.Quiet, s.p.Hold = true, true
	str := string(hlib.Pattern(n, min(n, 65535)))
	av := hlib.Pattern(n+1, n)
	short := kind(3, 2)
	l := []msg{
		{3, 0x14, 0, cat(aStr("FCPublish"), aNum(1), aNull(), aStr(str)), toConn, "FCPublish 1 " + str},
		{4, 8, 1, av, toData, fmt.Sprintf("audio % x", av)},
		short,
		{8, 0x14, 0, cat(aStr("releaseStream"), aNum(2), aNull(), aStr(str)), toConn, "releaseStream 2 " + str},
		{4, 9, 1, av, toData, fmt.Sprintf("video % x", av)},
		kind(0, 3), kind(2, 4),
	}
	if size != 128 {
		l = append([]msg{{2, 1, 0, hlib.U32(uint32(size)), toNone, ""}}, l...)
	}
	s.peerSends(mix, l...)
	s.app()
	s.serve()
	s.handshake()
	var want [4][]hlib.Msg
	send := func(k int, f func(), typ byte, csid, sid uint32, p []byte) {
		want[k] = append(want[k], hlib.Msg{CSID: csid, Type: typ, SID: sid, Data: p})
		gomc.GoDaemon("sender", f)
	}
	o := func(s string) *amf0.Object { return nobj("code", s) }
	send(0, func() { s.c.Controls().Out() <- &control.Event{Type: 3, Body: av} }, 4, 2, 0, cat([]byte{0, 3}, av))
	send(1, func() {
		s.c.Net().NetConn().Out() <- &conn.ConnectResponse{TransactionId: 1, Properties: *o("p"), Information: *o(str)}
	}, 0x14, 3, 0, cat(aStr("_result"), aNum(1), aObj("code", aStr("p")), aObj("code", aStr(str))))
	send(2, func() {
		st := stream.NewStatus()
		st.Arguments.Add("code", amf0.NewString(str))
		st.Arguments.Add("level", amf0.NewString(str))
		s.c.Net().NetStream().Status() <- st
	}, 0x14, 5, 1, cat(aStr("onStatus"), aNum(0), aNull(), aObj("code", aStr(str), "level", aStr(str))))
	send(3, func() {
		a := amf0.NewArray()
		a.Add("x", amf0.NewString(str))
		s.c.Net().DataStream().In() <- &data.DataFrame{Header: "@setDataFrame", Type: str, Arguments: a}
	}, 0x12, 4, 1, cat(aStr("@setDataFrame"), aStr(str), aArr("x", aStr(str))))
	gomc.Quiesce()
	s.verify(fmt.Sprint("messages of ", n, " bytes"))
	d := hlib.Decode(s.p.Out[hlib.HandshakeLen:], 4096, true)
	if d.Err != nil || d.Partial || d.Rest != 0 {
		gomc.Fail("what was sent is not a chunk stream: %v, %d bytes left, partial %v", d.Err, d.Rest, d.Partial)
	}
	for _, m := range d.Msgs {
		k := map[uint32]int{2: 0, 3: 1, 5: 2, 4: 3}[m.CSID]
		if len(want[k]) == 0 {
			gomc.Fail("a message too many on chunk stream %d", m.CSID)
		}
		w := want[k][0]
		want[k] = nil
		if m.Type != w.Type || m.SID != w.SID || m.CSID != w.CSID || !bytes.Equal(m.Data, w.Data) {
			gomc.Fail("sent: a message of %d bytes on chunk stream %d, type %#x, instead of %d bytes on %d, type %#x", len(m.Data), m.CSID, m.Type, len(w.Data), w.CSID, w.Type)
		}
	}
	for k := range want {
		if want[k] != nil {
			gomc.Fail("a message of %d bytes was not sent on chunk stream %d", n, want[k][0].CSID)
		}
	}
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

func init() {
	gomc.Register(gomc.Scenario{Prop: "C17", Name: "c17-long", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: len(longSizes)}, Body: longSession,
		Bound: fmt.Sprintf("messages of %d lengths from 127 to 131073 bytes received by and sent from all parts of a session, 4 chunk sizes, whole or interleaved", len(longSizes))})
}
