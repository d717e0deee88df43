// Package main is the harness for the packages below cmd.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/WatchBeam/amf0"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

func main() { gomc.Main() }

func pick[T any](site string, l ...T) T { return l[gomc.Choose(len(l), site)] }

func mk(csid uint32, typ byte, sid uint32, p []byte) *chunk.Chunk {
	return chunk.New(&chunk.Header{
		BasicHeader:   chunk.BasicHeader{StreamId: csid},
		MessageHeader: chunk.MessageHeader{TypeId: typ, StreamId: sid, Length: uint32(len(p))},
	}, append([]byte(nil), p...))
}

// wire is a message as it is written.
type wire struct {
	csid uint32
	typ  byte
	sid  uint32
	data []byte
}

func (w wire) String() string {
	return fmt.Sprintf("%d/%#x/%d %d bytes % x", w.csid, w.typ, w.sid, len(w.data), w.data[:min(len(w.data), 400)])
}

func (w wire) eq(v wire) bool {
	return w.csid == v.csid && w.typ == v.typ && w.sid == v.sid && bytes.Equal(w.data, v.data)
}

// toWire takes a message as it is now.
func toWire(c *chunk.Chunk) wire {
	if c == nil || c.Header == nil {
		gomc.Fail("no message")
	}
	h := c.Header
	if int(h.MessageHeader.Length) != len(c.Data) {
		gomc.Fail("a message announces %d bytes and has %d: % x", h.MessageHeader.Length, len(c.Data), c.Data)
	}
	if h.BasicHeader.FormatId != h.MessageHeader.FormatId {
		gomc.Fail("a message with header types %d and %d", h.BasicHeader.FormatId, h.MessageHeader.FormatId)
	}
	return wire{h.BasicHeader.StreamId, h.MessageHeader.TypeId, h.MessageHeader.StreamId, append([]byte(nil), c.Data...)}
}

// fakeWriter notes what is written; it fails on the messages numbered in fail.
type fakeWriter struct {
	got  []wire
	n    int
	fail map[int]bool
	err  error // of every write
	obj  gomc.Obj
}

func (w *fakeWriter) Write(c *chunk.Chunk) error {
	gomc.PointNoHB(&w.obj, "chunk writer")
	w.n++
	if w.err != nil {
		return w.err
	}
	if w.fail[w.n] {
		return fmt.Errorf("w%d", w.n)
	}
	w.got = append(w.got, toWire(c))
	return nil
}
func (w *fakeWriter) WriteSize() int   { return 128 }
func (w *fakeWriter) SetWriteSize(int) {}

// fakeStream is a chunk.Stream fed by the harness.
type fakeStream struct{ c chan *chunk.Chunk }

func (f *fakeStream) In() <-chan *chunk.Chunk { return f.c }

// seen is what an application observed from one handler.
type seen struct {
	in, errs, texts  []string
	inDone, errsDone bool
	kept             []func() string
	onErr            func(error)
}

// recheck looks again at everything that was taken: it must not have changed.
func (k *seen) recheck() {
	for i, f := range k.kept {
		if s := f(); s != k.in[i] {
			gomc.Fail("what was delivered as %q later became %q", k.in[i], s)
		}
	}
}

// slow makes applications take a result only when nothing else can happen.
var slow bool

func lazily() {
	if slow {
		hlib.Slow("slow application")
	}
}

func (k *seen) fail(e error) {
	if e == nil {
		gomc.Fail("a nil error was reported")
	}
	if k.onErr != nil {
		k.onErr(e)
	}
	s := e.Error()
	k.texts = append(k.texts, s)
	s = s[strings.LastIndexByte(s, ' ')+1:] // what comes before says where it happened
	if n := len(s); n >= 2 && n <= 8 && (s[0] == 'u' || s[0] == 'w') && strings.Trim(s[1:], "0123456789") == "" {
		k.errs = append(k.errs, s)
	} else {
		k.errs = append(k.errs, "bad")
	}
}

func drainAll[T any](in <-chan T, errs <-chan error, show func(T) string, k *seen, split bool) {
	take := func(v T) {
		k.in = append(k.in, show(v))
		k.kept = append(k.kept, func() string { return show(v) })
	}
	if split {
		gomc.GoDaemon("messages", func() {
			for {
				lazily()
				v, ok := <-in
				if !ok {
					break
				}
				take(v)
			}
			k.inDone = true
		})
		gomc.GoDaemon("errors", func() {
			for {
				lazily()
				e, ok := <-errs
				if !ok {
					break
				}
				k.fail(e)
			}
			k.errsDone = true
		})
		return
	}
	gomc.GoDaemon("messages and errors", func() {
		for !k.inDone || !k.errsDone {
			lazily()
			select {
			case v, ok := <-in:
				if !ok {
					in, k.inDone = nil, true
					continue
				}
				take(v)
			case e, ok := <-errs:
				if !ok {
					errs, k.errsDone = nil, true
					continue
				}
				k.fail(e)
			}
		}
	})
}

// inMsg is a message to a handler and what must come of it ("" for an error).
type inMsg struct {
	typ  byte
	p    []byte
	want string
}

// outMsg is something to send and the message it must become; if bad is not 0
// it cannot be encoded.
type outMsg struct {
	send any
	want wire
	bad  int
}

// handler is one of the three handlers behind a uniform face.
type handler struct {
	ends   bool // its channels end with it
	listen func()
	close  func()
	drain  func(k *seen, split bool)
	send   func(v any)
}

func newConn(c chan *chunk.Chunk, w chunk.Writer) *handler {
	return connHandler(conn.NewNetConnection(c, w))
}

func connHandler(n *conn.NetConn) *handler {
	out := n.Out()
	return &handler{
		listen: n.Listen, close: n.Close,
		drain: func(k *seen, split bool) { drainAll(n.In(), n.Errs(), showConn, k, split) },
		send:  func(v any) { out <- v.(conn.Marshallable) },
	}
}

func newStream(c chan *chunk.Chunk, w chunk.Writer) *handler {
	return streamHandler(stream.New(c, w))
}

func streamHandler(n *stream.NetStream) *handler {
	out := n.Status()
	return &handler{
		ends: true, listen: n.Listen, close: n.Close,
		drain: func(k *seen, split bool) { drainAll(n.In(), n.Errs(), showStream, k, split) },
		send:  func(v any) { out <- v.(*stream.Status) },
	}
}

func newData(c chan *chunk.Chunk, w chunk.Writer) *handler {
	return dataHandler(data.NewStream(c, w))
}

func dataHandler(n *data.Stream) *handler {
	out := n.In()
	return &handler{
		ends: true, listen: n.Recv, close: n.Close,
		drain: func(k *seen, split bool) { drainAll(n.Out(), n.Errs(), showData, k, split) },
		send:  func(v any) { out <- v.(data.Data) },
	}
}

var makers = []func(chan *chunk.Chunk, chunk.Writer) *handler{newConn, newStream, newData}

// txt abbreviates what is long.
func txt(s string) string {
	if len(s) <= 400 {
		return s
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("<%d bytes, %x>", len(s), h.Sum64())
}

func avTxt(c byte, p []byte) string {
	if len(p) <= 400 {
		return fmt.Sprintf("%02x % x", c, p)
	}
	return fmt.Sprintf("%02x %s", c, txt(string(p)))
}

func showVal(v amf0.AmfType) string {
	switch x := v.(type) {
	case *amf0.String:
		return fmt.Sprintf("%q", txt(string(*x)))
	case *amf0.Number:
		return fmt.Sprint(float64(*x))
	case *amf0.Bool:
		return fmt.Sprint(bool(*x))
	}
	return fmt.Sprintf("%T", v)
}

var keys = []string{"app", "x", "level", "code"}

func showObj(o *amf0.Object) string {
	if o == nil {
		return "nil"
	}
	var l []string
	for _, k := range keys {
		if v, err := o.Get(k); err == nil {
			l = append(l, k+":"+showVal(v))
		}
	}
	return "{" + strings.Join(l, " ") + "}"
}

func showConn(r conn.Receivable) string {
	switch c := r.(type) {
	case *conn.ConnectCommand:
		return fmt.Sprint("connect ", c.TransactionId, " ", showObj(c.Metadata))
	case *conn.CreateStreamCommand:
		return fmt.Sprint("createStream ", c.TransactionId, " ", showObj(c.Metadata))
	case *conn.ReleaseCommand:
		return fmt.Sprint("releaseStream ", c.TransactionId, " ", txt(c.StreamKey))
	case *conn.FCPublishCommand:
		return fmt.Sprint("FCPublish ", c.TransactionId, " ", txt(c.StreamKey))
	case *conn.GetStreamLength:
		return fmt.Sprint("getStreamLength ", c.StreamId, " ", txt(c.PlayPath))
	}
	gomc.Fail("an unexpected command %T", r)
	return ""
}

func showStream(r stream.Command) string {
	switch c := r.(type) {
	case *stream.CommandPlay:
		return fmt.Sprint("play ", txt(c.PlayPath), " ", c.Live)
	case *stream.CommandPlay2:
		return fmt.Sprint("play2 ", showObj(c.Parameters))
	case *stream.CommandDeleteStream:
		return fmt.Sprint("deleteStream ", c.StreamId)
	case *stream.CommandReceiveAudio:
		return fmt.Sprint("receiveAudio ", c.Successful)
	case *stream.CommandReceiveVideo:
		return fmt.Sprint("receiveVideo ", c.Successful)
	case *stream.CommandPublish:
		return fmt.Sprint("publish ", txt(c.Name), " ", txt(c.Type))
	case *stream.CommandSeek:
		return fmt.Sprint("seek ", c.OffsetMillis)
	case *stream.CommandPause:
		return fmt.Sprint("pause ", c.Paused, " ", c.CutoffMillis)
	}
	gomc.Fail("an unexpected command %T", r)
	return ""
}

func showData(r data.Data) string {
	switch c := r.(type) {
	case *data.Audio:
		return "audio " + avTxt(c.Control(), c.Payload())
	case *data.Video:
		return "video " + avTxt(c.Control(), c.Payload())
	case *data.DataFrame:
		s := "nil"
		if c.Arguments != nil {
			s = showObj(&amf0.Object{Paired: c.Arguments.Paired})
		}
		return fmt.Sprint("frame ", c.Header, " ", txt(c.Type), " ", s)
	}
	gomc.Fail("an unexpected item %T", r)
	return ""
}

var (
	aStr, aNum, aBool, aNull, aObj, aArr, cat = hlib.AStr, hlib.ANum, hlib.ABool, hlib.ANull, hlib.AObj, hlib.AArr, hlib.Cat
)

// connMsgs are messages for the connection handler.
func connMsgs(n float64, s string) []inMsg {
	num := fmt.Sprint(n)
	return []inMsg{
		{0x14, cat(aStr("connect"), aNum(n), aObj("app", aStr(s))), "connect " + num + " {app:" + fmt.Sprintf("%q", s) + "}"},
		{0x14, cat(aStr("createStream"), aNum(n), aObj("x", aNum(n))), "createStream " + num + " {x:" + num + "}"},
		{0x14, cat(aStr("releaseStream"), aNum(n), aNull(), aStr(s)), "releaseStream " + num + " " + s},
		{0x14, cat(aStr("FCPublish"), aNum(n), aNull(), aStr(s)), "FCPublish " + num + " " + s},
		{0x14, cat(aStr("getStreamLength"), aNum(n), aNull(), aStr(s)), "getStreamLength " + num + " " + s},
	}
}

func badConn() []inMsg {
	return []inMsg{
		{0x14, nil, ""},
		{0x14, aNum(1), ""},
		{0x14, cat(aStr("nonsense"), aNum(1), aNull()), ""},
		{0x14, aStr("connect"), ""},
		{0x14, cat(aStr("releaseStream"), aNum(1), aNull()), ""},
		{0x14, cat(aStr("FCPublish"), aStr("1"), aNull(), aStr("k")), ""},
		{0x14, []byte{0x7f, 1, 2}, ""},
		{0x14, []byte{2, 0xff, 0xff, 'x'}, ""},
	}
}

func head(name string) []byte { return cat(aStr(name), aNum(0), aNull()) }

func streamMsgs(n float64, s string, b bool) []inMsg {
	num := fmt.Sprint(n)
	return []inMsg{
		{0x14, cat(head("play"), aStr(s), aNum(n)), "play " + s + " " + num},
		{0x14, cat(head("play2"), aObj("x", aNum(n))), "play2 {x:" + num + "}"},
		{0x14, cat(head("deleteStream"), aNum(n)), "deleteStream " + num},
		{0x14, cat(head("receiveAudio"), aBool(b)), fmt.Sprint("receiveAudio ", b)},
		{0x14, cat(head("receiveVideo"), aBool(b)), fmt.Sprint("receiveVideo ", b)},
		{0x14, cat(head("publish"), aStr(s), aStr("live")), "publish " + s + " live"},
		{0x14, cat(head("seek"), aNum(n)), "seek " + num},
		{0x14, cat(head("pause"), aBool(b), aNum(n)), fmt.Sprint("pause ", b, " ", num)},
	}
}

func badStream() []inMsg {
	return []inMsg{
		{0x14, nil, ""},
		{0x14, aStr("play"), ""},
		{0x14, cat(head("nonsense"), aNum(1)), ""},
		{0x14, head("seek"), ""},
		{0x14, cat(head("seek"), aStr("1")), ""},
		{0x14, cat(aNum(1), aNum(1), aNull(), aNum(1)), ""},
		{0x14, []byte{0x7f}, ""},
		{0x14, cat(head("pause"), aBool(true)), ""},
	}
}

func dataMsgs(n float64, s string, c byte) []inMsg {
	num := fmt.Sprint(n)
	return []inMsg{
		{8, []byte{c, 1, 2}, fmt.Sprintf("audio %02x 01 02", c)},
		{9, []byte{c, 3}, fmt.Sprintf("video %02x 03", c)},
		{8, []byte{c}, fmt.Sprintf("audio %02x ", c)},
		{0x12, cat(aStr("@setDataFrame"), aStr(s), aArr("x", aNum(n))), "frame @setDataFrame " + s + " {x:" + num + "}"},
	}
}

func badData() []inMsg {
	return []inMsg{
		{8, nil, ""},
		{9, nil, ""},
		{0x12, nil, ""},
		{0x12, aStr("@setDataFrame"), ""},
		{0x12, cat(aStr("@setDataFrame"), aNum(1), aArr()), ""},
		{0x14, aStr("x"), ""},
		{0, []byte{1}, ""},
		{0x12, []byte{8, 0xff, 0xff, 0xff, 0xff, 0, 0, 9}, ""},
	}
}

func msgsOf(which int, n float64, s string, b bool, c byte) []inMsg {
	switch which {
	case 0:
		return connMsgs(n, s)
	case 1:
		return streamMsgs(n, s, b)
	}
	return dataMsgs(n, s, c)
}

func badOf(which int) []inMsg { return [][]inMsg{badConn(), badStream(), badData()}[which] }

// --- what can be sent -------------------------------------------------------

func obj(k string, v amf0.AmfType) *amf0.Object {
	o := amf0.NewObject()
	o.Add(k, v)
	return o
}

func createResp(tx, id float64) outMsg {
	return outMsg{send: &conn.CreateStreamResponse{TransactionId: tx, StreamID: id},
		want: wire{3, 0x14, 0, cat(aStr("_result"), aNum(tx), aNull(), aNum(id))}}
}

func connectResp(tx float64, code string) outMsg {
	return outMsg{send: &conn.ConnectResponse{TransactionId: tx, Properties: *obj("level", amf0.NewString("status")), Information: *obj("code", amf0.NewString(code))},
		want: wire{3, 0x14, 0, cat(aStr("_result"), aNum(tx), aObj("level", aStr("status")), aObj("code", aStr(code)))}}
}

func status(code string) outMsg {
	st := stream.NewStatus()
	st.Arguments.Add("level", amf0.NewString("status"))
	st.Arguments.Add("code", amf0.NewString(code))
	return outMsg{send: st, want: wire{5, 0x14, 1, cat(aStr("onStatus"), aNum(0), aNull(), aObj("level", aStr("status"), "code", aStr(code)))}}
}

func frame(typ string, n float64) outMsg {
	a := amf0.NewArray()
	a.Add("x", amf0.NewNumber(n))
	return outMsg{send: &data.DataFrame{Header: "@setDataFrame", Type: typ, Arguments: a},
		want: wire{4, 0x12, 1, cat(aStr("@setDataFrame"), aStr(typ), aArr("x", aNum(n)))}}
}

func audio(sid uint32, p ...byte) outMsg {
	a := new(data.Audio)
	if err := a.Read(mk(4, 8, sid, p)); err != nil {
		gomc.Fail("reading an audio message of %d bytes: %v", len(p), err)
	}
	return outMsg{send: a, want: wire{4, 8, sid, p}}
}

type badMarshal struct{ n int }

func (b *badMarshal) Marshal() ([]byte, error) { return nil, fmt.Errorf("u%d", b.n) }

type badFrame struct{ n int }

func (b *badFrame) Id() byte                       { return 9 }
func (b *badFrame) Read(*chunk.Chunk) error        { return nil }
func (b *badFrame) Marshal() (*chunk.Chunk, error) { return nil, fmt.Errorf("u%d", b.n) }

func badStatus(n int) *stream.Status {
	st := stream.NewStatus()
	st.Arguments.Add("x", amf0.Unencodable(errors.New(fmt.Sprintf("u%d", n))))
	return st
}

// badOuts are the items for a handler that cannot be encoded.
func badOuts(which, n int) []outMsg {
	un := func() amf0.AmfType { return amf0.Unencodable(errors.New(fmt.Sprintf("u%d", n))) }
	switch which {
	case 0:
		p := &conn.ConnectResponse{TransactionId: float64(n), Properties: *obj("level", amf0.NewString("x")), Information: *obj("x", un())}
		q := &conn.ConnectResponse{TransactionId: float64(n), Properties: *obj("x", un()), Information: *obj("level", amf0.NewString("x"))}
		return []outMsg{{send: &badMarshal{n}, bad: n}, {send: p, bad: n}, {send: q, bad: n}}
	case 1:
		return []outMsg{{send: badStatus(n), bad: n}}
	}
	a := amf0.NewArray()
	a.Add("a", amf0.NewNumber(float64(n)))
	a.Add("x", un())
	return []outMsg{{send: &badFrame{n}, bad: n}, {send: &data.DataFrame{Header: "@setDataFrame", Type: "onMetaData", Arguments: a}, bad: n}}
}

func outOf(which int) []outMsg {
	switch which {
	case 0:
		return []outMsg{createResp(1, 2), connectResp(3, "ok"), {send: &badMarshal{1}, bad: 1}}
	case 1:
		return []outMsg{status("a"), status("bb"), {send: badStatus(1), bad: 1}}
	}
	return []outMsg{frame("onMetaData", 1), audio(1, 0xaf, 1, 2), {send: &badFrame{1}, bad: 1}}
}
