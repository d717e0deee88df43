// Package main is the harness for the client, the server and package rtmp.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/WatchBeam/amf0"

	"github.com/WatchBeam/rtmp/client"
	"github.com/WatchBeam/rtmp/cmd/conn"
	"github.com/WatchBeam/rtmp/cmd/data"
	"github.com/WatchBeam/rtmp/cmd/stream"
	"github.com/WatchBeam/rtmp/control"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

func main() { gomc.Main() }

func pick[T any](site string, l ...T) T { return l[gomc.Choose(len(l), site)] }

var aStr, aNum, aBool, aNull, aObj, aArr, cat = hlib.AStr, hlib.ANum, hlib.ABool, hlib.ANull, hlib.AObj, hlib.AArr, hlib.Cat

const (
	toControl = iota
	toConn
	toStream
	toData
	toNone
)

// msg is what the peer sends after the handshake and what must come of it.
type msg struct {
	csid uint32
	typ  byte
	sid  uint32
	p    []byte
	to   int
	want string
}

// kind makes the n-th message of a kind.
func kind(k, n int) msg {
	f := float64(n)
	s := strings.Repeat("k", 100+40*(n%3))
	switch k {
	case 0: // window acknowledgement size
		return msg{2, 5, 0, hlib.U32(uint32(256 + n)), toControl, fmt.Sprint("window ", 256+n)}
	case 1:
		return msg{3, 0x14, 0, cat(aStr("FCPublish"), aNum(f), aNull(), aStr(s)), toConn, fmt.Sprint("FCPublish ", n, " ", s)}
	case 2:
		return msg{4, 0x14, 1, cat(aStr("seek"), aNum(0), aNull(), aNum(f)), toStream, fmt.Sprint("seek ", n)}
	case 3:
		return msg{4, 8, 1, hlib.Pattern(n, 200), toData, fmt.Sprintf("audio % x", hlib.Pattern(n, 200))}
	case 4: // set chunk size: for the reader only
		return msg{2, 1, 0, []byte{0, 0, 0, byte(64 + n%150)}, toNone, ""}
	case 5:
		return msg{8, 0x14, 1, cat(aStr("deleteStream"), aNum(0), aNull(), aNum(f)), toStream, fmt.Sprint("deleteStream ", n)}
	case 6:
		return msg{8, 0x14, 0, cat(aStr("releaseStream"), aNum(f), aNull(), aStr("q")), toConn, fmt.Sprint("releaseStream ", n, " q")}
	case 7: // a control message of unknown type
		return msg{2, 0x33, 0, []byte{byte(n)}, toControl, "error"}
	case 8: // a malformed command
		return msg{3, 0x14, 0, []byte{0x7f, byte(n)}, toConn, "error"}
	case 9: // nobody's
		return msg{5, 0x14, 1, []byte{byte(n)}, toNone, ""}
	case 10:
		return msg{4, 9, 1, []byte{byte(n)}, toData, fmt.Sprintf("video %02x", byte(n))}
	case 11:
		return msg{2, 3, 0, hlib.U32(uint32(n)), toControl, fmt.Sprint("acknowledgement ", n)}
	}
	// on a chunk stream nobody asks for
	return msg{6, 9, 1, []byte{byte(n)}, toNone, ""}
}

const nKinds = 12

func showControl(c control.Control) string {
	switch v := c.(type) {
	case *control.WindowAckSize:
		return fmt.Sprint("window ", v.WindowAckSize)
	case *control.Acknowledgement:
		return fmt.Sprint("acknowledgement ", v.SequenceNumber)
	}
	return fmt.Sprintf("%T", c)
}

func showConn(r conn.Receivable) string {
	switch c := r.(type) {
	case *conn.ReleaseCommand:
		return fmt.Sprint("releaseStream ", c.TransactionId, " ", c.StreamKey)
	case *conn.FCPublishCommand:
		return fmt.Sprint("FCPublish ", c.TransactionId, " ", c.StreamKey)
	}
	return fmt.Sprintf("%T", r)
}

func showStream(r stream.Command) string {
	if c, ok := r.(*stream.CommandSeek); ok {
		return fmt.Sprint("seek ", c.OffsetMillis)
	}
	if c, ok := r.(*stream.CommandDeleteStream); ok {
		return fmt.Sprint("deleteStream ", c.StreamId)
	}
	return fmt.Sprintf("%T", r)
}

func showData(r data.Data) string {
	c, err := r.Marshal()
	if err != nil {
		return err.Error()
	}
	switch r.(type) {
	case *data.Audio:
		return fmt.Sprintf("audio % x", c.Data)
	case *data.Video:
		return fmt.Sprintf("video % x", c.Data)
	}
	return fmt.Sprintf("%T", r)
}

// take notes what comes out of one part of a session, errors among the rest.
func take[T any](in <-chan T, errs <-chan error, show func(T) string, to *[]string, kept *[]func() string) {
	gomc.GoDaemon("application", func() {
		for in != nil || errs != nil {
			if slow {
				hlib.Slow("slow application")
			}
			select {
			case v, ok := <-in:
				if !ok {
					in = nil
					continue
				}
				*to = append(*to, show(v))
				*kept = append(*kept, func() string { return show(v) })
			case e, ok := <-errs:
				if !ok {
					errs = nil
					continue
				}
				if e == nil {
					gomc.Fail("a nil error was reported")
				}
				*to = append(*to, "error")
				*kept = append(*kept, func() string { return "error" })
			}
		}
	})
}

// slow makes applications take a result only when nothing else can happen.
var slow bool

// session is a client with an application behind it.
type session struct {
	p    *hlib.Peer
	c    *client.Client
	got  [4][]string
	kept [4][]func() string
	want [4][]string
	err  error
	done bool
	g    *hlib.Gen
}

type duplex struct {
	io.Reader
	io.Writer
}

// slowReads makes time pass before every read of a connection.
var slowReads bool

func newSession(seed int) *session {
	s := &session{p: hlib.NewPeer(seed), g: hlib.NewGen(128)}
	if slowReads {
		s.p.Frag = func(want int) (int, bool) { hlib.Slow("slow connection"); return want, false }
	}
	return s
}

// peerSends appends messages to what the peer sends after the handshake; mix
// interleaves the chunks of messages on different chunk streams.
func (s *session) peerSends(mix bool, msgs ...msg) {
	open, isOpen := []uint32(nil), map[uint32]bool{}
	finish := func(csid uint32) {
		for s.g.Busy(csid) {
			s.g.Cont(csid)
		}
	}
	for _, m := range msgs {
		finish(m.csid)
		s.g.Start(0, m.csid, 0, 0, m.typ, m.sid, m.p)
		if !isOpen[m.csid] {
			isOpen[m.csid], open = true, append(open, m.csid)
		}
		if !mix {
			finish(m.csid)
		}
		for _, c := range open {
			if s.g.Busy(c) {
				s.g.Cont(c)
			}
		}
	}
	s.g.Finish()
	s.p.Tail = s.g.Out
	// in the order in which they are completed
	for i := range s.want {
		s.want[i] = nil
	}
	used, first := make([]bool, len(msgs)), 0
	for _, w := range s.g.Want {
		for first < len(msgs) && used[first] {
			first++
		}
		for i := first; i < len(msgs); i++ {
			m := msgs[i]
			if !used[i] && m.csid == w.CSID && m.typ == w.Type && m.sid == w.SID && bytes.Equal(m.p, w.Data) {
				used[i] = true
				if m.to != toNone {
					s.want[m.to] = append(s.want[m.to], m.want)
				}
				break
			}
		}
	}
}

// app takes what the session gives.
func (s *session) app() {
	s.c = client.New(duplex{s.p, s.p})
	cs, net := s.c.Controls(), s.c.Net()
	take(cs.In(), cs.Errs(), showControl, &s.got[toControl], &s.kept[toControl])
	take(net.NetConn().In(), net.NetConn().Errs(), showConn, &s.got[toConn], &s.kept[toConn])
	take(net.NetStream().In(), net.NetStream().Errs(), showStream, &s.got[toStream], &s.kept[toStream])
	take(net.DataStream().Out(), net.DataStream().Errs(), showData, &s.got[toData], &s.kept[toData])
}

func (s *session) serve() {
	gomc.GoDaemon("controls", s.c.Controls().Recv)
	gomc.GoDaemon("commands", func() { s.c.Net().Dispatch(true) })
}

func (s *session) handshake() {
	s.err = s.c.Handshake()
	s.done = true
}

func (s *session) verify(what string) {
	if !s.done || s.err != nil {
		gomc.Fail("%s: the handshake returned %v (%v)", what, s.done, s.err)
	}
	if d := s.p.CheckOut(); d != "" && len(s.p.Out) <= hlib.HandshakeLen {
		gomc.Fail("%s: %s", what, d)
	}
	for i := range s.got {
		for j, f := range s.kept[i] {
			if n := f(); n != s.got[i][j] {
				gomc.Fail("%s: part %d of the session gave %s, which later became %s", what, i+1, brief(s.got[i][j:j+1]), brief([]string{n}))
			}
		}
		if fmt.Sprint(items(s.got[i])) != fmt.Sprint(items(s.want[i])) {
			gomc.Fail("%s: part %d of the session (control, connection, stream, data) gave %s instead of %s", what, i+1, brief(s.got[i]), brief(s.want[i]))
		}
	}
}

// items puts results from chunk stream 8 and errors behind the others: the
// order is kept per chunk stream, results and errors come on two channels.
func items(l []string) (r []string) {
	n := 0
	var late []string
	for _, s := range l {
		switch {
		case s == "error":
			n++
		case strings.HasPrefix(s, "releaseStream "), strings.HasPrefix(s, "deleteStream "):
			late = append(late, s)
		default:
			r = append(r, s)
		}
	}
	return append(append(r, late...), fmt.Sprint(n, " errors"))
}

func brief(l []string) string {
	o := make([]string, len(l))
	for i, s := range l {
		if len(s) > 40 {
			s = fmt.Sprintf("%s...(%d)", s[:40], len(s))
		}
		o[i] = s
	}
	return fmt.Sprint(o)
}

// seqRun: sequences of message kinds behind a handshake.
func seqRun(n int) func() {
	return func() {
		s := newSession(gomc.Choose(2, "seed"))
		s.p.Quiet = true
		var l []msg
		for i := 0; i < n; i++ {
			l = append(l, kind(gomc.Choose(nKinds, "kind"), i+1))
		}
		mix := gomc.Choose(2, "chunks interleaved") == 1
		early := gomc.Choose(2, "serving before the handshake") == 1
		s.p.Hold = gomc.Choose(2, "connection stays open") == 1
		s.peerSends(mix, l...)
		s.app()
		if early {
			s.serve()
		}
		s.handshake()
		if !early {
			s.serve()
		}
		gomc.Quiesce()
		s.verify(fmt.Sprint(l))
		gomc.Count("evaluations", 1)
	}
}

// split: the bytes around the end of the handshake arrive in any two pieces,
// the rest in pieces of one size.
func split() {
	cut := hlib.HandshakeLen - 6 + gomc.Choose(30, "cut")
	size := pick("pieces", 1, 2, 7, 128, 5000)
	zero := gomc.Choose(2, "empty read") == 1
	s := newSession(1)
	s.p.Quiet = true
	s.p.Hold = true
	s.p.Frag = func(n int) (int, bool) {
		if s.p.Pos == cut && zero {
			zero = false
			return 0, true
		}
		if s.p.Pos < cut {
			return min(n, cut-s.p.Pos), false
		}
		return min(n, size), false
	}
	s.peerSends(true, kind(0, 1), kind(1, 2), kind(3, 3), kind(4, 4), kind(2, 5), kind(3, 6), kind(11, 7))
	s.app()
	s.serve()
	s.handshake()
	gomc.Quiesce()
	s.verify(fmt.Sprint("cut at ", cut))
	gomc.Count("evaluations", 1)
}

// cutOff: the connection ends after any byte that follows the handshake.
func cutOff() {
	s := newSession(1)
	s.p.Quiet = true
	s.peerSends(gomc.Choose(2, "chunks interleaved") == 1, kind(3, 1), kind(0, 2), kind(4, 3), kind(1, 4), kind(10, 5))
	end := gomc.Choose(len(s.g.Out)+1, "bytes that arrive")
	s.p.End = hlib.HandshakeLen + end
	s.p.WithLast = gomc.Choose(2, "error with the last bytes") == 1 && end > 0
	if gomc.Choose(2, "failure") == 1 {
		s.p.Err = hlib.ErrTransport
	}
	want := [4][]string{}
	for i, w := range s.g.Want {
		if s.g.Ends[i] <= end {
			switch w.CSID {
			case 2:
				want[toControl] = s.want[toControl][:len(want[toControl])+1]
			case 3:
				want[toConn] = s.want[toConn][:len(want[toConn])+1]
			case 4:
				want[toData] = s.want[toData][:len(want[toData])+1]
			}
		}
	}
	s.want = want
	s.app()
	s.serve()
	s.handshake()
	gomc.Quiesce()
	s.verify(fmt.Sprint(end, " bytes arrive"))
	gomc.Count("evaluations", 1)
}

// refused: the handshake fails; the error comes back and nothing else happens.
func refused() {
	s := newSession(1)
	s.p.Quiet = true
	what := ""
	wantErr := error(nil)
	switch gomc.Choose(6, "failure") {
	case 4:
		errs := hlib.AllErrs()
		wantErr = errs[gomc.Choose(len(errs), "error")]
		s.p.End, s.p.Err = pick("bytes that arrive", 0, 1, 1000, 1537, 1541, 3000, 3072), wantErr
		s.p.WithLast = s.p.End > 0 && gomc.Choose(2, "error with the last byte") == 1
		what = fmt.Sprintf("only %d bytes arrive, then %q (%T)", s.p.End, wantErr, wantErr)
	case 5:
		errs := hlib.AllErrs()
		wantErr = errs[gomc.Choose(len(errs), "error")]
		s.p.MaxOut, s.p.WErr = pick("bytes that can be written", 0, 1, 1000, 1537, 1541, 3000, 3072), wantErr
		what = fmt.Sprintf("only %d bytes can be written, then %q (%T)", s.p.MaxOut, wantErr, wantErr)
	case 0:
		s.p.Version = byte(gomc.Choose(255, "version"))
		if s.p.Version >= 3 {
			s.p.Version++
		}
		what = fmt.Sprint("version ", s.p.Version)
	case 1:
		k := 8 + gomc.Choose(hlib.PacketLen-8, "wrong byte")
		s.p.C2 = func(s1 []byte) []byte {
			b := append([]byte(nil), s1...)
			b[k] ^= 0x10
			return b
		}
		what = fmt.Sprint("echo wrong in byte ", k)
	case 2:
		s.p.End = pick("bytes that arrive", 0, 1, 2, 5, 9, 100, 1536, 1537, 1538, 1541, 1545, 3000, 3072)
		wantErr = io.EOF
		if gomc.Choose(2, "kind") == 1 {
			s.p.Err = hlib.ErrTransport
			wantErr = hlib.ErrTransport
		}
		what = fmt.Sprint("only ", s.p.End, " bytes arrive")
	case 3:
		s.p.MaxOut = pick("bytes that can be written", 0, 1, 2, 5, 9, 1536, 1537, 1538, 2000, 3072)
		wantErr = hlib.ErrTransport
		what = fmt.Sprint("only ", s.p.MaxOut, " bytes can be written")
	}
	s.peerSends(false, kind(0, 1), kind(1, 2), kind(3, 3))
	s.app()
	s.serve()
	s.handshake()
	reads, out := s.p.Reads, len(s.p.Out)
	gomc.Quiesce()
	if s.err == nil {
		gomc.Fail("%s: the handshake succeeds", what)
	}
	if wantErr != nil && !errors.Is(s.err, wantErr) && !strings.Contains(s.err.Error(), wantErr.Error()) && !(hlib.IsEOF(wantErr) && errors.Is(s.err, io.ErrUnexpectedEOF)) {
		gomc.Fail("%s: the handshake reports %v", what, s.err)
	}
	if s.p.Reads != reads || len(s.p.Out) != out || s.p.After != "" {
		gomc.Fail("%s: after the handshake has failed something is read or written", what)
	}
	if s.p.Pos > hlib.HandshakeLen {
		gomc.Fail("%s: %d bytes read", what, s.p.Pos)
	}
	s.want = [4][]string{}
	for i := range s.got {
		if len(s.got[i]) > 0 {
			gomc.Fail("%s: messages were read: %s", what, brief(s.got[i]))
		}
	}
	gomc.Count("evaluations", 1)
}

// stray: a message on a chunk stream that no part of a client takes.
func stray() {
	csid := pick("chunk stream", uint32(6), 7, 9, 10, 63, 64, 319, 320, 65599)
	s := newSession(1)
	s.p.Quiet, s.p.Hold = true, true
	m := kind(99, 2)
	m.csid = csid
	s.peerSends(false, kind(0, 1), kind(1, 2), m, kind(11, 3), kind(3, 4))
	s.app()
	s.serve()
	s.handshake()
	gomc.Quiesce()
	w := s.want
	if len(s.got[toControl]) == 1 && len(s.got[toData]) == 0 {
		gomc.Known("K-STRAY", "after a message on a chunk stream a client does not take (6, 7, 9 and up) nothing more is delivered")
		s.want[toControl], s.want[toData] = w[toControl][:1], nil
	}
	s.verify(fmt.Sprint("chunk stream ", csid))
	gomc.Count("evaluations", 1)
}

// sched: some messages, under all schedules.
func sched(mix, early bool, kinds ...int) func() {
	return func() {
		s := newSession(1)
		s.p.Quiet, s.p.Hold = true, true
		var l []msg
		for i, k := range kinds {
			l = append(l, kind(k, i+1))
		}
		s.peerSends(mix, l...)
		s.app()
		if early {
			s.serve()
		}
		s.handshake()
		if !early {
			s.serve()
		}
		gomc.Quiesce()
		s.verify(fmt.Sprint(kinds))
	}
}

// history: a long session.
func history() {
	slow = gomc.Choose(2, "slow application") == 1
	defer func() { slow = false }()
	mix := gomc.Choose(2, "chunks interleaved") == 1
	early := gomc.Choose(2, "serving before the handshake") == 1
	step := pick("order", 1, 5, 7)
	s := newSession(1)
	s.p.Quiet, s.p.Hold = true, true
	var l []msg
	for i := 0; i < 150; i++ {
		l = append(l, kind((i*step+i/13)%nKinds, i+1))
	}
	s.peerSends(mix, l...)
	s.app()
	if early {
		s.serve()
	}
	s.handshake()
	if !early {
		s.serve()
	}
	gomc.Quiesce()
	s.verify("a long session")
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// historyMany: more messages than a 16-bit counter counts, of all kinds or of
// one, and as many sent.
func historyMany() {
	const n = 65536 + 700
	one := gomc.Choose(nKinds+1, "kinds")
	s := newSession(1)
	s.p.Quiet, s.p.Hold = true, true
	var l []msg
	for i := 0; i < n; i++ {
		if one > 0 {
			l = append(l, kind(one-1, i+1))
		} else {
			l = append(l, kind((i+i/13)%nKinds, i+1))
		}
	}
	s.peerSends(false, l...)
	s.app()
	s.serve()
	s.handshake()
	gomc.Quiesce()
	s.verify("a very long session")
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

// onSlow runs a body with slow connections.
func onSlow(f func()) func() {
	return func() {
		slowReads = true
		defer func() { slowReads = false }()
		f()
	}
}

// lazily runs a body with slow applications.
func lazily(f func()) func() {
	return func() {
		slow = true
		defer func() { slow = false }()
		f()
	}
}

// --- sending ----------------------------------------------------------------

type sent struct {
	send func(c *client.Client)
	want hlib.Msg
}

func nobj(k, v string) *amf0.Object {
	o := amf0.NewObject()
	o.Add(k, amf0.NewString(v))
	return o
}

func sends() [4]func(n int) sent {
	return [4]func(n int) sent{
		func(n int) sent {
			return sent{func(c *client.Client) { c.Controls().Out() <- &control.WindowAckSize{WindowAckSize: uint32(n)} },
				hlib.Msg{CSID: 2, Type: 5, Data: []byte{0, 0, 0, byte(n)}}}
		},
		func(n int) sent {
			return sent{func(c *client.Client) {
				c.Net().NetConn().Out() <- &conn.CreateStreamResponse{TransactionId: float64(n), StreamID: 7}
			}, hlib.Msg{CSID: 3, Type: 0x14, Data: cat(aStr("_result"), aNum(float64(n)), aNull(), aNum(7))}}
		},
		func(n int) sent {
			return sent{func(c *client.Client) {
				st := stream.NewStatus()
				st.Arguments.Add("code", amf0.NewString(fmt.Sprint(n)))
				c.Net().NetStream().Status() <- st
			}, hlib.Msg{CSID: 5, Type: 0x14, SID: 1, Data: cat(aStr("onStatus"), aNum(0), aNull(), aObj("code", aStr(fmt.Sprint(n))))}}
		},
		func(n int) sent {
			big := strings.Repeat("v", 5000)
			return sent{func(c *client.Client) {
				a := amf0.NewArray()
				a.Add("x", amf0.NewNumber(float64(n)))
				c.Net().DataStream().In() <- &data.DataFrame{Header: "@setDataFrame", Type: big, Arguments: a}
			}, hlib.Msg{CSID: 4, Type: 0x12, SID: 1, Data: cat(aStr("@setDataFrame"), aStr(big), aArr("x", aNum(float64(n))))}}
		},
	}
}

// writing: the parts of a session named in parts each send n messages at once.
func writing(n int, parts ...int) func() {
	return func() {
		s := newSession(1)
		s.p.Quiet, s.p.Hold = true, true
		s.app()
		s.serve()
		s.handshake()
		s.p.Quiet = false
		var want [4][]hlib.Msg
		mk := sends()
		for _, k := range parts {
			var l []sent
			for i := 0; i < n; i++ {
				e := mk[k](i + 1)
				l = append(l, e)
				want[k] = append(want[k], e.want)
			}
			gomc.Go("harness/sender", func() {
				for _, e := range l {
					e.send(s.c)
				}
			})
		}
		gomc.Quiesce()
		s.verify("sending")
		d := hlib.Decode(s.p.Out[hlib.HandshakeLen:], 4096, true)
		if d.Err != nil || d.Partial || d.Rest != 0 {
			gomc.Fail("what was sent is not a chunk stream: %v, %d bytes left, partial %v", d.Err, d.Rest, d.Partial)
		}
		var order []string
		for _, m := range d.Msgs {
			k := map[uint32]int{2: 0, 3: 1, 5: 2, 4: 3}[m.CSID]
			if len(want[k]) == 0 {
				gomc.Fail("a message too many on chunk stream %d", m.CSID)
			}
			w := want[k][0]
			want[k] = want[k][1:]
			if m.Type != w.Type || m.SID != w.SID || !bytes.Equal(m.Data, w.Data) || m.CSID != w.CSID {
				gomc.Fail("sent: %v instead of %v", m, w)
			}
			order = append(order, fmt.Sprint(k))
		}
		for k := range want {
			if len(want[k]) > 0 {
				gomc.Fail("%v was not sent", want[k][0])
			}
		}
		gomc.Outcome(strings.Join(order, ""))
	}
}

// --- independence -----------------------------------------------------------

func twoSessions(bad bool) func() {
	return func() {
		var ss [2]*session
		for i := range ss {
			s := newSession(i)
			ss[i] = s
			s.p.Quiet, s.p.Hold = true, true
			s.peerSends(false, kind(3*i, 1+i))
			if i == 1 && bad {
				s.p.C2 = func(s1 []byte) []byte { return make([]byte, len(s1)) }
				s.want = [4][]string{}
			}
			s.app()
			gomc.Go("harness/session", func() {
				s.handshake()
				if s.err == nil {
					s.serve()
				}
			})
		}
		gomc.Quiesce()
		for i, s := range ss {
			if i == 1 && bad {
				if s.err == nil {
					gomc.Fail("the second handshake succeeds")
				}
				s.err = nil
			}
			s.verify(fmt.Sprint("session ", i+1))
		}
		if bytes.Equal(ss[0].p.S1()[8:], ss[1].p.S1()[8:]) {
			gomc.Fail("both handshakes use the same challenge")
		}
	}
}

func init() {
	R := gomc.Register
	fixed := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	R(gomc.Scenario{Prop: "C17", Name: "c17-seq", Tier: "quick", Opts: fixed(2), Body: seqRun(2),
		Bound: "all sequences of 2 messages of 12 kinds behind a handshake, whole or chunks interleaved, served before or after it, the connection staying open or ending"})
	R(gomc.Scenario{Prop: "C17", Name: "c17-seq4", Tier: "thorough", Opts: fixed(2), Body: seqRun(4),
		Bound: "all sequences of 4 messages of 12 kinds behind a handshake, whole or chunks interleaved, served before or after it, the connection staying open or ending"})
	R(gomc.Scenario{Prop: "C17", Name: "c17-split", Tier: "quick", Opts: fixed(8), Body: split,
		Bound: "7 messages that arrive with the end of the handshake, cut at 30 places around it, 5 sizes of reads, with and without empty reads"})
	R(gomc.Scenario{Prop: "C17", Name: "c17-cut-off", Tier: "quick", Opts: fixed(2), Body: cutOff,
		Bound: "the connection ends or fails after every byte behind the handshake, the error alone or with the last bytes"})
	R(gomc.Scenario{Prop: "C17", Name: "c17-refused", Tier: "quick", Opts: fixed(6), Body: refused,
		Bound: "all wrong versions, a wrong echo in every byte, end or failure at 13 places, write failure at 10 places, 34 kinds of errors reading or writing at 7 places"})
	R(gomc.Scenario{Prop: "C17", Name: "c17-stray", Tier: "quick", Opts: fixed(3), Body: stray,
		Bound: "a message on one of 9 chunk streams a client does not take, between others"})
	S := func(tier, name, bound string, dev int, f func()) {
		o := gomc.Opts{Mem: true, MapOrder: true, Dev: dev}
		b := bound + "; all schedules"
		if dev > 0 {
			b += fmt.Sprintf(" with at most %d deviations from the oldest-first one", dev)
		}
		R(gomc.Scenario{Prop: "C17", Name: "c17-" + name, Tier: tier, Opts: o, Body: f, Bound: b})
	}
	S("quick", "sched-one", "a session with one control message", 0, sched(false, false, 0))
	S("quick", "sched-two", "a session with a control and a data message, chunks interleaved", 0, sched(true, true, 3, 0))
	S("quick", "sched-four", "a session with four messages for its four parts", 2, sched(true, true, 1, 3, 0, 2))
	S("quick", "sched-slow-conn", "a session with three messages for its parts on a slow connection", 3, onSlow(sched(false, true, 3, 1, 2)))
	S("quick", "sched-slow-both", "a session with two messages for its parts on a slow connection and a slow application", 3, onSlow(lazily(sched(true, true, 0, 3))))
	S("quick", "sched-slow", "a session with three messages for its parts and a slow application", 3, lazily(sched(false, true, 3, 1, 2)))
	S("quick", "sched-slow-mix", "a session with four messages, chunks interleaved, and a slow application", 2, lazily(sched(true, false, 0, 3, 10, 2)))
	R(gomc.Scenario{Prop: "C17", Name: "c17-history", Tier: "quick", Opts: fixed(2), Body: history,
		Bound: "150 messages of 12 kinds in 3 orders behind a handshake, whole or interleaved, a fast or slow application, everything compared again at the end"})
	R(gomc.Scenario{Prop: "C17", Name: "c17-many", Tier: "quick", Opts: gomc.Opts{Fixed: true, One: true, Shards: nKinds + 1}, Body: historyMany,
		Bound: "66236 messages behind a handshake, of all kinds or of each kind alone"})
	S("quick", "write-two", "a control message and a status sent at once", 0, writing(1, 0, 2))
	S("quick", "write-four", "all four parts of a session send a message at once", 0, writing(1, 0, 1, 2, 3))
	S("quick", "write-twice", "connection and data side send two messages each", 0, writing(2, 1, 3))
	S("quick", "sched-deep", "a session with five messages", 4, sched(true, false, 1, 3, 0, 2, 0))
	S("quick", "write-deep", "all four parts of a session send two messages at once", 4, writing(2, 0, 1, 2, 3))
	O := gomc.Opts{Mem: true, RaceFails: true}
	for _, b := range []bool{false, true} {
		n, w := "c16-sessions", ""
		if b {
			n, w = "c16-sessions-bad", ", one of them refused,"
		}
		R(gomc.Scenario{Prop: "C16", Name: n, Tier: "quick", Opts: O, Body: twoSessions(b),
			Bound: "two sessions at once" + w + " a message each; all schedules, races are violations"})
	}
}
