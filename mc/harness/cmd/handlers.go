package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// C19 and parts of C07 and C10: the three handlers one by one.

type setup struct {
	which     int
	in        []inMsg
	out, out2 func() []outMsg
	fail      []int
	split     bool
	close     bool // close at any moment
	end       bool // the source of messages ends
	slow      bool // the application takes a result only when nothing else can happen
	reuse     bool // what is received again is the same object
	renew     bool // the application sends one object of each type, filled again once it has been written
}

func list(f func() []outMsg) []outMsg {
	if f == nil {
		return nil
	}
	return f()
}

func chunkTo(which int, m inMsg) *chunk.Chunk {
	if which == 0 {
		return mk(3, m.typ, 0, m.p)
	}
	return mk(4, m.typ, 1, m.p)
}

func (st setup) run() {
	slow = st.slow
	defer func() { slow = false }()
	src := make(chan *chunk.Chunk)
	w := &fakeWriter{fail: map[int]bool{}}
	for _, n := range st.fail {
		w.fail[n] = true
	}
	h := makers[st.which](src, w)
	k := &seen{}
	out, out2 := list(st.out), list(st.out2)
	returned, closed := false, false
	if st.close {
		gomc.Go("harness/listen", func() { h.listen(); returned = true })
	} else {
		gomc.GoDaemon("listen", func() { h.listen(); returned = true })
	}
	h.drain(k, st.split)
	fed, sent, sent2 := 0, 0, 0
	feed := func() {
		var last *chunk.Chunk
		for i, m := range st.in {
			if !st.reuse || i == 0 || m.typ != st.in[i-1].typ || string(m.p) != string(st.in[i-1].p) {
				last = chunkTo(st.which, m)
			}
			src <- last
			fed++
		}
		if st.end {
			close(src)
		}
	}
	send := func(l []outMsg, n *int) {
		own := map[reflect.Type]any{}
		for _, m := range l {
			if v, before := reflect.ValueOf(m.send), w.n; st.renew && m.bad == 0 {
				if o := own[v.Type()]; o != nil {
					reflect.ValueOf(o).Elem().Set(v.Elem())
				} else {
					own[v.Type()] = m.send
				}
				h.send(own[v.Type()])
				gomc.WaitFor(&w.obj, "the message to be written", func() bool { return w.n > before })
			} else {
				h.send(m.send)
			}
			*n++
		}
	}
	if st.close {
		// what is not taken any more after the close is the connection's business
		gomc.GoDaemon("feed", feed)
	} else {
		gomc.Go("harness/feed", feed)
	}
	fin := make(chan struct{}, 2)
	gomc.Go("harness/send", func() { send(out, &sent); fin <- struct{}{} })
	gomc.Go("harness/send too", func() { send(out2, &sent2); fin <- struct{}{} })
	if st.close {
		gomc.Go("harness/close", func() {
			// the application does not send while it closes
			<-fin
			<-fin
			gomc.Step("decide to close")
			h.close()
			closed = true
		})
	}
	left := gomc.Quiesce()
	if st.close {
		if len(left) > 0 || !closed || !returned {
			gomc.Fail("closing never completes, or leaves something behind: %s (Close returned: %v, the loop returned: %v)", strings.Join(left, "; "), closed, returned)
		}
		if h.ends && (!k.inDone || !k.errsDone) {
			gomc.Fail("after the close: messages ended: %v, errors ended: %v", k.inDone, k.errsDone)
		}
	} else {
		if returned {
			gomc.Fail("the handler ended without having been closed")
		}
		if fed != len(st.in) || sent != len(out) || sent2 != len(out2) {
			gomc.Fail("stuck: took %d of %d messages, %d of %d and %d of %d to send", fed, len(st.in), sent, len(out), sent2, len(out2))
		}
	}
	var msgs, inErrs []string
	for _, m := range st.in[:fed] {
		if m.want == "" {
			inErrs = append(inErrs, "bad")
		} else {
			msgs = append(msgs, m.want)
		}
	}
	k.recheck()
	if fmt.Sprint(k.in) != fmt.Sprint(msgs) {
		gomc.Fail("results %q instead of %q (errors %q)", k.in, msgs, k.errs)
	}
	if d := outcome(out, out2, w, k.errs, inErrs); d != "" {
		gomc.Fail("%s (written %v, errors %v)", d, w.got, k.errs)
	}
	gomc.Outcome(fmt.Sprint(k.in, k.errs, w.got))
}

// repeats: equal or identical messages one after another
func repeats(which int) func() {
	return func() {
		st := setup{which: which, reuse: gomc.Choose(2, "the same object") == 1}
		in := append(msgsOf(which, 1, "a", true, 0xaf)[:3], badOf(which)[gomc.Choose(2, "malformed")])
		if gomc.Choose(2, "what") == 0 {
			for i := 0; i < 4; i++ {
				st.in = append(st.in, pick("message", in...))
			}
		} else {
			var l [4]int
			for i := range l {
				l[i] = gomc.Choose(3, "item")
			}
			st.out = func() []outMsg {
				made := outOf(which)
				var out []outMsg
				for i, k := range l {
					if !st.reuse && i > 0 {
						made = outOf(which)
					}
					out = append(out, made[k%len(made)])
				}
				return out
			}
		}
		st.run()
	}
}

// renewed: one object per type, sent again with other contents
func renewed(which int) func() {
	return func() {
		st := setup{which: which, renew: true, slow: gomc.Choose(2, "slow application") == 1}
		if n := gomc.Choose(4, "a failing write"); n > 0 {
			st.fail = []int{n}
		}
		var l [5]int
		for i := range l {
			l[i] = gomc.Choose(4, "item")
		}
		st.out = func() []outMsg {
			var out []outMsg
			for _, k := range l {
				var all []outMsg
				switch which {
				case 0:
					all = []outMsg{createResp(1, 2), createResp(1, 3), connectResp(3, "ok"), connectResp(3, "no")}
				case 1:
					all = []outMsg{status("a"), status("bb"), status("c"), badOuts(1, 1)[0]}
				case 2:
					all = []outMsg{frame("onMetaData", 1), frame("onMetaData", 2), audio(1, 0xaf, 1, 2), audio(1, 0xaf, 1, 3)}
				}
				out = append(out, all[k])
			}
			return out
		}
		st.run()
		gomc.Count("evaluations", 1)
	}
}

// outcome checks the sending side: the writer saw the encodable messages in
// some order that keeps each sender's, failed where it was told to, and the
// errors are exactly those of the encoder, of the writer and of the receiving
// side, each kind in its order.
func outcome(out, out2 []outMsg, w *fakeWriter, errs, inErrs []string) string {
	seqs := [2][]outMsg{out, out2}
	add := func(l []string, s string) []string {
		if len(out2) > 0 { // another order may be tried
			l = l[:len(l):len(l)]
		}
		return append(l, s)
	}
	var try func(a, b, n int, werrs []string) string
	try = func(a, b, n int, werrs []string) string {
		last := "nothing"
		if a == len(out) && b == len(out2) {
			if len(w.got) != n-numFail(w, n) {
				return fmt.Sprintf("%d messages written", len(w.got))
			}
			return hlib.Merge(errs, inErrs, werrs)
		}
		for side := 0; side < 2; side++ {
			i := a
			if side == 1 {
				i = b
			}
			if i >= len(seqs[side]) {
				continue
			}
			na, nb := a+1-side, b+side
			v := seqs[side][i]
			if v.bad > 0 {
				last = try(na, nb, n, add(werrs, fmt.Sprintf("u%d", v.bad)))
			} else {
				m := n + 1
				if w.fail[m] {
					last = try(na, nb, m, add(werrs, fmt.Sprintf("w%d", m)))
				} else {
					idx := m - numFail(w, m) - 1
					if idx >= len(w.got) || !v.want.eq(w.got[idx]) {
						last = fmt.Sprintf("%v was not written in its turn", v.want)
						continue
					}
					last = try(na, nb, m, werrs)
				}
			}
			if last == "" {
				return ""
			}
		}
		return last
	}
	return try(0, 0, 0, nil)
}

func numFail(w *fakeWriter, n int) int {
	if len(w.fail) == 0 {
		return 0
	}
	k := 0
	for i := 1; i <= n; i++ {
		if w.fail[i] {
			k++
		}
	}
	return k
}

var (
	nums = []float64{0, 1, -1, 2, 0.5, 255, 1 << 32, 1 << 53, 1e300, math.Inf(1), -2.5}
	strs = []string{"", "a", "live", "play", "k\x00\xff", strings.Repeat("x", 300), "connect"}
)

// values: every command with every value of its fields, before and after
// another one.
func values(which int) func() {
	return func() {
		n := pick("number", nums...)
		s := pick("string", strs...)
		b := gomc.Choose(2, "bool") == 1
		all := msgsOf(which, n, s, b, byte(17*gomc.Choose(16, "control")))
		m := all[gomc.Choose(len(all), "command")]
		other := msgsOf(which, 7, "o", true, 0x12)
		o := other[gomc.Choose(len(other), "other")]
		setup{which: which, in: []inMsg{o, m, o}}.run()
		gomc.Count("evaluations", 1)
	}
}

// sequences of commands, good and bad
func sequences(which, n int) func() {
	return func() {
		var l []inMsg
		for i := 0; i < n; i++ {
			all := append(msgsOf(which, float64(i+1), fmt.Sprint("s", i), i%2 == 0, byte(i)), badOf(which)...)
			l = append(l, all[gomc.Choose(len(all), "command")])
		}
		l = append(l, msgsOf(which, 9, "end", true, 9)[0])
		setup{which: which, in: l, out: func() []outMsg { return outOf(which)[:1] }}.run()
		gomc.Count("evaluations", 1)
	}
}

// sent: every kind of outgoing item with every value
func sent(which int) func() {
	return func() {
		n, s := pick("number", nums...), pick("string", strs...)
		n2, s2 := pick("number", 3.0, -7), pick("string", "b", "")
		var mkAll func(n float64, s string) []outMsg
		switch which {
		case 0:
			mkAll = func(n float64, s string) []outMsg { return []outMsg{createResp(n, n+1), connectResp(n, s)} }
		case 1:
			mkAll = func(n float64, s string) []outMsg { return []outMsg{status(s)} }
		default:
			mkAll = func(n float64, s string) []outMsg {
				return []outMsg{frame(s, n), audio(uint32(int64(n)%1000), append([]byte{byte(int64(n))}, s...)...)}
			}
		}
		nk := len(mkAll(1, "x"))
		a, b := gomc.Choose(nk, "first"), gomc.Choose(nk, "second")
		bads := badOuts(which, 1)
		bad := bads[gomc.Choose(len(bads), "bad")]
		setup{which: which, out: func() []outMsg {
			return []outMsg{mkAll(n, s)[a], bad, mkAll(n2, s2)[b], mkAll(n, s)[b]}
		}, fail: []int{1 + gomc.Choose(4, "failing write")}}.run()
		gomc.Count("evaluations", 1)
	}
}

// alone gives the text of the error that a bad message causes ("" if it is not
// always the same).
func alone(which int, m inMsg) string {
	var texts []string
	for i := 0; i < 2; i++ {
		src := make(chan *chunk.Chunk)
		h := makers[which](src, &fakeWriter{})
		gomc.GoDaemon("listen", h.listen)
		k := &seen{}
		h.drain(k, true)
		src <- chunkTo(which, m)
		gomc.Quiesce()
		if len(k.texts) != 1 {
			gomc.Fail("a bad message (type %#x, % x) gives %d errors", m.typ, m.p, len(k.texts))
		}
		texts = append(texts, k.texts[0])
	}
	if texts[0] != texts[1] {
		return ""
	}
	return texts[0]
}

// errorOrder: the errors of several bad messages come in their order, as far
// as they can be told apart.
func errorOrder(which int, all bool) func() {
	return func() {
		bad := badOf(which)
		a, b := 2, 4
		if all {
			a, b = gomc.Choose(len(bad), "first"), gomc.Choose(len(bad), "second")
		}
		ta, tb := alone(which, bad[a]), alone(which, bad[b])
		if ta == "" || tb == "" || ta == tb {
			return
		}
		src := make(chan *chunk.Chunk)
		h := makers[which](src, &fakeWriter{})
		gomc.GoDaemon("listen", h.listen)
		k := &seen{}
		h.drain(k, true)
		good := msgsOf(which, 1, "a", true, 9)[0]
		for _, m := range []inMsg{bad[a], bad[b], good, bad[b], bad[a]} {
			src <- chunkTo(which, m)
		}
		gomc.Quiesce()
		if want := []string{ta, tb, tb, ta}; fmt.Sprint(k.texts) != fmt.Sprint(want) {
			gomc.Fail("the errors of bad messages are %q instead of %q", k.texts, want)
		}
		gomc.Count("evaluations", 1)
	}
}

// hostile payloads: everything up to a few bytes, and mutations of valid ones
func hostileShort(which, n int) func() {
	alpha := []byte{0, 1, 2, 3, 5, 6, 8, 9, 0x0a, 'x', 0x7f, 0xff}
	types := []byte{0x14, 8, 9, 0x12}
	return func() {
		first := gomc.Choose(len(alpha)+1, "first byte")
		var p []byte
		if first < len(alpha) {
			p = append(p, alpha[first])
			for len(p) < n {
				c := gomc.Choose(len(alpha)+1, "byte")
				if c == len(alpha) {
					break
				}
				p = append(p, alpha[c])
			}
		}
		typ := byte(0x14)
		if which == 2 {
			typ = types[gomc.Choose(len(types), "type")]
		}
		hostileRun(which, typ, p)
	}
}

// every truncation of a valid message, and every byte of it replaced
func hostileMut(which int) func() {
	return func() {
		all := msgsOf(which, 3, "ab", true, 0xaf)
		m := all[gomc.Choose(len(all), "command")]
		i := gomc.Choose(len(m.p)+1, "position")
		p := append([]byte(nil), m.p[:i]...)
		if i < len(m.p) {
			switch c := gomc.Choose(9, "mutation"); c {
			case 0: // cut
			default:
				p = append(p, []byte{0, 1, 2, 3, 5, 8, 0x7f, 0xff}[c-1])
				p = append(p, m.p[i+1:]...)
			}
		}
		hostileRun(which, m.typ, p)
	}
}

// hostileRun feeds a payload of unknown value between two valid messages: one
// result or one error comes of it and the others are unaffected.
func hostileRun(which int, typ byte, p []byte) {
	src := make(chan *chunk.Chunk)
	w := &fakeWriter{fail: map[int]bool{}}
	h := makers[which](src, w)
	k := &seen{}
	gomc.GoDaemon("listen", h.listen)
	h.drain(k, false)
	a := msgsOf(which, 5, "first", true, 1)[0]
	b := msgsOf(which, 6, "last", true, 2)
	fed := 0
	gomc.Go("harness/feed", func() {
		for _, m := range []inMsg{a, {typ: typ, p: p}, b[0], b[1]} {
			src <- chunkTo(which, m)
			fed++
		}
	})
	gomc.Quiesce()
	if fed != 4 {
		gomc.Fail("stuck after %d messages: type %#x, % x", fed, typ, p)
	}
	k.recheck()
	n := len(k.in)
	if n+len(k.errs) != 4 || n < 3 || k.in[0] != a.want || k.in[n-2] != b[0].want || k.in[n-1] != b[1].want {
		gomc.Fail("results %q, errors %q for a message of type %#x, % x, between valid ones", k.in, k.errs, typ, p)
	}
	if d := plausible(which, typ, p, k.in[1:n-2]); d != "" {
		gomc.Fail("%s: result %q of a message of type %#x, % x", d, k.in[1:n-2], typ, p)
	}
	gomc.Count("evaluations", 1)
}

// plausible compares a result (if there is one) with what the message names.
func plausible(which int, typ byte, p []byte, got []string) string {
	want, word := "", ""
	switch {
	case which < 2:
		if len(p) >= 3 && p[0] == 2 && len(p) >= 3+int(p[1])<<8+int(p[2]) {
			word = string(p[3 : 3+int(p[1])<<8+int(p[2])])
		}
	case typ == 8 && len(p) > 0:
		want = "audio " + avTxt(p[0], p[1:])
	case typ == 9 && len(p) > 0:
		want = "video " + avTxt(p[0], p[1:])
	case typ == 0x12:
		word = "frame"
	}
	switch {
	case want != "" && (len(got) != 1 || got[0] != want):
		return "not " + want
	case want == "" && len(got) == 1 && !strings.HasPrefix(got[0], word+" "):
		return fmt.Sprintf("not the command %q", word)
	}
	return ""
}

var names = []string{"conn", "stream", "data"}

func init() {
	R := gomc.Register
	fixed := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	mem := gomc.Opts{Mem: true}
	for i := 0; i < 3; i++ {
		w := i
		good, bad := msgsOf(w, 1, "a", true, 0x2a), badOf(w)
		g := func(n int) inMsg { return good[n] }
		reg := func(tier, name, bound string, st setup) {
			st.which = w
			R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-" + name, Tier: tier, Bound: bound + "; all schedules", Opts: mem, Body: st.run})
		}
		out2 := func() []outMsg { return outOf(w)[:2] }
		outb := func() []outMsg { return outOf(w) }
		one := func() []outMsg { return outOf(w)[1:2] }
		lastBad := func() []outMsg { return outOf(w)[2:] }
		reg("quick", "in", "4 messages in, the second and the fourth bad", setup{in: []inMsg{g(0), bad[0], g(1), bad[2]}})
		reg("quick", "in-split", "the same, results and errors taken by different goroutines", setup{in: []inMsg{g(0), bad[0], g(1), bad[2]}, split: true})
		reg("quick", "out", "3 items sent by one goroutine (one cannot be encoded), 1 by another, write 1 fails", setup{out: outb, out2: one, fail: []int{1}})
		reg("quick", "both", "3 messages in, 2 and 1 items out, one of each fails", setup{in: []inMsg{g(0), bad[1], g(2)}, out: out2, out2: one, fail: []int{2}})
		reg("quick", "both-split", "2 messages in, 2 items out, drained by two goroutines", setup{in: []inMsg{bad[3], g(1)}, out: out2, fail: []int{1}, split: true})
		reg("quick", "end", "2 messages in, then their source ends; 2 items out", setup{in: []inMsg{g(0), bad[0]}, out: out2, fail: []int{2}, end: true})
		reg("quick", "close", "3 messages in, 1 item out, closed at any moment", setup{in: []inMsg{g(0), bad[0], g(1)}, out: one, close: true})
		reg("quick", "close-split", "2 messages in, 2 items out, a write fails, closed at any moment", setup{in: []inMsg{bad[1], g(1)}, out: one, out2: one, fail: []int{1}, close: true, split: true})
		reg("quick", "slow", "3 messages in, one bad, 2 items out, a write fails, a slow application", setup{in: []inMsg{g(0), bad[0], g(1)}, out: out2, fail: []int{2}, slow: true})
		reg("quick", "slow-bad", "2 messages in, both bad, 3 items out, one of which cannot be encoded, a write fails, a slow application", setup{in: []inMsg{bad[2], bad[1]}, out: outb, fail: []int{1}, slow: true})
		reg("quick", "close-slow", "3 messages in, 1 item out, closed at any moment, a slow application", setup{in: []inMsg{g(0), g(1), bad[0]}, out: one, close: true, slow: true})
		reg("quick", "close-slow-split", "2 messages in, 2 items out, a write fails, closed at any moment, drained by two slow goroutines", setup{in: []inMsg{g(1), bad[1]}, out: one, out2: one, fail: []int{1}, close: true, slow: true, split: true})
		reg("quick", "close-last", "1 message in, 1 item out, writing it fails, closed at any moment", setup{in: []inMsg{g(1)}, out: one, fail: []int{1}, close: true})
		reg("quick", "close-last-slow", "1 bad message in, 1 item out, writing it fails, closed at any moment, a slow application", setup{in: []inMsg{bad[0]}, out: one, fail: []int{1}, close: true, slow: true})
		reg("quick", "close-last-bad", "1 bad message in, 1 item out that cannot be encoded, closed at any moment, drained by two goroutines", setup{in: []inMsg{bad[1]}, out: lastBad, close: true, split: true})
		reg("quick", "close-last-bad-slow", "1 message in, 1 item out that cannot be encoded, closed at any moment, a slow application", setup{in: []inMsg{g(0)}, out: lastBad, close: true, slow: true})
		reg("quick", "deep", "5 messages in, 5 items out by two goroutines", setup{in: []inMsg{g(0), bad[0], g(1), bad[2], g(2)}, out: outb, out2: out2, fail: []int{2}, split: true})
		reg("quick", "close-deep", "4 messages in, 3 items out by two goroutines, closed at any moment", setup{in: []inMsg{g(0), bad[0], g(1), bad[2]}, out: out2, out2: one, fail: []int{3}, split: true, close: true})

		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-values", Tier: "quick", Opts: fixed(11), Body: values(w),
			Bound: "every command with 11 numbers x 7 strings x 2 booleans x 16 control bytes, between two of every command"})
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-seq", Tier: "quick", Opts: fixed(13), Body: sequences(w, 2),
			Bound: "all sequences of 2 good or bad messages, then a good one, and an item out"})
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-seq3", Tier: "quick", Opts: fixed(13), Body: sequences(w, 4),
			Bound: "all sequences of 4 good or bad messages, then a good one, and an item out"})
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-sent", Tier: "quick", Opts: fixed(11), Body: sent(w),
			Bound: "every kind of item with 11 numbers x 7 strings, one that cannot be encoded, one failing write, each followed by others"})

		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-errors", Tier: "quick", Opts: fixed(8), Body: errorOrder(w, true),
			Bound: "any two bad messages of different kinds, in both orders, around a good one"})
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-errors-schedules", Tier: "quick", Opts: mem, Body: errorOrder(w, false),
			Bound: "two bad messages in both orders around a good one; all schedules"})

		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-renewed", Tier: "quick", Opts: fixed(2), Body: renewed(w),
			Bound: "all sequences of 5 of 4 items to send, one object per type, filled again once it has been written; none or one of the first writes fails, a slow application or not"})
		R(gomc.Scenario{Prop: "C19", Name: "c19-" + names[w] + "-repeats", Tier: "quick", Opts: fixed(2), Body: repeats(w),
			Bound: "all sequences of 4 of 4 messages received or of 3 items sent, repeated ones being equal or the very same object"})
		R(gomc.Scenario{Prop: "C07", Name: "c07-" + names[w] + "-short", Tier: "quick", Opts: fixed(13), Body: hostileShort(w, 3),
			Bound: "a payload of at most 3 bytes out of 12 values, between valid messages"})
		R(gomc.Scenario{Prop: "C07", Name: "c07-" + names[w] + "-short4", Tier: "quick", Opts: fixed(13), Body: hostileShort(w, 5),
			Bound: "a payload of at most 5 bytes out of 12 values, between valid messages"})
		R(gomc.Scenario{Prop: "C07", Name: "c07-" + names[w] + "-mut", Tier: "quick", Opts: fixed(8), Body: hostileMut(w),
			Bound: "every command cut at every position, or with any byte replaced by one of 8 values, between valid messages"})
	}
}
