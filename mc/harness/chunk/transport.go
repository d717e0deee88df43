package main

import (
	"errors"
	"io"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// --- C04: fragmentation ------------------------------------------------

// sessions are well-formed streams that together use every kind of header.
func session(i int) *hlib.Gen {
	switch i {
	case 0: // every byte of this one may be cut: one header of each type
		g := hlib.NewGen(2)
		g.Whole(0, 3, 5, 0, 8, 1, []byte{1, 2})
		g.Whole(2, 3, 6, 0, 0, 0, []byte{3, 4})
		g.Whole(3, 3, 0, 0, 0, 0, []byte{5, 6})
		return g
	case 1: // type 1, extended timestamp, two-byte ID, several chunks
		g := hlib.NewGen(2)
		g.Whole(0, 64, 0, 0, 8, 1, []byte{1})
		g.Whole(1, 64, 0xffffff, 0x01020304, 9, 1, []byte{1, 2, 3})
		return g
	case 2: // interleaving, three-byte ID, empty message, Set Chunk Size
		g := hlib.NewGen(3)
		g.Start(0, 400, 1, 0, 8, 0x01020304, hlib.Pattern(1, 7))
		g.Whole(0, 5, 2, 0, 9, 2, nil)
		g.Cont(400)
		g.Whole(0, 2, 0, 0, 1, 0, []byte{0, 0, 0, 2})
		g.Finish()
		g.Whole(3, 5, 0, 0, 0, 0, nil)
		return g
	case 3: // extended timestamps repeated, interleaved
		g := hlib.NewGen(2)
		g.Start(0, 3, 0xffffff, 0xfffffff0, 8, 1, hlib.Pattern(1, 5))
		g.Start(0, 70, 0xffffff, 0x01000000, 9, 1, hlib.Pattern(2, 4))
		g.Cont(3)
		g.Finish()
		g.Whole(3, 3, 0, 0xfffffff1, 0, 0, hlib.Pattern(3, 5))
		return g
	default: // ends in the middle of a message
		g := hlib.NewGen(4)
		g.Whole(0, 3, 1, 0, 8, 1, hlib.Pattern(1, 6))
		g.Start(1, 3, 2, 0, 9, 1, hlib.Pattern(2, 9))
		g.Cont(3)
		return g
	}
}

const nSessions = 5

// watch checks at every read that the reader neither asks for bytes beyond the
// chunk it assembles nor holds back a completed message.
func watch(g *hlib.Gen, src *hlib.Src, delivered *int) {
	src.OnRead = func(want int) {
		if want == 0 || src.Pos >= len(g.Out) {
			return
		}
		due := 0
		for _, e := range g.Ends {
			if e <= src.Pos {
				due++
			}
		}
		if *delivered < due {
			gomc.Fail("the reader asks for byte %d of the stream before delivering message %d, which ended before it", src.Pos, due)
		}
		end := len(g.Out)
		for _, c := range g.Cuts {
			if c > src.Pos {
				end = c
				break
			}
		}
		if src.Pos+want > end && end < len(g.Out) {
			gomc.Fail("at byte %d the reader asks for %d bytes although the chunk being assembled ends at %d", src.Pos, want, end)
		}
	}
}

func initial(g int) int { return []int{2, 2, 3, 2, 4}[g] }

func fragments(which int, cuts, zeros int) func() {
	return func() {
		w := which
		if w < 0 {
			w = gomc.Choose(nSessions, "session")
		}
		g := session(w)
		ref := decode(&hlib.Src{Data: g.Out}, initial(w), nil)
		src := &hlib.Src{Data: g.Out}
		src.WithLast = gomc.Choose(2, "end of file with the last bytes") == 1
		c, z := cuts, zeros
		src.Frag = func(want int) (int, bool) {
			opts := 1
			if c != 0 {
				opts = want
			}
			zo := 0
			if z > 0 {
				zo = 1
			}
			k := gomc.Choose(opts+zo, "fragment")
			if k == opts {
				z--
				return 0, true
			}
			if k > 0 && c > 0 {
				c--
			}
			return want - k, false
		}
		var n int
		watch(g, src, &n)
		res := decode(src, initial(w), func(k int) { n = k })
		compareRuns(g, ref, res)
	}
}

func compareRuns(g *hlib.Gen, ref, res *result) {
	expect(g, res, "decoding with fragmented reads")
	if len(ref.errs) != len(res.errs) || ref.errs[0].Error() != res.errs[0].Error() {
		gomc.Fail("the error at the end is %v when fragmented and %v when not", res.errs, ref.errs)
	}
	if ref.size != res.size {
		gomc.Fail("the chunk size at the end is %d when fragmented and %d when not", res.size, ref.size)
	}
}

// uniform fragmentation over all short chunk event sequences
func uniform(depth int) func() {
	return func() {
		g := hlib.NewGen(2)
		for i := 0; i < depth; i++ {
			nextEvent(g, []uint32{3, 320}, []int{0, 1, 3})
		}
		ref := decode(&hlib.Src{Data: g.Out}, 2, nil)
		mode := gomc.Choose(8, "fragmentation")
		src := &hlib.Src{Data: g.Out, WithLast: mode&1 == 1}
		k := 0
		src.Frag = func(want int) (int, bool) {
			k++
			switch mode >> 1 {
			case 0:
				return 1, false
			case 1:
				return 1, k%2 == 1
			case 2:
				return (want + 1) / 2, k%3 == 0
			}
			return want, k%2 == 1
		}
		var n int
		watch(g, src, &n)
		res := decode(src, 2, func(k int) { n = k })
		compareRuns(g, ref, res)
	}
}

// --- C05: Set Chunk Size -----------------------------------------------

func chunkSizes(depth int, deep bool) func() {
	return func() {
		g := hlib.NewGen(2)
		vals := []uint32{1, 3, 128}
		lens := []int{1, 6}
		if deep {
			vals = []uint32{1, 3, 4, 0x7fffffff}
			lens = []int{0, 3, 6}
		}
		for i := 0; i < depth; i++ {
			var opts []func()
			for _, c := range []uint32{3, 70} {
				c := c
				if g.Busy(c) {
					opts = append(opts, func() { g.Cont(c) })
					continue
				}
				for _, n := range lens {
					n := n
					opts = append(opts, func() { g.StartN(0, c, n) })
				}
			}
			if g.Busy(2) {
				opts = append(opts, func() { g.Cont(2) })
			} else {
				for _, v := range vals {
					v := v
					opts = append(opts, func() { g.Start(0, 2, 0, 0, 1, 0, hlib.U32(v)) })
				}
				// too short, too long, and announced with shorter headers
				opts = append(opts, func() { g.Start(0, 2, 0, 0, 1, 0, []byte{0, 0, 5}) })
				opts = append(opts, func() { g.Start(0, 2, 0, 0, 1, 0, nil) })
				opts = append(opts, func() { g.Start(0, 2, 0, 0, 1, 0, []byte{0, 0, 0, 4, 9}) })
				if g.HasHeader(2) {
					v := hlib.Pattern(i, g.LastLen(2))
					if len(v) >= 4 {
						copy(v, []byte{0, 0, 0, 2})
					}
					opts = append(opts, func() { g.Start(3, 2, 0, 0, 0, 0, v) })
					opts = append(opts, func() { g.Start(2, 2, 7, 0, 0, 0, v) })
					opts = append(opts, func() { g.Start(1, 2, 7, 0, 1, 0, hlib.U32(2)) })
					opts = append(opts, func() { g.Start(1, 2, 7, 0, 4, 0, hlib.U32(2)) })
				}
			}
			pick("next chunk", opts...)()
		}
		res := decode(&hlib.Src{Data: g.Out}, 2, nil)
		expect(g, res, "decoding with changes of the chunk size")
		if res.size != g.Size {
			gomc.Fail("the read size is %d after the sizes announced; it should be %d", res.size, g.Size)
		}
	}
}

// every payload length of the Set Chunk Size message, every fragmentation of
// it into chunks, with a message in progress on another stream
func scsShapes() {
	size := 1 + gomc.Choose(9, "chunk size")
	n := gomc.Choose(10, "payload length")
	v := pick("value", 1, 2, 3, 4, 127, 128, 129, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff)
	csid := pick("chunk stream", uint32(2), 3, 64, 400)
	h := pick("message stream and timestamp", [3]uint32{0, 0, 0}, [3]uint32{1, 0, 0}, [3]uint32{0x01000000, 77, 0}, [3]uint32{0, 0xffffff, 0x01000002})
	g := hlib.NewGen(size)
	g.StartN(0, 5, 21)
	pay := append(hlib.U32(uint32(v)), 0xee, 0xee, 0xee, 0xee, 0xee)[:n]
	g.Start(0, csid, h[1], h[2], 1, h[0], pay)
	for g.Busy(csid) {
		if g.Busy(5) {
			g.Cont(5)
		}
		g.Cont(csid)
	}
	g.Finish()
	g.WholeN(0, csid, 9)
	g.WholeN(0, 5, v%1000+2)
	res := decode(&hlib.Src{Data: g.Out}, size, nil)
	expect(g, res, "decoding with a change of the chunk size")
	if res.size != g.Size {
		gomc.Fail("the read size is %d after Set Chunk Size with payload % x; it should be %d", res.size, pay, g.Size)
	}
}

func defaultSize() {
	if chunk.DefaultReadSize != 128 {
		gomc.Fail("the default chunk size is %d", chunk.DefaultReadSize)
	}
	gomc.Count("evaluations", 1)
}

// --- C06: transport failures --------------------------------------------

func failAt(g *hlib.Gen, size, cut, kind int) {
	src := &hlib.Src{Data: g.Out[:cut]}
	switch kind {
	case 1:
		src.WithLast = true
	case 2:
		src.Err = hlib.ErrTransport
	case 3:
		src.Err, src.WithLast = hlib.ErrTransport, true
	case 4:
		src.Err = io.ErrUnexpectedEOF
	case 5: // an error that only one read sees
		src.Once, src.Err = hlib.ErrOnce, hlib.ErrTransport
	}
	if lazy && gomc.Choose(2, "a slow transport") == 1 {
		src.OnRead = func(int) { hlib.Slow("slow transport") }
	}
	res := decode(src, size, nil)
	var want []hlib.Msg
	for i, e := range g.Ends {
		if e <= cut {
			want = append(want, g.Want[i])
		}
	}
	if d := hlib.SeqDiff(want, res.msgs); d != "" {
		gomc.Fail("transport failing after %d of %d bytes: %s", cut, len(g.Out), d)
	}
	e := res.errs[0]
	switch kind {
	case 5:
		if !errors.Is(e, hlib.ErrOnce) {
			gomc.Fail("the transport failed with %q and %q was reported first", hlib.ErrOnce, e)
		}
	case 2, 3:
		if !errors.Is(e, hlib.ErrTransport) {
			gomc.Fail("the transport failed with %q and %q was reported", hlib.ErrTransport, e)
		}
	default:
		if !errors.Is(e, io.EOF) && !errors.Is(e, io.ErrUnexpectedEOF) {
			gomc.Fail("the transport ended and %q was reported", e)
		}
	}
	gomc.Count("evaluations", 1)
}

func failures(depth int, csids []uint32, lens []int) func() {
	return func() {
		g := hlib.NewGen(2)
		for i := 0; i < depth; i++ {
			nextEvent(g, csids, lens)
		}
		cut := gomc.Choose(len(g.Out)+1, "bytes before the failure")
		kind := gomc.Choose(6, "kind of failure")
		if cut == 0 && (kind == 1 || kind == 3) {
			return
		}
		failAt(g, 2, cut, kind)
	}
}

func failSessions() {
	w := gomc.Choose(nSessions, "session")
	g := session(w)
	cut := gomc.Choose(len(g.Out)+1, "bytes before the failure")
	kind := gomc.Choose(6, "kind of failure")
	if cut == 0 && (kind == 1 || kind == 3) {
		return
	}
	failAt(g, initial(w), cut, kind)
}

// --- C07: hostile bytes ---------------------------------------------------

// hostile feeds arbitrary bytes; nothing may panic and every turn must consume.
func hostile(b []byte, size int) {
	src := &hlib.Src{Data: b}
	decode(src, size, nil)
	if src.Pos < len(b) && src.EndReads == 0 {
		gomc.Fail("an error was reported although the transport had more bytes to give: %d of %d read, % x", src.Pos, len(b), clip(b))
	}
	if src.Reads > 4*len(b)+20 {
		gomc.Fail("%d reads for %d bytes: reading without consuming, input % x", src.Reads, len(b), clip(b))
	}
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

func clip(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

var hostileAlphabet = []byte{0, 1, 2, 3, 0x3f, 0x40, 0x43, 0x80, 0x83, 0xc0, 0xc3, 0xff}

func hostileShort(n int) func() {
	return func() {
		first := gomc.Choose(256, "first byte")
		b := make([]byte, n)
		b[0] = byte(first)
		for i := 1; i < n; i++ {
			b[i] = pick("byte", hostileAlphabet...)
		}
		hostile(b, 128)
	}
}

func hostileSession() (*hlib.Gen, int) {
	g := hlib.NewGen(5)
	g.Start(0, 3, 1, 0, 0x14, 1, hlib.Pattern(1, 12))
	g.Whole(0, 2, 0, 0, 1, 0, []byte{0, 0, 0, 4})
	g.Start(0, 70, 0xffffff, 0x01020304, 8, 1, hlib.Pattern(2, 6))
	g.Cont(3)
	g.Finish()
	g.Whole(1, 3, 9, 0, 9, 0, hlib.Pattern(3, 3))
	g.Whole(2, 3, 9, 0, 0, 0, hlib.Pattern(4, 3))
	g.Whole(3, 70, 0, 9, 0, 0, hlib.Pattern(5, 6))
	g.Whole(0, 400, 9, 0, 9, 0, nil)
	return g, 5
}

func hostileSubst1() {
	g, size := hostileSession()
	i := gomc.Choose(len(g.Out), "position")
	v := gomc.Choose(259, "value")
	b := append([]byte(nil), g.Out...)
	switch {
	case v < 256:
		b[i] = byte(v)
	case v == 256: // lost
		b = append(b[:i:i], g.Out[i+1:]...)
	case v == 257: // doubled
		b = append(b[:i+1:i+1], g.Out[i:]...)
	case v == 258: // the rest cut off
		b = b[:i]
	}
	hostile(b, size)
}

func hostileSubst2(vals []byte) func() {
	return func() {
		g, size := hostileSession()
		i := gomc.Choose(len(g.Out), "first position")
		if i == len(g.Out)-1 {
			return
		}
		j := i + 1 + gomc.Choose(len(g.Out)-i-1, "second position")
		b := append([]byte(nil), g.Out...)
		b[i], b[j] = pick("value", vals...), pick("value", vals...)
		hostile(b, size)
	}
}

// hostile values in the fields that matter, all combinations
func hostileFields() {
	f := byte(gomc.Choose(4, "header type"))
	csid := pick("chunk stream", []byte{2}, []byte{0, 0}, []byte{0x3f, 0xff, 0xff}, []byte{0x3f, 0, 0}, []byte{1})
	typ := pick("type", byte(0), 1, 2, 3, 4, 5, 6, 0x14, 0xff)
	n := pick("length", uint32(0), 1, 3, 4, 5, 128, 129, 0xffff, 0xffffff)
	have := pick("payload", 0, 1, 3, 4, 5, 128, 129, 140)
	fill := pick("filling", byte(0), 1, 0xff)
	m := append([]byte(nil), csid...)
	m[0] |= f << 6
	if f <= 2 {
		ts := uint32(5)
		if fill == 0xff {
			ts = 0xffffff
		}
		m = append(m, byte(ts>>16), byte(ts>>8), byte(ts))
	}
	if f <= 1 {
		m = append(m, byte(n>>16), byte(n>>8), byte(n), typ)
	}
	if f == 0 {
		m = append(m, fill, fill, fill, fill)
	}
	for k := 0; k < have; k++ {
		m = append(m, fill)
	}
	// and the same once more, now with preceding headers
	hostile(append(append([]byte(nil), m...), m...), 128)
}

func init() {
	R := gomc.Register
	F := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	R(gomc.Scenario{Prop: "C04", Name: "c04-all-cuts", Tier: "quick",
		Bound: "every way to cut a 26-byte stream with type 0, 2 and 3 headers into reads, with and without end-of-file in the last read",
		Opts:  gomc.Opts{Fixed: true, Shards: 2}, Body: fragments(0, -1, 0)})
	R(gomc.Scenario{Prop: "C04", Name: "c04-cuts", Tier: "quick",
		Bound: "5 sessions (all header types and ID forms, extended timestamps, interleaving, Set Chunk Size, truncation): every choice of at most 2 short reads and 1 empty read at any reads",
		Opts:  F(5), Body: fragments(-1, 2, 1)})
	R(gomc.Scenario{Prop: "C04", Name: "c04-empty-reads", Tier: "quick",
		Bound: "5 sessions: every choice of at most 3 empty reads at any reads",
		Opts:  F(5), Body: fragments(-1, 0, 3)})
	R(gomc.Scenario{Prop: "C04", Name: "c04-cuts-deep", Tier: "thorough",
		Bound: "5 sessions: every choice of at most 3 short reads and 1 empty read",
		Opts:  F(5), Body: fragments(-1, 3, 1)})
	R(gomc.Scenario{Prop: "C04", Name: "c04-uniform", Tier: "quick",
		Bound: "all sequences of 3 chunk events on chunk streams 3 and 320 under 8 uniform fragmentations (single bytes, halves, empty reads in between, end-of-file with the last bytes)",
		Opts:  F(6), Body: uniform(3)})
	R(gomc.Scenario{Prop: "C04", Name: "c04-uniform-deep", Tier: "quick",
		Bound: "the same with 5 chunk events", Opts: F(6), Body: uniform(5)})
	R(gomc.Scenario{Prop: "C05", Name: "c05-sequences", Tier: "quick",
		Bound: "all sequences of 5 chunk events on two message streams and the control stream (Set Chunk Size 1, 3, 128, too short, too long, with header types 0-3, split into chunks), chunk size 2",
		Opts:  F(10), Body: chunkSizes(5, false)})
	R(gomc.Scenario{Prop: "C05", Name: "c05-sequences-deep", Tier: "quick",
		Bound: "all sequences of 6 chunk events, values 1, 3, 4, 0x7fffffff, lengths 0, 3, 6",
		Opts:  F(13), Body: chunkSizes(6, true)})
	R(gomc.Scenario{Prop: "C05", Name: "c05-shapes", Tier: "quick",
		Bound: "chunk sizes 1-9 x Set Chunk Size payloads of 0-9 bytes x 14 values x 4 chunk streams x 4 message streams and timestamps (one extended), chunk by chunk with a message in progress",
		Opts:  F(9), Body: scsShapes})
	R(gomc.Scenario{Prop: "C05", Name: "c05-default", Tier: "quick", Bound: "the default", Opts: F(1), Body: defaultSize})
	R(gomc.Scenario{Prop: "C06", Name: "c06-sequences", Tier: "quick",
		Bound: "all sequences of 3 chunk events on chunk streams 3 and 320 (lengths 0, 1, 3) x failure after every byte x 6 kinds of failure",
		Opts:  F(6), Body: failures(3, []uint32{3, 320}, []int{0, 1, 3})})
	R(gomc.Scenario{Prop: "C06", Name: "c06-sequences-deep", Tier: "thorough",
		Bound: "the same with 4 chunk events, lengths 0, 1, 2, 3, 5",
		Opts:  F(10), Body: failures(4, []uint32{3, 320}, []int{0, 1, 2, 3, 5})})
	R(gomc.Scenario{Prop: "C06", Name: "c06-sessions", Tier: "quick",
		Bound: "5 sessions x failure after every byte x 6 kinds of failure",
		Opts:  F(5), Body: failSessions})
	R(gomc.Scenario{Prop: "C07", Name: "c07-reader-short", Tier: "quick",
		Bound: "all inputs of 4 bytes with any first byte and the others from a 12-byte alphabet",
		Opts:  F(16), Body: hostileShort(4)})
	R(gomc.Scenario{Prop: "C07", Name: "c07-reader-short-deep", Tier: "thorough",
		Bound: "all inputs of 6 bytes with any first byte and the others from a 12-byte alphabet",
		Opts:  F(64), Body: hostileShort(6)})
	R(gomc.Scenario{Prop: "C07", Name: "c07-reader-subst1", Tier: "quick",
		Bound: "a session using every feature, every byte replaced by every value, lost, doubled, or the rest cut off",
		Opts:  F(16), Body: hostileSubst1})
	R(gomc.Scenario{Prop: "C07", Name: "c07-reader-subst2", Tier: "quick",
		Bound: "the same session, every pair of bytes replaced by 0x00, 0x01, 0xff",
		Opts:  F(16), Body: hostileSubst2([]byte{0, 1, 0xff})})
	R(gomc.Scenario{Prop: "C07", Name: "c07-reader-subst2-deep", Tier: "thorough",
		Bound: "the same session, every pair of bytes replaced by any of 12 values",
		Opts:  F(16), Body: hostileSubst2(hostileAlphabet)})
	R(gomc.Scenario{Prop: "C07", Name: "c07-reader-fields", Tier: "quick",
		Bound: "4 header types x 5 ID forms x 9 types x 9 lengths x 8 amounts of payload x 3 fillings, sent twice",
		Opts:  F(4), Body: hostileFields})
}
