// Package main is the harness for package handshake.
package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/handshake"

	"verif/mc/gomc"
	"verif/mc/hlib"
	"verif/mc/vcrand"
)

func main() { gomc.Main() }

func pick[T any](site string, l ...T) T { return l[gomc.Choose(len(l), site)] }

type rw struct {
	io.Reader
	io.Writer
}

func shake(p *hlib.Peer, init handshake.Sequence) error {
	return handshake.With(&handshake.Param{Conn: rw{p, p}, Initial: init}).Handshake()
}

// expect runs a handshake and checks it: ok tells whether it must succeed, in
// and out how many bytes must have been read and written then.
func expect(p *hlib.Peer, init handshake.Sequence, ok bool, in, out int) {
	p.Quiet = true
	p.Tail = []byte{2, 0, 0, 0, 0, 0, 4, 5}
	err := shake(p, init)
	what := fmt.Sprintf("version %d, bytes up to %d arrive, writes up to %d succeed", p.Version, p.End, p.MaxOut)
	switch {
	case p.Order != "":
		gomc.Fail("%s (%s)", p.Order, what)
	case ok && err != nil:
		gomc.Fail("a correct handshake fails: %v (%s)", err, what)
	case !ok && err == nil:
		gomc.Fail("a handshake that must fail succeeds (%s)", what)
	case p.After != "":
		gomc.Fail("after the handshake has failed something is %s (%s)", p.After, what)
	case p.Pos != in:
		gomc.Fail("%d bytes read instead of %d (%s; error %v)", p.Pos, in, what, err)
	case len(p.Out) != out:
		gomc.Fail("%d bytes sent instead of %d (%s; error %v)", len(p.Out), out, what, err)
	}
	v := p.Version
	if len(p.Out) > 0 {
		if d := p.CheckOut(); d != "" {
			gomc.Fail("%s (%s)", d, what)
		}
	}
	p.Version = v
	gomc.Count("evaluations", 1)
	gomc.Count("beat", 1)
}

const (
	pl   = hlib.PacketLen
	full = hlib.HandshakeLen
)

func versions() {
	v := byte(gomc.Choose(256, "version"))
	for s := 0; s < 256; s++ {
		p := hlib.NewPeer(1)
		p.Version = v
		if byte(s) == v {
			expect(p, &handshake.VerisonSequence{Supported: byte(s)}, true, full, full)
		} else {
			expect(p, &handshake.VerisonSequence{Supported: byte(s)}, false, 1, 0)
		}
	}
	p := hlib.NewPeer(1)
	p.Version = v
	if v == 3 {
		expect(p, nil, true, full, full)
	} else {
		expect(p, nil, false, 1, 0)
	}
}

// the client's packet is echoed byte by byte
func challenges() {
	i := gomc.Choose(pl, "byte")
	for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
		for seed := 0; seed < 3; seed++ {
			p := hlib.NewPeer(seed)
			if seed == 2 {
				p.C1 = make([]byte, pl)
			}
			p.C1[i] = v
			expect(p, nil, true, full, full)
		}
	}
}

// the echo of the server's challenge is wrong in some way
func echoes() {
	kind := gomc.Choose(12, "kind")
	if kind == 11 {
		// times are not part of it
		for i := 0; i < 8; i++ {
			p := hlib.NewPeer(2)
			p.C2 = func(s1 []byte) []byte {
				b := append([]byte(nil), s1...)
				b[i] ^= 0xa5
				return b
			}
			expect(p, nil, true, full, full)
		}
		return
	}
	for i := 8; i < pl; i++ {
		p := hlib.NewPeer(2)
		same := false
		p.C2 = func(s1 []byte) []byte {
			b := append([]byte(nil), s1...)
			j := 8 + (i+1-8)%(pl-8)
			switch kind {
			case 0:
				b[i] ^= 1
			case 1:
				b[i] ^= 0x80
			case 2:
				b[i] = ^b[i]
			case 3: // neighbours swapped
				b[i], b[j] = b[j], b[i]
			case 4: // mirrored bytes swapped
				b[i], b[pl+7-i] = b[pl+7-i], b[i]
			case 5: // sum and exclusive or preserved
				b[i] ^= 0x10
				b[j] ^= 0x10
			case 6: // right up to i, then zero
				for k := i; k < pl; k++ {
					b[k] = 0
				}
			case 7: // right from i on
				for k := 8; k <= i; k++ {
					b[k] = 0
				}
			case 8: // shifted by one from i on
				copy(b[i:], s1[i+1:])
				b[pl-1] = s1[8]
			case 9: // the client's own challenge
				copy(b[8:], hlib.Pattern(2, pl)[8:])
				b[i] ^= 3
			case 10: // one byte more, one less
				b[i]++
				b[j]--
			}
			same = bytes.Equal(b[8:], s1[8:])
			return b
		}
		p.Quiet = true
		// equal after all when the bytes swapped are the same
		if err := shake(p, nil); (err == nil) != same {
			gomc.Fail("echo wrong in the way %d at byte %d: %v", kind, i, err)
		}
		if p.Pos != full || len(p.Out) != full || p.After != "" || p.Order != "" {
			gomc.Fail("echo wrong in the way %d at byte %d: %d bytes read, %d sent, afterwards %q, %s", kind, i, p.Pos, len(p.Out), p.After, p.Order)
		}
		gomc.Count("evaluations", 1)
	}
}

// every byte of the echo takes every wrong value
func echoValues() {
	i := 8 + gomc.Choose(pl-8, "byte")
	for d := 1; d < 256; d++ {
		p := hlib.NewPeer(2)
		p.C2 = func(s1 []byte) []byte {
			b := append([]byte(nil), s1...)
			b[i] ^= byte(d)
			return b
		}
		expect(p, nil, false, full, full)
	}
}

func sentAt(in int) int {
	switch {
	case in < 1:
		return 0
	case in < 1+pl:
		return 1
	}
	return full
}

func readFailures() {
	kind := gomc.Choose(4, "kind of failure")
	frag := gomc.Choose(3, "fragmentation")
	for end := 0; end <= full; end++ {
		p := hlib.NewPeer(4)
		p.End = end
		if kind&1 == 1 {
			p.Err = hlib.ErrTransport
		}
		p.WithLast = kind >= 2
		switch frag {
		case 1:
			p.Frag = func(n int) (int, bool) { return min(n, 100), false }
		case 2:
			k := 0
			p.Frag = func(n int) (int, bool) { k++; return min(n, 700), k%3 == 0 }
		}
		expect(p, nil, end == full, end, sentAt(end))
	}
}

func writeFailures() {
	part := gomc.Choose(8, "part")
	for max := part; max < full; max += 8 {
		p := hlib.NewPeer(5)
		p.MaxOut = max
		in := 1 + pl
		if max < 1 {
			in = 1
		}
		expect(p, nil, false, in, max)
	}
}

// failures of every kind, in places of every kind
func failureKinds() {
	errs := hlib.AllErrs()
	e := errs[gomc.Choose(len(errs), "error")]
	for _, n := range edges {
		for _, last := range []bool{false, true} {
			if n == 0 && last {
				continue
			}
			p := hlib.NewPeer(4)
			p.End, p.Err, p.WithLast = n, e, last
			expect(p, nil, false, n, sentAt(n))
		}
		p := hlib.NewPeer(5)
		p.MaxOut, p.WErr = n, e
		in := 1 + pl
		if n < 1 {
			in = 1
		}
		expect(p, nil, false, in, n)
	}
}

// one cut at any place, with and without an empty read at it
func cuts() {
	a := gomc.Choose(full, "cut")
	for _, zero := range []bool{false, true} {
		p := hlib.NewPeer(6)
		done := false
		p.Frag = func(n int) (int, bool) {
			if p.Pos < a && p.Pos+n > a {
				n = a - p.Pos
			}
			if p.Pos == a && zero && !done {
				done = true
				return 0, true
			}
			return n, false
		}
		expect(p, nil, true, full, full)
	}
}

var edges = []int{0, 1, 2, 3, 4, 5, 8, 9, 10, 700, pl - 1, pl, pl + 1, pl + 2, pl + 4, pl + 5, pl + 6, pl + 9, pl + 10, 2 * pl, full - 2, full - 1}

// any two cuts at the edges of fields, with empty reads at both
func twoCuts() {
	a := pick("first cut", edges...)
	b := pick("second cut", edges...)
	za, zb := gomc.Choose(2, "empty read") == 1, gomc.Choose(2, "empty read") == 1
	p := hlib.NewPeer(6)
	p.Frag = func(n int) (int, bool) {
		for _, c := range []int{a, b} {
			if p.Pos < c && p.Pos+n > c {
				n = c - p.Pos
			}
		}
		if p.Pos == a && za {
			za = false
			return 0, true
		}
		if p.Pos == b && zb {
			zb = false
			return 0, true
		}
		return n, false
	}
	expect(p, nil, true, full, full)
}

// randoms: whatever the random source happens to return.
func randoms() {
	kind := gomc.Choose(12, "random bytes")
	fill := func(n uint64) byte {
		switch kind {
		case 0:
			return 0
		case 1:
			return 0xff
		case 2:
			return 1
		case 3:
			return byte(n)
		case 4:
			return byte(255 - n%256)
		case 5: // zero but for one byte
			if n%(pl-8) == 700 {
				return 9
			}
			return 0
		case 6: // the client's own
			return hlib.Pattern(2, pl)[8+n%(pl-8)]
		case 7: // zero at the start
			if n%(pl-8) < 16 {
				return 0
			}
		case 8: // zero at the end
			if n%(pl-8) >= pl-8-16 {
				return 0
			}
		case 9:
			return 3
		case 10:
			return byte(n / 4 % 2)
		}
		return vcrand.At(n)
	}
	vcrand.Fill(fill)
	for seed := 0; seed < 3; seed++ {
		for pass := 0; pass < 2; pass++ {
			p := hlib.NewPeer(seed)
			if seed == 0 {
				p.C1 = make([]byte, pl)
			}
			expect(p, nil, true, full, full)
		}
		for i := 8 + seed; i < pl; i += 7 {
			for _, x := range []byte{1, 0xff} {
				p := hlib.NewPeer(seed)
				p.C2 = func(s1 []byte) []byte {
					b := append([]byte(nil), s1...)
					b[i] ^= x
					return b
				}
				expect(p, nil, false, full, full)
			}
		}
		for k := 0; k < 6; k++ {
			p := hlib.NewPeer(seed)
			same := false
			p.C2 = func(s1 []byte) []byte {
				b := append([]byte(nil), s1...)
				for i := 8; i < pl; i++ {
					switch k {
					case 0:
						b[i] = 0
					case 1:
						b[i] = 0xff
					case 2:
						b[i] = ^b[i]
					case 3:
						b[i] = hlib.Pattern(seed, pl)[i]
					case 4:
						b[i]++
					case 5:
						b[i] = s1[8]
					}
				}
				same = bytes.Equal(b[8:], s1[8:])
				return b
			}
			p.Quiet = true
			if err := shake(p, nil); (err == nil) != same {
				gomc.Fail("random bytes of kind %d, echo of kind %d: %v", kind, k, err)
			}
			gomc.Count("evaluations", 1)
		}
	}
}

func uniform() {
	size := pick("piece", 1, 2, 3, 4, 5, 7, 8, 64, 1000, 1528, 1535, 1536, 1537)
	every := gomc.Choose(4, "empty reads")
	p := hlib.NewPeer(6)
	k := 0
	p.Frag = func(n int) (int, bool) {
		k++
		return min(n, size), every > 0 && k%(every+1) == 0
	}
	expect(p, nil, true, full, full)
}

// idle: for a long time the connection returns neither bytes nor an error
func idle() {
	at := pick("place", edges...)
	run := pick("empty reads in a row (1: a long time instead)", 1, 2, 101, 1025, 66000)
	p := hlib.NewPeer(6)
	left := run
	p.Frag = func(n int) (int, bool) {
		switch {
		case p.Pos < at:
			return min(n, at-p.Pos), false
		case run == 1:
			hlib.Slow("slow connection")
		case left > 0:
			left--
			return 0, true
		}
		return n, false
	}
	expect(p, nil, true, full, full)
}

// --- C16 ------------------------------------------------------------------

// every byte of the challenge comes from the random source, each handshake
// takes its own
func fresh() {
	n := pick("handshakes", 1, 2, 3, 4, 40, 300)
	var normal, inverted [][]byte
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < n; i++ {
			p := hlib.NewPeer(i)
			p.Quiet = true
			vcrand.Invert(pass == 1)
			if err := shake(p, nil); err != nil {
				gomc.Fail("handshake: %v", err)
			}
			if pass == 0 {
				normal = append(normal, p.S1()[8:])
			} else {
				inverted = append(inverted, p.S1()[8:])
			}
		}
		if pass == 0 {
			vcrand.Rewind()
		}
	}
	for i := range normal {
		for k := range normal[i] {
			if normal[i][k] != ^inverted[i][k] {
				gomc.Fail("byte %d of the challenge of handshake %d does not come from the random source", k, i+1)
			}
		}
		for j := range normal[:i] {
			if bytes.Equal(normal[i][:16], normal[j][:16]) || bytes.Equal(normal[i], normal[j]) {
				gomc.Fail("handshakes %d and %d share their challenge", j+1, i+1)
			}
		}
	}
	gomc.Count("evaluations", 1)
}

// handshakes at the same time, some of them failing
func concurrent(n int, bad int) func() {
	return func() {
		peers := make([]*hlib.Peer, n)
		errs := make([]error, n)
		done := make([]bool, n)
		for i := range peers {
			p := hlib.NewPeer(i)
			peers[i] = p
			if i == bad {
				p.C2 = func(s1 []byte) []byte {
					b := append([]byte(nil), s1...)
					b[100] ^= 1
					return b
				}
			}
			if i == bad-10 {
				p.End = 1 + pl + 3
			}
			go func() {
				errs[i] = shake(p, nil)
				done[i] = true
			}()
		}
		if l := gomc.Quiesce(); len(l) > 0 {
			gomc.Fail("handshakes do not end: %v", l)
		}
		for i, p := range peers {
			wrong := i == bad || i == bad-10
			if !done[i] || (errs[i] != nil) != wrong {
				gomc.Fail("handshake %d: %v", i+1, errs[i])
			}
			if d := p.CheckOut(); d != "" || p.Order != "" || len(p.Out) != full {
				gomc.Fail("handshake %d: %s %s, %d bytes sent", i+1, d, p.Order, len(p.Out))
			}
			for j := range peers[:i] {
				if bytes.Equal(p.S1()[8:], peers[j].S1()[8:]) {
					gomc.Fail("handshakes %d and %d share their challenge", j+1, i+1)
				}
			}
			if i > 0 {
				continue
			}
		}
		gomc.Outcome(fmt.Sprint(errs))
	}
}

// schedules: a handshake of each kind, whatever runs when
func schedules() {
	p := hlib.NewPeer(1)
	switch gomc.Choose(6, "kind") {
	case 5: // time passes before every read
		n := pick("bytes in a read", 700, pl)
		p.Frag = func(want int) (int, bool) { hlib.Slow("slow connection"); return min(want, n), false }
		expect(p, nil, true, full, full)
	case 0:
		expect(p, nil, true, full, full)
	case 1:
		p.Version = 6
		expect(p, nil, false, 1, 0)
	case 2:
		i := pick("byte", 8, 9, 1000, pl-1)
		p.C2 = func(s1 []byte) []byte {
			b := append([]byte(nil), s1...)
			b[i] ^= 0x20
			return b
		}
		expect(p, nil, false, full, full)
	case 3:
		p.End = pick("bytes that arrive", 0, 1, 2, 5, 9, 10, 1536, 1537, 1538, 1541, 1545, 3072)
		p.WithLast = gomc.Choose(2, "error with the last byte") == 1 && p.End > 0
		expect(p, nil, false, p.End, sentAt(p.End))
	case 4:
		n := 0
		p.Frag = func(want int) (int, bool) { n++; return (want + 1) / 2, n%5 == 0 }
		expect(p, nil, true, full, full)
	}
}

func init() {
	R := gomc.Register
	F := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	C := func(name, tier, bound string, n int, f func()) {
		R(gomc.Scenario{Prop: "C15", Name: name, Tier: tier, Bound: bound, Opts: F(n), Body: f})
	}
	C("c15-versions", "quick", "all client versions x all supported versions", 8, versions)
	C("c15-challenges", "quick", "every byte of the client's packet takes 5 values in 3 packets", 8, challenges)
	C("c15-echoes", "quick", "11 ways for the echo to be wrong, at each of its 1528 bytes; 8 bytes that do not matter", 12, echoes)
	C("c15-echo-values", "quick", "every byte of the echo takes every wrong value", 16, echoValues)
	C("c15-read-failures", "quick", "failure or end of file after every byte x alone or with the last byte x 3 fragmentations", 4, readFailures)
	C("c15-write-failures", "quick", "write failure after every byte", 8, writeFailures)
	C("c15-failure-kinds", "quick", fmt.Sprintf("%d errors of the connection (timeouts, temporary, wrapped, of the system...) at %d places, reading and writing", len(hlib.AllErrs()), len(edges)), len(hlib.AllErrs()), failureKinds)
	C("c15-cuts", "quick", "reads cut at any one of 3073 places, with and without an empty read there", 8, cuts)
	C("c15-two-cuts", "quick", "any two cuts at 22 places around the field boundaries, with and without empty reads", 8, twoCuts)
	C("c15-randoms", "quick", "12 ways for the random bytes to turn out (all zero, all the same, the client's own, ...), 3 client packets; right echoes, echoes wrong in one of 218 bytes, echoes wrong throughout", 12, randoms)
	C("c15-uniform", "quick", "13 sizes of reads x 4 frequencies of empty reads", 8, uniform)

	C("c15-idle", "quick", fmt.Sprint("2, 101, 1025 or 66000 reads in a row that return nothing, or a long time before every read, from each of ", len(edges), " places"), len(edges), idle)

	R(gomc.Scenario{Prop: "C15", Name: "c15-schedules", Tier: "quick", Opts: gomc.Opts{Mem: true}, Body: schedules,
		Bound: "all schedules: a good handshake, whole, in pieces or slow, a wrong version, wrong echoes, ends at 12 places"})

	O := gomc.Opts{Mem: true, RaceFails: true}
	R(gomc.Scenario{Prop: "C16", Name: "c16-fresh", Tier: "quick", Bound: "1-4, 40 and 300 handshakes in a row, the random source inverted", Opts: F(1), Body: fresh})
	R(gomc.Scenario{Prop: "C16", Name: "c16-handshakes", Tier: "quick", Bound: "2 handshakes at the same time; all schedules", Opts: O, Body: concurrent(2, -1)})
	R(gomc.Scenario{Prop: "C16", Name: "c16-handshakes-bad", Tier: "quick", Bound: "2 handshakes at the same time, one with a wrong echo; all schedules", Opts: O, Body: concurrent(2, 1)})
	R(gomc.Scenario{Prop: "C16", Name: "c16-handshakes-cut", Tier: "quick", Bound: "2 handshakes at the same time, one cut off; all schedules", Opts: O, Body: concurrent(2, 10)})
	R(gomc.Scenario{Prop: "C16", Name: "c16-handshakes3", Tier: "quick", Bound: "3 handshakes at the same time, one with a wrong echo; all schedules", Opts: O, Body: concurrent(3, 1)})
}
