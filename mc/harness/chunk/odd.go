package main

import (
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// idle: a transport that for a long time returns neither bytes nor an error
func idle() {
	w := gomc.Choose(nSessions, "session")
	run := pick("empty reads in a row", 2, 101, 1025, 66000)
	at := gomc.Choose(60, "before which read")
	g := session(w)
	ref := decode(&hlib.Src{Data: g.Out}, initial(w), nil)
	src := &hlib.Src{Data: g.Out, WithLast: at%2 == 1}
	n, left := 0, run
	src.Frag = func(want int) (int, bool) {
		if n == at && left > 0 {
			left--
			gomc.Count("beat", 1)
			return 0, true
		}
		n++
		return min(want, 2), false
	}
	compareRuns(g, ref, decode(src, initial(w), nil))
}

// odd messages: empty ones, equal ones, the same one again
func oddItems() ([]any, func(*chunk.Chunk) string) {
	label := func(c *chunk.Chunk) string {
		if c == nil {
			return "nil"
		}
		return fmt.Sprintf("%d:%d:%x", c.StreamId(), c.Header.MessageHeader.Timestamp, c.Data)
	}
	mk := func(csid uint32, ts uint32, typ byte, data []byte) *chunk.Chunk {
		return fromMsg(hlib.Msg{CSID: csid, Type: typ, SID: 1, TS: ts, Data: data})
	}
	a := mk(4, 1, 9, []byte{1})
	switch gomc.Choose(6, "messages") {
	case 0:
		return []any{mk(4, 1, 9, nil), a, mk(4, 2, 9, []byte{})}, label
	case 1:
		return []any{mk(4, 1, 9, []byte{}), mk(5, 1, 8, nil), mk(4, 1, 9, []byte{})}, label
	case 2: // equal, but not the same
		return []any{a, mk(4, 1, 9, []byte{1}), mk(5, 1, 9, []byte{1})}, label
	case 3: // the same again
		return []any{a, a, mk(5, 1, 9, nil)}, label
	case 4:
		return []any{a, mk(5, 1, 9, []byte{1}), a}, label
	}
	return []any{mk(4, 0, 0, nil), mk(4, 0, 0, nil), mk(4, 0, 0, nil)}, label
}

func checkOdd(items []any, label func(*chunk.Chunk) string, got []string, csids ...uint32) {
	want := make([][]string, len(csids))
	for i, id := range csids {
		for _, it := range items {
			if c := it.(*chunk.Chunk); c.StreamId() == id {
				want[i] = append(want[i], label(c))
			}
		}
	}
	if d := hlib.Merge(got, want...); d != "" {
		gomc.Fail("chunk streams %v: %s", csids, d)
	}
}

func routeOdd() {
	items, label := oddItems()
	group := gomc.Choose(2, "as a group") == 1
	p := chunk.NewParser(newScript(items...))
	asks := [][]uint32{{4}, {5}}
	if group {
		asks = [][]uint32{{4, 5}}
	}
	got := make([][]string, len(asks))
	gomc.Go("harness/recv", p.Recv)
	for i, ids := range asks {
		s, err := p.Stream(ids...)
		if err != nil {
			gomc.Fail("asking for %v: %v", ids, err)
		}
		gomc.Go("harness/drain", func() {
			for c := range s.In() {
				got[i] = append(got[i], label(c))
			}
		})
	}
	gomc.Quiesce()
	for i, ids := range asks {
		checkOdd(items, label, got[i], ids...)
	}
	gomc.Outcome(fmt.Sprint(got))
}

func mergeOdd() {
	items, label := oddItems()
	m := chunk.NewMultiStream()
	for _, id := range []uint32{4, 5} {
		s := &source{make(chan *chunk.Chunk)}
		m.Append(s)
		gomc.Go("harness/source", func() {
			for _, it := range items {
				if c := it.(*chunk.Chunk); c.StreamId() == id {
					s.ch <- c
				}
			}
			close(s.ch)
		})
	}
	var got []string
	done := false
	gomc.Go("harness/wait", m.AwaitClose)
	gomc.Go("harness/drain", func() {
		for c := range m.In() {
			got = append(got, label(c))
		}
		done = true
	})
	if l := gomc.Quiesce(); len(l) > 0 || !done {
		gomc.Fail("the merged stream does not end: %v", l)
	}
	checkOdd(items, label, got, 4, 5)
	gomc.Outcome(fmt.Sprint(got))
}

func init() {
	gomc.Register(gomc.Scenario{Prop: "C04", Name: "c04-idle", Tier: "quick",
		Bound: "5 streams in reads of at most 2 bytes, with 2, 101, 1025 or 66000 reads in a row that return nothing before any one of the first 60 reads",
		Opts:  gomc.Opts{Fixed: true, Shards: 5}, Body: idle})
	bound := "all schedules: 3 messages on 2 chunk streams, empty ones (with and without a slice), equal ones, the same one twice"
	gomc.Register(gomc.Scenario{Prop: "C08", Name: "c08-odd", Tier: "quick", Bound: bound + "; asked for alone or as a group",
		Opts: gomc.Opts{Mem: true, Shards: 6}, Body: routeOdd})
	gomc.Register(gomc.Scenario{Prop: "C09", Name: "c09-odd", Tier: "quick", Bound: bound,
		Opts: gomc.Opts{Mem: true, Shards: 6}, Body: mergeOdd})
}

// sizeValues: what is set is what is read, whatever was set before
func sizeValues() {
	vals := []int{1, 2, 127, 128, 129, 255, 256, 4096, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789ab}
	first := pick("initial size", vals...)
	a, b := pick("size", vals...), pick("another size", vals...)
	r := chunk.NewReader(&hlib.Src{}, first, chunk.NewNormalizer())
	w := chunk.NewWriter(hlib.NewDst(), first)
	for _, x := range []struct {
		what string
		set  func(int)
		get  func() int
	}{{"read", r.SetReadSize, r.ReadSize}, {"write", w.SetWriteSize, w.WriteSize}} {
		check := func(want int) {
			if got := x.get(); got != want {
				gomc.Fail("the %s size is %d after %d was set (initially %d, then %d and %d)", x.what, got, want, first, a, b)
			}
		}
		check(first)
		x.set(a)
		check(a)
		x.set(b)
		check(b)
		check(b)
	}
	gomc.Count("evaluations", 1)
}

func init() {
	gomc.Register(gomc.Scenario{Prop: "C12", Name: "c12-values", Tier: "quick",
		Bound: "all sequences of 3 of 17 read and write sizes from 1 to beyond 32 bits",
		Opts:  gomc.Opts{Fixed: true, Shards: 17}, Body: sizeValues})
}
