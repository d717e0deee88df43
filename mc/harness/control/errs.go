package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/control"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

// unwritableBy cannot be encoded, with an error of any kind.
type unwritableBy struct {
	unwritable
	e error
}

func (u *unwritableBy) Write(io.Writer) error { return u.e }

// sameErrors: the same failure again and again, of any kind: each is reported.
func sameErrors() {
	errs := hlib.AllErrs()
	e := errs[gomc.Choose(len(errs), "error")]
	n := pick("failures", 1, 2, 3, 7)
	encoder := gomc.Choose(2, "of the encoder") == 1
	src := &fakeStream{make(chan *chunk.Chunk)}
	w := &fakeWriter{err: e}
	s := control.NewStream(src, w, control.NewParser(), control.NewChunker())
	go s.Recv()
	var got []error
	var in []control.Control
	go func() {
		for e := range s.Errs() {
			got = append(got, e)
		}
	}()
	go func() {
		for c := range s.In() {
			in = append(in, c)
		}
	}()
	for i := 0; i < n; i++ {
		if encoder {
			s.Out() <- &unwritableBy{e: e}
			continue
		}
		s.Out() <- &control.Acknowledgement{SequenceNumber: uint32(i)}
	}
	gomc.Quiesce()
	if len(got) != n {
		gomc.Fail("%d messages failed with %q (%T), %d errors were reported: %v", n, e, e, len(got), got)
	}
	for _, g := range got {
		if !errors.Is(g, e) {
			gomc.Fail("sending failed with %q (%T), reported was %q", e, e, g)
		}
	}
	// and the same bad message again and again
	for i := 0; i < n; i++ {
		src.c <- chunkOf(3, []byte{1, 2})
		src.c <- chunkOf(77, nil)
	}
	src.c <- chunkOf(3, []byte{0, 0, 0, 5})
	gomc.Quiesce()
	if len(got) != 3*n {
		gomc.Fail("%d bad messages, %d errors reported", 2*n, len(got)-n)
	}
	if len(in) != 1 {
		gomc.Fail("%d control messages delivered after bad ones", len(in))
	}
	w.err = nil
	s.Out() <- &control.Acknowledgement{SequenceNumber: 9}
	gomc.Quiesce()
	if len(w.got) != 1 || len(got) != 3*n {
		gomc.Fail("after failures %d messages are written, with %d errors more", len(w.got), len(got)-3*n)
	}
	gomc.Count("evaluations", 1)
}

func init() {
	n := len(hlib.AllErrs())
	gomc.Register(gomc.Scenario{Prop: "C14", Name: "c14-same-errors", Tier: "quick", Opts: gomc.Opts{Fixed: true, Shards: n}, Body: sameErrors,
		Bound: fmt.Sprintf("1-7 times the same failure of the writer or the encoder (%d kinds), the same bad messages, then good ones", n)})
}
