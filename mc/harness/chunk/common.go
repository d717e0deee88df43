// Package main is the harness for package chunk.
package main

import (
	"fmt"
	"io"

	"github.com/WatchBeam/rtmp/chunk"

	"verif/mc/gomc"
	"verif/mc/hlib"
)

func main() { gomc.Main() }

// toMsg snapshots a delivered message.
func toMsg(c *chunk.Chunk) hlib.Msg {
	h := c.Header
	m := hlib.Msg{
		Fmt:   h.BasicHeader.FormatId,
		CSID:  h.BasicHeader.StreamId,
		TS:    h.MessageHeader.Timestamp,
		Delta: h.MessageHeader.TimestampDelta,
		Ext:   h.ExtendedTimestamp.Delta,
		Type:  h.MessageHeader.TypeId,
		SID:   h.MessageHeader.StreamId,
		Data:  append([]byte(nil), c.Data...),
	}
	if int(h.MessageHeader.Length) != len(c.Data) {
		gomc.Fail("a delivered message says it is %d bytes long but has %d: %v", h.MessageHeader.Length, len(c.Data), m)
	}
	if h.MessageHeader.FormatId != h.BasicHeader.FormatId {
		gomc.Fail("a delivered message has header type %d in its basic header and %d in its message header: %v", h.BasicHeader.FormatId, h.MessageHeader.FormatId, m)
	}
	if c.StreamId() != m.CSID || c.TypeId() != m.Type {
		gomc.Fail("accessors disagree with the header: %d %d, %v", c.StreamId(), c.TypeId(), m)
	}
	return m
}

// fromMsg makes the message the application would write.
func fromMsg(m hlib.Msg) *chunk.Chunk {
	return chunk.New(&chunk.Header{
		BasicHeader: chunk.BasicHeader{FormatId: m.Fmt, StreamId: m.CSID},
		MessageHeader: chunk.MessageHeader{
			FormatId: m.Fmt, Timestamp: m.TS, TimestampDelta: m.Delta,
			Length: uint32(len(m.Data)), TypeId: m.Type, StreamId: m.SID,
		},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: m.Ext},
	}, m.Data)
}

type result struct {
	msgs   []hlib.Msg
	chunks []*chunk.Chunk
	errs   []error
	size   int // read size at the end
}

// decode runs a reader over src until its first error, then closes it.
// onMsg sees every message at the moment of its delivery.
func decode(src io.Reader, size int, onMsg func(n int)) *result {
	r := chunk.NewReader(src, size, chunk.NewNormalizer())
	res := &result{}
	done := make(chan struct{})
	go func() {
		r.Recv()
		close(done)
	}()
	take := func(c *chunk.Chunk, ok bool) {
		if !ok {
			return
		}
		if c == nil || c.Header == nil {
			gomc.Fail("a nil message was delivered")
		}
		res.chunks = append(res.chunks, c)
		res.msgs = append(res.msgs, toMsg(c))
		if onMsg != nil {
			onMsg(len(res.msgs))
		}
	}
	chunks, errs := r.Chunks(), r.Errs()
	for len(res.errs) == 0 {
		rest()
		select {
		case c, ok := <-chunks:
			take(c, ok)
			if !ok {
				gomc.Fail("the reader's message channel ended before it was closed")
			}
		case e := <-errs:
			if e == nil {
				gomc.Fail("a nil error was reported")
			}
			res.errs = append(res.errs, e)
		case <-done:
			gomc.Fail("the reader stopped without having been closed")
		}
	}
	closed := make(chan struct{})
	go func() {
		r.Close()
		close(closed)
	}()
	for done != nil || closed != nil {
		select {
		case c, ok := <-chunks:
			take(c, ok)
			if !ok {
				chunks = nil
			}
		case _, ok := <-errs:
			if !ok {
				errs = nil
			}
		case <-done:
			done = nil
		case <-closed:
			closed = nil
		}
	}
	// a message must not change after its delivery
	for i, c := range res.chunks {
		if d := hlib.Diff(res.msgs[i], toMsg(c)); d != "" {
			gomc.Fail("message %d changed after its delivery: %s", i+1, d)
		}
	}
	res.size = r.ReadSize()
	return res
}

func expect(g *hlib.Gen, res *result, what string) {
	if d := hlib.SeqDiff(g.Want, res.msgs); d != "" {
		gomc.Fail("%s: %s; stream %s", what, d, clipBytes(g.Out))
	}
	gomc.Count("evaluations", 1)
	gomc.Count("messages", int64(len(res.msgs)))
}

func clipBytes(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("% x... (%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("% x", b)
}

func pick[T any](site string, l ...T) T { return l[gomc.Choose(len(l), site)] }
