package main

import (
	"bytes"
	"fmt"

	"github.com/WatchBeam/rtmp/chunk"
	"github.com/WatchBeam/rtmp/cmd/data"

	"verif/mc/gomc"
)

// C21: audio and video frames.

// accessors of a frame, as RTMP/FLV define the control byte.
func checkFrame(d data.Data, typ, c byte, payload []byte) {
	if d.Id() != typ {
		gomc.Fail("a frame of type %#x says it is of type %#x", typ, d.Id())
	}
	switch f := d.(type) {
	case *data.Audio:
		if typ != 8 {
			gomc.Fail("a message of type %#x became audio", typ)
		}
		if f.Control() != c || !bytes.Equal(f.Payload(), payload) {
			gomc.Fail("audio %02x % x read as %02x % x", c, payload, f.Control(), f.Payload())
		}
		if byte(f.Codec()) != c>>4 {
			gomc.Fail("audio control %#02x: codec %d", c, f.Codec())
		}
		if byte(f.Type()) != c&1 {
			gomc.Fail("audio control %#02x: channels %d", c, f.Type())
		}
		n := (c >> 2) & 3
		if f.Rate() != 5.5*float32(int(1)<<n) {
			if f.Rate() == 5.5*float32(2^n) {
				gomc.Known("K-AUDIORATE", fmt.Sprintf("control byte %#02x: rate %v instead of %v kHz", c, f.Rate(), 5.5*float32(int(1)<<n)))
			} else {
				gomc.Fail("audio control %#02x: rate %v", c, f.Rate())
			}
		}
		s := (c >> 1) & 1
		if f.Size() != 8<<s {
			if f.Size() == 8*int(2^s) {
				gomc.Known("K-AUDIOSIZE", fmt.Sprintf("control byte %#02x: sample size %d instead of %d", c, f.Size(), 8<<s))
			} else {
				gomc.Fail("audio control %#02x: sample size %d", c, f.Size())
			}
		}
	case *data.Video:
		if typ != 9 {
			gomc.Fail("a message of type %#x became video", typ)
		}
		if f.Control() != c || !bytes.Equal(f.Payload(), payload) {
			gomc.Fail("video %02x % x read as %02x % x", c, payload, f.Control(), f.Payload())
		}
		if byte(f.Codec()) != c&0xf {
			gomc.Fail("video control %#02x: codec %d", c, f.Codec())
		}
		if byte(f.Type()) != c>>4 {
			gomc.Fail("video control %#02x: frame type %d", c, f.Type())
		}
	default:
		gomc.Fail("a message of type %#x became a %T", typ, d)
	}
}

// constants names the values with which codecs are compared.
func constants() {
	type con struct {
		name      string
		got, want byte
		known     bool
	}
	known := func(name string, got, want byte) con { return con{name, got, want, true} }
	exact := func(name string, got, want byte) con { return con{name, got, want, false} }
	for _, k := range []con{
		exact("UncompressedAudioCodec", byte(data.UncompressedAudioCodec), 0),
		exact("ADPCMAudioCodec", byte(data.ADPCMAudioCodec), 1),
		exact("MP3AudioCodec", byte(data.MP3AudioCodec), 2),
		exact("UncompressedLittleEndianAudioCodec", byte(data.UncompressedLittleEndianAudioCodec), 3),
		exact("Nellymoser16AudioCodec", byte(data.Nellymoser16AudioCodec), 4),
		exact("Nellymoser8AudioCodec", byte(data.Nellymoser8AudioCodec), 5),
		exact("NellymoserAudioCodec", byte(data.NellymoserAudioCodec), 6),
		exact("G711AAudioCodec", byte(data.G711AAudioCodec), 7),
		exact("G711UAudioCodec", byte(data.G711UAudioCodec), 8),
		known("HE_AACAudioCodec", byte(data.HE_AACAudioCodec), 10),
		known("SPEEXAudioCodec", byte(data.SPEEXAudioCodec), 11),
		exact("MonoAudioType", byte(data.MonoAudioType), 0),
		exact("StereoAudioType", byte(data.StereoAudioType), 1),
		known("SorensenH263VideoCodec", byte(data.SorensenH263VideoCodec), 2),
		known("ScreenVideoVideoCodec", byte(data.ScreenVideoVideoCodec), 3),
		known("On2VP6VideoCodec", byte(data.On2VP6VideoCodec), 4),
		known("On2VP6AlphaVideoCodec", byte(data.On2VP6AlphaVideoCodec), 5),
		known("ScreenVideo2VideoCodec", byte(data.ScreenVideo2VideoCodec), 6),
		known("H264VideoCodec", byte(data.H264VideoCodec), 7),
		known("KeyframeVideoType", byte(data.KeyframeVideoType), 1),
		known("InterframeVideoType", byte(data.InterframeVideoType), 2),
		known("DisposableInterframeVideoType", byte(data.DisposableInterframeVideoType), 3),
		known("GeneratedKeyFrameVideoType", byte(data.GeneratedKeyFrameVideoType), 4),
		known("CommandFrameVideoType", byte(data.CommandFrameVideoType), 5),
	} {
		off := map[string]byte{"HE_AACAudioCodec": 1, "SPEEXAudioCodec": 1}
		d := off[k.name]
		if d == 0 {
			d = 2
			if len(k.name) > 9 && k.name[len(k.name)-9:] == "VideoType" {
				d = 1
			}
		}
		if k.got == k.want {
			continue
		}
		if k.known && k.got == k.want-d {
			gomc.Known("K-AVCONSTANTS", fmt.Sprintf("%s is %d where FLV has %d", k.name, k.got, k.want))
			continue
		}
		gomc.Fail("%s is %d", k.name, k.got)
	}
	gomc.Count("evaluations", 1)
}

// parse reads a message with the default parser.
func parse(c *chunk.Chunk) (data.Data, error) {
	d, err := data.DefaultParser.Parse(c)
	if err == nil && d == nil {
		gomc.Fail("neither a frame nor an error")
	}
	return d, err
}

func avMsg(typ byte, csid, sid uint32, fid byte, ts, ext uint32, p []byte) *chunk.Chunk {
	return chunk.New(&chunk.Header{
		BasicHeader:       chunk.BasicHeader{FormatId: fid, StreamId: csid},
		MessageHeader:     chunk.MessageHeader{FormatId: fid, Timestamp: ts, TimestampDelta: fid > 0, Length: uint32(len(p)), TypeId: typ, StreamId: sid},
		ExtendedTimestamp: chunk.ExtendedTimestamp{Delta: ext},
	}, append([]byte(nil), p...))
}

func checkSame(got *chunk.Chunk, err error, want *chunk.Chunk) {
	if err != nil {
		gomc.Fail("marshalling: %v", err)
	}
	if got == nil || got.Header == nil || *got.Header != *want.Header || !bytes.Equal(got.Data, want.Data) {
		gomc.Fail("marshalled to %+v % x instead of %+v % x", got.Header, got.Data, want.Header, want.Data)
	}
}

// frames: every control byte, several payloads, headers and neighbours. The
// frames are kept and looked at again after the later ones.
func frames(n int) func() {
	return func() {
		c := byte(gomc.Choose(256, "control byte"))
		payloads := [][]byte{nil, {0}, {1, 2, 3}, bytes.Repeat([]byte{0xc4}, 200)}
		type kept struct {
			d    data.Data
			want *chunk.Chunk
			in   *chunk.Chunk
		}
		var keep []kept
		for i := 0; i < n; i++ {
			typ := pick("type", byte(8), 9)
			p := payloads[gomc.Choose(len(payloads), "payload")]
			ci := c + byte(i)*0x5b
			full := append([]byte{ci}, p...)
			var m, same *chunk.Chunk
			switch gomc.Choose(3, "header") {
			case 0:
				m, same = avMsg(typ, 4, 1, 0, 0, 0, full), avMsg(typ, 4, 1, 0, 0, 0, full)
			case 1:
				m, same = avMsg(typ, 6, 7, 1, 40, 0, full), avMsg(typ, 6, 7, 1, 40, 0, full)
			default:
				m, same = avMsg(typ, 65000, 1<<31, 0, 0xffffff, 1<<25, full), avMsg(typ, 65000, 1<<31, 0, 0xffffff, 1<<25, full)
			}
			d, err := parse(m)
			if err != nil {
				gomc.Fail("type %d, % x: %v", typ, full, err)
			}
			for _, o := range keep {
				if o.d == d {
					gomc.Fail("two messages gave the same frame")
				}
			}
			keep = append(keep, kept{d, same, m})
		}
		for round := 0; round < 2; round++ {
			for _, o := range keep {
				checkFrame(o.d, o.want.Header.MessageHeader.TypeId, o.want.Data[0], o.want.Data[1:])
				g, err := o.d.Marshal()
				checkSame(g, err, o.want)
				// the message read is left alone
				checkSame(o.in, nil, o.want)
			}
		}
		gomc.Count("evaluations", int64(n))
	}
}

// refused: empty messages and other types, before and after a good one
func refused() {
	typ := byte(gomc.Choose(256, "type"))
	good := pick("good", byte(8), 9)
	d1, err := parse(avMsg(good, 4, 1, 0, 0, 0, []byte{0x2f, 9}))
	if err != nil {
		gomc.Fail("a frame was refused: %v", err)
	}
	p := pick("payload", []byte(nil), []byte{0xaf, 1})
	d, err := parse(avMsg(typ, 4, 1, 0, 0, 0, p))
	isAV := typ == 8 || typ == 9
	switch {
	case isAV && len(p) > 0:
		if err != nil {
			gomc.Fail("a frame was refused: %v", err)
		}
		checkFrame(d, typ, p[0], p[1:])
	case isAV:
		if err == nil {
			gomc.Fail("an empty message of type %#x was taken", typ)
		}
	case typ == 0x12:
		if err == nil {
			gomc.Fail("% x was taken as a data frame", p)
		}
	default:
		if err == nil {
			gomc.Fail("a message of type %#x was taken as %T", typ, d)
		}
		if f := data.DefaultParser.New(typ); f != nil {
			gomc.Fail("type %#x has a frame %T", typ, f)
		}
	}
	checkFrame(d1, good, 0x2f, []byte{9})
	d2, err := parse(avMsg(good, 4, 1, 0, 0, 0, []byte{0x31}))
	if err != nil {
		gomc.Fail("after a message of type %#x a frame was refused: %v", typ, err)
	}
	checkFrame(d2, good, 0x31, nil)
	checkFrame(d1, good, 0x2f, []byte{9})
	gomc.Count("evaluations", 1)
}

// reread: a frame read again holds the second message; a refused message does
// not make it panic later.
func reread() {
	typ := pick("type", byte(8), 9)
	var d data.Data = new(data.Audio)
	if typ == 9 {
		d = new(data.Video)
	}
	c := byte(gomc.Choose(256, "control byte"))
	for i := 0; i < 3; i++ {
		p := []byte{c + byte(i), byte(i)}
		m := avMsg(typ, 4, uint32(i), 0, uint32(i), 0, p)
		if err := d.Read(m); err != nil {
			gomc.Fail("reading % x: %v", p, err)
		}
		if i == 1 {
			if err := d.Read(avMsg(typ, 4, 9, 0, 0, 0, nil)); err == nil {
				gomc.Fail("an empty message was taken")
			}
		}
		checkFrame(d, typ, p[0], p[1:])
		g, err := d.Marshal()
		checkSame(g, err, avMsg(typ, 4, uint32(i), 0, uint32(i), 0, p))
	}
	gomc.Count("evaluations", 3)
}

func init() {
	R := gomc.Register
	fixed := func(n int) gomc.Opts { return gomc.Opts{Fixed: true, Shards: n} }
	R(gomc.Scenario{Prop: "C21", Name: "c21-frames", Tier: "quick", Opts: fixed(16), Body: frames(2),
		Bound: "all 256 control bytes, 4 payloads, 3 headers, audio or video, followed by another frame of any such kind"})
	R(gomc.Scenario{Prop: "C21", Name: "c21-frames3", Tier: "quick", Opts: fixed(32), Body: frames(3),
		Bound: "the same with two frames after it"})
	R(gomc.Scenario{Prop: "C21", Name: "c21-refused", Tier: "quick", Opts: fixed(8), Body: refused,
		Bound: "all 256 types, empty or not, between good frames"})
	R(gomc.Scenario{Prop: "C21", Name: "c21-reread", Tier: "quick", Opts: fixed(8), Body: reread,
		Bound: "all 256 control bytes: three messages read by one frame, an empty one in between"})
	R(gomc.Scenario{Prop: "C21", Name: "c21-constants", Tier: "quick", Opts: fixed(1), Body: constants,
		Bound: "the 24 named codecs and types"})
	sched := gomc.Opts{Mem: true, Shards: 8}
	R(gomc.Scenario{Prop: "C21", Name: "c21-schedules", Tier: "quick", Opts: sched, Body: reread,
		Bound: "all schedules: three messages read by one frame, an empty one in between, all 256 control bytes"})
	R(gomc.Scenario{Prop: "C21", Name: "c21-refused-schedules", Tier: "quick", Opts: sched, Body: refused,
		Bound: "all schedules: all 256 types, empty or not, between good frames"})
}
