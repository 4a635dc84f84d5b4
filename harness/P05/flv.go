package h

import (
	"bytes"
	"io"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

type rw struct{ lib.Sink }

func (r *rw) Streams() ([]interface{}, error) { return nil, nil }

func symTag() flvio.Tag {
	t := flvio.Tag{Time: vf.U32("time"), StreamId: vf.U32("sid") & 0xffffff}
	switch vf.Choose("type", 4) {
	case 0:
		t.Type = flvio.TAG_AUDIO
		t.SoundFormat = vf.U8("fmt") & 15
		t.SoundRate = vf.U8("rate") & 3
		t.SoundSize = vf.U8("size") & 1
		t.SoundType = vf.U8("chan") & 1
		if t.SoundFormat == flvio.SOUND_AAC {
			t.AACPacketType = vf.U8("aacpt")
		}
	case 1:
		t.Type = flvio.TAG_VIDEO
		t.FrameType = vf.U8("frame") & 15
		t.VideoFormat = vf.U8("codec") & 15
		if t.VideoFormat == flvio.VIDEO_H264 || t.VideoFormat == flvio.VIDEO_H265 {
			t.AVCPacketType = vf.U8("avcpt")
			t.CTime = int32(vf.U32("ctime")<<8) >> 8
		}
	case 2:
		t.Type = flvio.TAG_AMF0
	case 3:
		t.Type = flvio.TAG_AMF3
	}
	t.Data = vf.Bytes("data", vf.Choose("dlen", 4))
	return t
}

func sameTag(a, b flvio.Tag) bool {
	r := vf.And(vf.And(a.Type == b.Type, a.Time == b.Time), a.StreamId == b.StreamId)
	r = vf.And(r, vf.And(vf.And(a.SoundFormat == b.SoundFormat, a.SoundRate == b.SoundRate), vf.And(a.SoundSize == b.SoundSize, a.SoundType == b.SoundType)))
	r = vf.And(r, vf.And(vf.And(a.AACPacketType == b.AACPacketType, a.FrameType == b.FrameType), vf.And(a.VideoFormat == b.VideoFormat, a.AVCPacketType == b.AVCPacketType)))
	r = vf.And(r, a.CTime == b.CTime)
	return len(a.Data) == len(b.Data) && vf.And(r, vf.BytesEq(a.Data, b.Data))
}

// two tags: the bytes are the FLV serialisation and read back as the same tags
//vf:bound two tags of any kind, every header field value, 32-bit times, payloads of 0..3 bytes
func VF_Tags() {
	t1, t2 := symTag(), symTag()
	s := &lib.Sink{}
	scratch := make([]byte, 256)
	vf.Assert(flvio.WriteTag(s, t1, scratch) == nil, "write 1")
	vf.Assert(flvio.WriteTag(s, t2, scratch) == nil, "write 2")
	want := append(lib.RefTag(t1), lib.RefTag(t2)...)
	vf.Assert(len(s.B) == len(want), "size of the tags")
	vf.Assert(vf.BytesEq(s.B, want), "bytes are the FLV serialisation")
	r := bytes.NewReader(s.B)
	mal := func(n int) ([]byte, error) { return make([]byte, n), nil }
	g1, err := flvio.ReadTag(r, scratch, mal)
	vf.Assert(err == nil, "read 1")
	g2, err := flvio.ReadTag(r, scratch, mal)
	vf.Assert(err == nil, "read 2")
	vf.Assert(sameTag(t1, g1), "first tag")
	vf.Assert(sameTag(t2, g2), "second tag")
	_, err = flvio.ReadTag(r, scratch, mal)
	vf.Assert(err == io.EOF, "then the end")
	vf.Cover("done")
}

// a muxed packet sequence is demuxed unchanged
//vf:bound 1..3 packets of any kind (AAC, H264, decoder configs, metadata), every 32-bit millisecond time, signed 24-bit composition offset, payloads of 0..2 bytes; both header flags
func VF_Packets() {
	n := 1 + vf.Choose("n", 3)
	w := &rw{}
	m := flv.NewMuxer(w)
	m.HasVideo, m.HasAudio = vf.Bool("hasv"), vf.Bool("hasa")
	m.Publishing = vf.Bool("pub")
	var in []av.Packet
	for i := 0; i < n; i++ {
		max := 2
		if i > 0 {
			max = 1
		}
		p := lib.SymPacket(vf.Choose("kind", 5), max)
		in = append(in, p)
		vf.Assert(m.WritePacket(p) == nil, "write succeeds")
	}
	vf.Assert(len(w.B) > 13 && string(w.B[:4]) == "FLV\x01", "signature")
	vf.Assert((w.B[4]&4 != 0) == m.HasAudio && (w.B[4]&1 != 0) == m.HasVideo, "audio/video flags")
	vf.Assert(vf.BytesEq(w.B[5:13], []byte{0, 0, 0, 9, 0, 0, 0, 0}), "header size and first back pointer")
	d := flv.NewDemuxer(bytes.NewReader(w.B))
	var flags uint8
	d.LogHeaderEvent = func(f uint8) { flags = f }
	for i := 0; i < n; i++ {
		p, err := d.ReadPacket()
		vf.Assert(err == nil, "read succeeds")
		vf.Assert(lib.SamePacket(in[i], p), "packet unchanged")
	}
	vf.Assert(flags == w.B[4], "flags reported")
	_, err := d.ReadPacket()
	vf.Assert(err == io.EOF, "then the end")
	vf.Cover("done")
}

// large payloads, beyond what one or two bytes of a length hold
//vf:bound a packet of any kind but metadata of 250..256, 65525..65536 or 65541 bytes, all zero but for arbitrary first and last ones, then one of 2 arbitrary bytes; times arbitrary
//vf:time 60
func VF_Large() {
	n := 65541
	if k := vf.Choose("size", 20); k < 7 {
		n = 250 + k
	} else if k < 19 {
		n = 65525 + k - 7
	}
	w := &rw{}
	m := flv.NewMuxer(w)
	p := lib.SymPacket(vf.Choose("kind", 4), 0)
	p.Data = make([]byte, n)
	p.Data[0], p.Data[n-1] = vf.U8("first"), vf.U8("last")
	q := lib.SymPacket(0, 0)
	q.Data = vf.Bytes("data", 2)
	vf.Assert(m.WritePacket(p) == nil && m.WritePacket(q) == nil, "write succeeds")
	head := 5
	if p.Type == av.AAC || p.Type == av.AACDecoderConfig {
		head = 2
	}
	vf.Assert(len(w.B) == 13+11+head+n+4+11+2+2+4, "size of the file")
	vf.Assert(vf.BytesEq(w.B[14:17], []byte{byte((n + head) >> 16), byte((n + head) >> 8), byte(n + head)}), "size of the tag")
	back := n + head + 11
	vf.Assert(vf.BytesEq(w.B[13+back:17+back], []byte{0, byte(back >> 16), byte(back >> 8), byte(back)}), "back pointer")
	d := flv.NewDemuxer(bytes.NewReader(w.B))
	for _, in := range []av.Packet{p, q} {
		out, err := d.ReadPacket()
		vf.Assert(err == nil, "read succeeds")
		vf.Assert(lib.SamePacket(in, out), "packet unchanged")
	}
	vf.Cover("done")
}

// the tag a packet is written as is the one FLV defines for it
//vf:bound every packet kind, time, offset, flag, payload of 0..2 bytes; metadata with and without publishing
func VF_PacketTag() {
	kind := vf.Choose("kind", 5)
	p := lib.SymPacket(kind, 2)
	pub := vf.Bool("pub")
	if kind == 2 {
		p.Time = time.Duration(vf.U32("ctm")) * time.Millisecond
	}
	var got []flvio.Tag
	err := flv.WritePacket(p, func(t flvio.Tag) error { got = append(got, t); return nil }, pub)
	vf.Assert(err == nil && len(got) == 1, "one tag per packet")
	g := got[0]
	if kind != 3 {
		vf.Assert(g.Time == uint32(p.Time/time.Millisecond), "tag time")
	}
	switch kind {
	case 0, 3:
		vf.Assert(g.Type == 8 && g.SoundFormat == 10 && g.SoundRate == 3, "AAC tag")
		vf.Assert(g.AACPacketType == byte([]int{1, 0, 0, 0}[kind]), "AAC packet type")
	case 1:
		vf.Assert(g.Type == 9 && g.VideoFormat == 7 && g.AVCPacketType == 1, "AVC tag")
		vf.Assert((g.FrameType == 1) == p.IsKeyFrame && (g.FrameType == 2) == !p.IsKeyFrame, "frame type")
	case 2:
		vf.Assert(g.Type == 9 && g.VideoFormat == 7 && g.AVCPacketType == 0 && g.FrameType == 1, "AVC sequence header tag")
	case 4:
		vals, err := flvio.ParseAMFVals(g.Data, false)
		vf.Assert(g.Type == 18 && err == nil, "script tag")
		if pub {
			s, _ := vals[0].(string)
			vf.Assert(s == "@setDataFrame", "published metadata is marked")
			vals = vals[1:]
		}
		s, _ := vals[0].(string)
		vf.Assert(len(vals) == 2 && s == "onMetaData", "metadata event name")
		vf.Assert(vf.BytesEq(flvio.FillAMF0ValsMalloc(vals[1:]), p.Data), "metadata values")
	}
	if kind < 4 {
		vf.Assert(vf.BytesEq(g.Data, p.Data), "payload")
	}
	i := 0
	q, err := flv.ReadPacket(func() (flvio.Tag, error) {
		if i > 0 {
			return flvio.Tag{}, io.EOF
		}
		i++
		return g, nil
	})
	vf.Assert(err == nil && lib.SamePacket(p, q), "reads back")
	vf.Cover("done")
}

// tags that carry no packet are skipped without losing the next packet
//vf:bound one tag of an unsupported audio/video format, end-of-sequence, unknown script or unknown tag type, then one packet
func VF_Skip() {
	t := symTag()
	switch vf.Choose("skip", 4) {
	case 0:
		vf.Assume(t.Type == 8 && t.SoundFormat != 10)
	case 1:
		vf.Assume(t.Type == 9 && t.VideoFormat != 7)
	case 2:
		vf.Assume(t.Type == 9 && t.VideoFormat == 7 && t.AVCPacketType > 1)
	case 3:
		vf.Assume(t.Type == 18)
		t.Data = flvio.FillAMF0ValsMalloc([]interface{}{"onCuePoint", float64(1)})
		if vf.Bool("other") {
			t = flvio.Tag{Type: vf.U8("type2"), Data: t.Data}
			vf.Assume(t.Type != 8 && t.Type != 9 && t.Type != 18 && t.Type != 15)
		}
	}
	p := lib.SymPacket(vf.Choose("kind", 5), 1)
	w := &rw{}
	m := flv.NewMuxer(w)
	vf.Assert(m.WriteTag(t) == nil && m.WritePacket(p) == nil, "writes")
	d := flv.NewDemuxer(bytes.NewReader(w.B))
	q, err := d.ReadPacket()
	vf.Assert(err == nil && lib.SamePacket(p, q), "the packet after a skipped tag")
	vf.Cover("done")
}

// metadata is delivered in AMF0 whatever form the tag had
//vf:bound AMF0 or AMF3-typed script tag, with or without @setDataFrame, one or no value after the event name
func VF_Metadata() {
	val := flvio.AMFMap{{K: "k", V: vf.String("v", 2)}}
	var vals []interface{}
	if vf.Bool("set") {
		vals = append(vals, "@setDataFrame")
	}
	vals = append(vals, "onMetaData")
	has := vf.Bool("has")
	if has {
		vals = append(vals, val)
	}
	data := flvio.FillAMF0ValsMalloc(vals)
	t := flvio.Tag{Type: flvio.TAG_AMF0, Data: data, Time: vf.U32("t")}
	if vf.Bool("amf3") {
		t.Type = flvio.TAG_AMF3
		t.Data = append([]byte{0}, data...)
	}
	first := true
	p, err := flv.ReadPacket(func() (flvio.Tag, error) {
		if !first {
			return flvio.Tag{}, io.EOF
		}
		first = false
		return t, nil
	})
	if !has {
		val = flvio.AMFMap{}
	}
	vf.Assert(err == nil && p.Type == av.Metadata, "metadata packet")
	vf.Assert(vf.BytesEq(p.Data, flvio.FillAMF0ValMalloc(val)), "metadata values")
	vf.Assert(p.Time == time.Duration(t.Time)*time.Millisecond, "metadata time")
	vf.Cover("done")
}

// a longer file header is skipped as the header says
//vf:bound 0..3 extra header bytes
func VF_FileHeader() {
	extra := vf.Bytes("extra", vf.Choose("n", 4))
	p := lib.SymPacket(0, 2)
	w := &rw{}
	m := flv.NewMuxer(w)
	vf.Assert(m.WritePacket(p) == nil, "write")
	b := append([]byte{}, w.B[:9]...)
	b[8] = byte(9 + len(extra))
	b = append(b, extra...)
	b = append(b, w.B[9:]...)
	d := flv.NewDemuxer(bytes.NewReader(b))
	q, err := d.ReadPacket()
	vf.Assert(err == nil && lib.SamePacket(p, q), "packet after a long header")
	vf.Cover("done")
}
