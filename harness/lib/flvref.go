package lib

import (
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv/flvio"
	vf "github.com/nareix/joy5/zzvf"
)

// RefTag is the FLV serialisation of a tag, from the FLV specification.
func RefTag(t flvio.Tag) []byte {
	var body []byte
	switch t.Type {
	case 8:
		body = append(body, t.SoundFormat<<4|t.SoundRate<<2|t.SoundSize<<1|t.SoundType)
		if t.SoundFormat == 10 {
			body = append(body, t.AACPacketType)
		}
	case 9:
		body = append(body, t.FrameType<<4|t.VideoFormat)
		if t.VideoFormat == 7 || t.VideoFormat == 12 {
			c := uint32(t.CTime)
			body = append(body, t.AVCPacketType, byte(c>>16), byte(c>>8), byte(c))
		}
	}
	body = append(body, t.Data...)
	n := len(body)
	b := []byte{t.Type, byte(n >> 16), byte(n >> 8), byte(n), byte(t.Time >> 16), byte(t.Time >> 8), byte(t.Time), byte(t.Time >> 24),
		byte(t.StreamId >> 16), byte(t.StreamId >> 8), byte(t.StreamId)}
	b = append(b, body...)
	p := n + 11
	return append(b, byte(p>>24), byte(p>>16), byte(p>>8), byte(p))
}

// SymPacket is an arbitrary packet an FLV stream can carry. Configuration
// packets have time 0 (their time is not part of the claim).
func SymPacket(kind int, maxData int) av.Packet {
	p := av.Packet{}
	switch kind {
	case 0:
		p.Type = av.AAC
	case 1:
		p.Type = av.H264
		p.IsKeyFrame = vf.Bool("key")
		c := int32(vf.U32("ctime")<<8) >> 8
		p.CTime = time.Duration(c) * time.Millisecond
	case 2:
		p.Type = av.H264DecoderConfig
	case 3:
		p.Type = av.AACDecoderConfig
	case 4:
		p.Type = av.Metadata
		p.Data = flvio.FillAMF0ValMalloc(flvio.AMFMap{{K: "k", V: vf.String("mv", 2)}, {K: "w", V: vf.Bool("mb")}})
	}
	if kind != 4 {
		p.Data = vf.Bytes("data", vf.Choose("dlen", maxData+1))
	}
	if kind < 2 || kind == 4 {
		p.Time = time.Duration(vf.U32("time")) * time.Millisecond
	}
	return p
}

// SamePacket compares what a reader of the stream can observe.
func SamePacket(a, b av.Packet) bool {
	if a.Type != b.Type || len(a.Data) != len(b.Data) {
		return false
	}
	r := vf.BytesEq(a.Data, b.Data)
	if a.Type == av.H264 || a.Type == av.AAC || a.Type == av.Metadata {
		r = vf.And(r, a.Time == b.Time)
	}
	if a.Type == av.H264 {
		r = vf.And(r, vf.And(a.CTime == b.CTime, a.IsKeyFrame == b.IsKeyFrame))
	}
	return r
}
