package h

import (

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

func end() (*rtmp.Conn, *lib.Duplex) {
	d := &lib.Duplex{}
	c := rtmp.NewConn(d)
	c.Stage = rtmp.StageDataStart
	c.Publishing = true
	return c, d
}

// tagOf is a tag of a kind whose message body is n bytes
func tagOf(kind, n int) flvio.Tag {
	t := flvio.Tag{Time: vf.U32("time")}
	switch kind {
	case 0:
		t.Type = flvio.TAG_AUDIO
		t.SoundFormat = flvio.SOUND_AAC
		t.SoundRate, t.SoundSize, t.SoundType = 3, 1, vf.U8("chan")&1
		t.AACPacketType = vf.U8("aacpt") & 1
		n -= 2
	case 1:
		t.Type = flvio.TAG_VIDEO
		t.FrameType = vf.U8("frame") & 15
		t.VideoFormat = flvio.VIDEO_H264
		t.AVCPacketType = vf.U8("avcpt")
		t.CTime = int32(vf.U32("ctime")<<8) >> 8
		n -= 5
	case 2:
		t.Type = flvio.TAG_AMF0
	case 3:
		t.Type = flvio.TAG_AUDIO
		t.SoundFormat = vf.U8("fmt") & 7
		t.SoundRate, t.SoundSize, t.SoundType = vf.U8("rate")&3, vf.U8("size")&1, vf.U8("chan")&1
		n -= 1
	}
	if n < 0 {
		n = 0
	}
	t.Data = vf.Bytes("data", n)
	return t
}

func body(t flvio.Tag) []byte {
	b := lib.RefTag(t)
	return b[11 : len(b)-4]
}

func sameTag(a, b flvio.Tag) bool {
	r := vf.And(a.Type == b.Type, a.Time == b.Time)
	r = vf.And(r, vf.And(vf.And(a.SoundFormat == b.SoundFormat, a.SoundRate == b.SoundRate), vf.And(a.SoundSize == b.SoundSize, a.SoundType == b.SoundType)))
	r = vf.And(r, vf.And(vf.And(a.AACPacketType == b.AACPacketType, a.FrameType == b.FrameType), vf.And(a.VideoFormat == b.VideoFormat, a.AVCPacketType == b.AVCPacketType)))
	r = vf.And(r, a.CTime == b.CTime)
	return len(a.Data) == len(b.Data) && vf.And(r, vf.BytesEq(a.Data, b.Data))
}

var sizes = []int{5, 127, 128, 129, 133, 255, 256, 257, 384, 6, 0, 300}

// every tag is chunked as RTMP defines, is on the wire when the write
// returns, and is read back as it was
//vf:bound one to two tags (audio AAC and other, video, script), every 32-bit time and header field, message bodies of 5..384 bytes around the multiples of the 128-byte chunk size; reads split in pieces of 5 bytes or whole
//vf:time 60
//vf:ttime 200
func VF_Tags() {
	c, d := end()
	n := 1 + vf.Choose("n", 2)
	var in []flvio.Tag
	for i := 0; i < n; i++ {
		// a single tag: every kind and size; two tags: fewer sizes
		ns := len(sizes)
		if n == 2 {
			ns = vf.Tier(4, 8)
		}
		sz := sizes[vf.Choose("size", ns)]
		if i > 0 {
			sz = sizes[vf.Choose("size2", 3)]
		}
		t := tagOf(vf.Choose("kind", 4), sz)
		in = append(in, t)
		vf.Assert(c.WriteTag(t) == nil, "write")
		msgs, ok := lib.RefDechunk(d.Out, 128)
		vf.Assert(ok && len(msgs) == i+1, "the written tags are complete on the wire")
	}
	msgs, _ := lib.RefDechunk(d.Out, 128)
	for i, m := range msgs {
		vf.Assert(m.Type == in[i].Type, "message type")
		vf.Assert(m.Time == in[i].Time, "message timestamp")
		vf.Assert(vf.BytesEq(m.Data, body(in[i])), "message body")
	}
	k := 4096
	if vf.Bool("split") {
		k = 5
	}
	r2 := rtmp.NewConn(&lib.Duplex{In: lib.Chunked{B: d.Out, K: k}})
	r2.Stage = rtmp.StageDataStart
	for i := range in {
		t, err := r2.ReadTag()
		vf.Assert(err == nil, "read")
		vf.Assert(sameTag(in[i], t), "tag unchanged")
	}
	_, err := r2.ReadTag()
	vf.Assert(err == lib.EOF, "then the end")
	vf.Cover("done")
}

// chunk size changes between messages are followed by the reader
//vf:bound reader follows one or two SetChunkSize messages of 1..2^31-1 (sizes 1, 2, 127, 129, 4096, 2^31-1), bodies of 5..200 bytes
func VF_ChunkSize() {
	w, d := end()
	_ = w
	chunk := 128
	var b []byte
	var want []lib.Msg
	for i := 0; i < 2; i++ {
		sz := []int{1, 2, 127, 129, 4096, 1<<31 - 1}[vf.Choose("cs", 6)]
		vf.Assert(w.WriteSetChunkSize(sz, func(p []byte) error { b = append(b, p...); return nil }) == nil, "write chunk size")
		if msgs, ok := lib.RefDechunk(b[len(b)-16:], 128); i == 0 {
			vf.Assert(ok && len(msgs) == 1 && msgs[0].Type == 1, "chunk size message")
			m := msgs[0].Data
			vf.Assert(len(m) == 4 && int(uint32(m[0])<<24|uint32(m[1])<<16|uint32(m[2])<<8|uint32(m[3])) == sz, "chunk size value")
		}
		if i == 1 && chunk < 4 {
			// the control message itself has to respect the size in force
			b = b[:len(b)-16]
			b = append(b, lib.ChunkMsg(lib.Msg{Csid: 2, Type: 1, Data: []byte{byte(sz >> 24), byte(sz >> 16), byte(sz >> 8), byte(sz)}}, chunk)...)
		}
		chunk = sz
		n := []int{0, 5, 200}[vf.Choose("n", 3)]
		m := lib.Msg{Csid: 4, Type: 18, Time: vf.U32("t"), Data: vf.Bytes("d", n)}
		b = append(b, lib.ChunkMsg(m, chunk)...)
		want = append(want, m)
	}
	_ = d
	r := rtmp.NewConn(&lib.Duplex{In: lib.Chunked{B: b, K: 4096}})
	r.Stage = rtmp.StageDataStart
	for _, m := range want {
		t, err := r.ReadTag()
		vf.Assert(err == nil, "read")
		vf.Assert(t.Type == m.Type && t.Time == m.Time && vf.BytesEq(t.Data, m.Data), "message unchanged")
	}
	vf.Cover("done")
}

// packets survive the RTMP transport
//vf:bound 1..2 packets of any kind, every 32-bit millisecond time and 24-bit offset, payloads of 0..2 bytes or 130 bytes
func VF_Packets() {
	c, d := end()
	n := 1 + vf.Choose("n", 2)
	var in []av.Packet
	for i := 0; i < n; i++ {
		p := lib.SymPacket(vf.Choose("kind", 5), 2)
		if i == 0 && p.Type != av.Metadata && vf.Bool("big") {
			p.Data = append(p.Data, vf.Bytes("more", 130)...)
		}
		in = append(in, p)
		vf.Assert(c.WritePacket(p) == nil, "write")
	}
	r := rtmp.NewConn(&lib.Duplex{In: lib.Chunked{B: d.Out, K: 4096}})
	r.Stage = rtmp.StageDataStart
	for i := range in {
		p, err := r.ReadPacket()
		vf.Assert(err == nil && lib.SamePacket(in[i], p), "packet unchanged")
	}
	_, err := r.ReadPacket()
	vf.Assert(err == lib.EOF, "then the end")
	vf.Cover("done")
}
