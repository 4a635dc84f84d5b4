package h

import (
	"bytes"
	"errors"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

type rw struct{ lib.Sink }

func (r *rw) Streams() ([]interface{}, error) { return nil, nil }

var errBig = errors.New("too big")

func demuxer(b []byte) *flv.Demuxer {
	d := flv.NewDemuxer(bytes.NewReader(b))
	d.Malloc = func(n int) ([]byte, error) {
		vf.Assert(n >= 0 && n < 1<<24, "payload size is a 24 bit value")
		if n > len(b) {
			return nil, errBig // the file cannot contain it
		}
		return make([]byte, n), nil
	}
	return d
}

// any bytes as a file
//vf:bound every byte string of 0, 5, 12, 13, 23, 28, 30 bytes (thorough also 32 and 34) read to the end (up to 3 tags)
//vf:hang
//vf:time 60
//vf:ttime 300
func VF_Any() {
	L := []int{0, 5, 12, 13, 23, 28, 30, 32, 34}[vf.Choose("len", vf.Tier(7, 9))]
	b := vf.Bytes("b", L)
	if L > 13 {
		copy(b, []byte{'F', 'L', 'V'})
		copy(b[5:], []byte{0, 0, 0, 9 | b[8]&1})
	}
	d := demuxer(b)
	for i := 0; ; i++ {
		p, err := d.ReadPacket()
		if err != nil {
			vf.Cover("error")
			return
		}
		vf.Assert(i < 3, "no more packets than bytes")
		vf.Assert(len(p.Data) <= L, "no more data than the file")
		vf.Cover("packet")
	}
}

// a tag of any bytes is decoded as the FLV specification says, or rejected
//vf:bound every tag header and every body of 0..9 bytes after a valid file header, complete or cut anywhere
//vf:time 60
func VF_TagRef() {
	n := vf.Choose("body", 10)
	hdr := vf.Bytes("hdr", 11)
	hdr[1], hdr[2] = 0, 0
	hdr[3] = byte(n)
	vf.Assume(hdr[0] != 15 && hdr[0] != 18)
	body := vf.Bytes("data", n)
	b := []byte("FLV\x01\x05\x00\x00\x00\x09\x00\x00\x00\x00")
	b = append(append(append(b, hdr...), body...), vf.Bytes("back", 4)...)
	full := len(b)
	cut := vf.Choose("cut", 11+n+4+1)
	b = b[:full-cut]
	d := demuxer(b)
	p, err := d.ReadPacket()
	if cut > 0 {
		vf.Assert(err != nil, "an incomplete tag is never delivered")
		vf.Cover("cut")
		return
	}
	ts := uint32(hdr[7])<<24 | uint32(hdr[4])<<16 | uint32(hdr[5])<<8 | uint32(hdr[6])
	want := av.Packet{Time: time.Duration(ts) * time.Millisecond}
	ok := false
	switch hdr[0] {
	case 8:
		if n >= 2 && body[0]>>4 == 10 && body[1] <= 1 {
			ok = true
			want.Data = body[2:]
			want.Type = av.AAC
			if body[1] == 0 {
				want.Type = av.AACDecoderConfig
			}
		}
	case 9:
		if n >= 5 && body[0]&15 == 7 && body[1] <= 1 {
			ok = true
			want.Data = body[5:]
			want.Type = av.H264
			want.IsKeyFrame = body[0]>>4 == 1
			want.CTime = time.Duration(int32(uint32(body[2])<<24|uint32(body[3])<<16|uint32(body[4])<<8)>>8) * time.Millisecond
			if body[1] == 0 {
				want.Type = av.H264DecoderConfig
			}
		}
	}
	if ok {
		vf.Assert(err == nil && lib.SamePacket(want, p), "packet as the tag describes it")
		vf.Cover("packet")
	} else {
		vf.Assert(err != nil, "nothing to deliver")
		vf.Cover("none")
	}
}

// a file cut anywhere delivers exactly the packets that are complete
//vf:bound 2 packets of any kind with payloads of 0..1 bytes, cut at every byte, read in pieces of at most 1, 3 or 64 bytes
//vf:time 60
func VF_Cut() {
	w := &rw{}
	m := flv.NewMuxer(w)
	var in []av.Packet
	var end []int
	for i := 0; i < 2; i++ {
		p := lib.SymPacket(vf.Choose("kind", 4), 1)
		vf.Assert(m.WritePacket(p) == nil, "write succeeds")
		in = append(in, p)
		end = append(end, len(w.B))
	}
	cut := vf.Choose("cut", len(w.B)+1)
	d := flv.NewDemuxer(&lib.Chunked{B: w.B[:cut], K: []int{1, 3, 64}[vf.Choose("pieces", 3)]})
	for i := 0; i < 2; i++ {
		p, err := d.ReadPacket()
		if cut < end[i] {
			vf.Assert(err != nil, "an incomplete packet is an error")
			vf.Cover("incomplete")
			return
		}
		vf.Assert(err == nil && lib.SamePacket(in[i], p), "a complete packet is delivered")
		vf.Cover("complete")
	}
	_, err := d.ReadPacket()
	vf.Assert(err != nil, "end")
}

// hostile script data never crashes the reader and cannot hide the next packet
//vf:bound script tag (AMF0 or AMF3) with every body of 0..4 (thorough 0..6) bytes followed by a packet
//vf:time 60
//vf:ttime 300
func VF_Script() {
	n := vf.Choose("n", vf.Tier(5, 7))
	t := flvio.Tag{Type: flvio.TAG_AMF0, Data: vf.Bytes("body", n)}
	if vf.Bool("amf3") {
		t.Type = flvio.TAG_AMF3
	}
	p := lib.SymPacket(0, 1)
	w := &rw{}
	m := flv.NewMuxer(w)
	vf.Assert(m.WriteTag(t) == nil && m.WritePacket(p) == nil, "writes")
	d := flv.NewDemuxer(bytes.NewReader(w.B))
	q, err := d.ReadPacket()
	vf.Assert(err == nil, "readable")
	vf.Assert(lib.SamePacket(p, q), "the packet after the script")
	vf.Cover("done")
}
