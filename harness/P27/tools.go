// The conversion tools change only what they are meant to change.
//
//vf:dir cmd/avtool
package main

import (
	"bytes"
	"io"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/utils/bits/pio"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
	"github.com/nareix/joy5/zzvf/lib/vfs"
)

type vfSeeker struct{ lib.Sink }

func (s *vfSeeker) Seek(off int64, whence int) (int64, error) { return 0, io.EOF }

func vfMux(in []av.Packet) []byte {
	s := &vfSeeker{}
	m := flv.NewMuxer(format.NewStreamsWriteSeeker(s, nil))
	for _, p := range in {
		vf.Assert(m.WritePacket(p) == nil, "written")
	}
	if len(in) == 0 {
		return []byte{'F', 'L', 'V', 1, 5, 0, 0, 0, 9, 0, 0, 0, 0}
	}
	return s.B
}

func vfDemux(b []byte) (out []av.Packet) {
	d := flv.NewDemuxer(bytes.NewReader(b))
	for {
		p, err := d.ReadPacket()
		if err != nil {
			vf.Assert(err == io.EOF, "a complete file")
			return
		}
		out = append(out, p)
	}
}

// vfFiles runs a tool on a file.
func vfFiles(in []av.Packet, run func(src, dst string) error) []av.Packet {
	fs := vfs.Use()
	src := fs.Put("/in.flv", vfMux(in))
	was := append([]byte(nil), src.Data...)
	other := fs.Put("/tmp/a.h264", []byte{1})
	err := run("/in.flv", "/out.flv")
	vf.Assert(err == nil, "success at the end of the input")
	vf.Assert(vf.BytesEq(src.Data, was) && !src.Truncated, "the input is left alone")
	vf.Assert(!other.Truncated && len(other.Data) == 1, "other files are left alone")
	dst := fs.Files["/out.flv"]
	if dst == nil {
		vf.Assert(len(in) == 0, "there is an output")
		return nil
	}
	vf.Assert(len(fs.Files) == 3, "no other file is made")
	if len(dst.Data) == 0 {
		return nil
	}
	return vfDemux(dst.Data)
}

// vfNALUs makes up the NAL units of a packet: 1+l bytes each, not parameter
// sets, length-prefixed.
func vfNALUs(n, l int) (nalus [][]byte, avcc []byte) {
	for i := 0; i < n; i++ {
		u := append([]byte{1 + 4*byte(vf.Choose("idr", 2))}, vf.Bytes("nalu", l)...)
		vf.Assume(u[l] != 0)
		nalus = append(nalus, u)
		avcc = append(avcc, 0, 0, 0, byte(len(u)))
		avcc = append(avcc, u...)
	}
	return
}

// vfIsAnnexb tells whether b is the NAL units, each after a start code.
func vfIsAnnexb(b []byte, nalus [][]byte) bool {
	same := true
	for _, u := range nalus {
		n := 0
		for n < len(b) && b[n] == 0 {
			n++
		}
		if n < 2 || len(b) < n+1+len(u) || b[n] != 1 {
			return false
		}
		same = vf.And(same, vf.BytesEq(b[n+1:n+1+len(u)], u))
		b = b[n+1+len(u):]
	}
	return same && len(b) == 0
}

func vfTime() time.Duration { return time.Duration(vf.U32("time")) * time.Millisecond }

// conv copies every packet
//
//vf:bound FLV files of 0..3 (thorough 0..4) packets of any kind, times and 0..1 payload bytes arbitrary
//vf:time 60
func VF_Conv() {
	optDontPrintPkt = true
	var in []av.Packet
	for i, n := 0, vf.Choose("n", vf.Tier(4, 5)); i < n; i++ {
		in = append(in, lib.SymPacket(vf.Choose("kind", 5), 1))
	}
	out := vfFiles(in, doConv)
	vf.Assert(len(out) == len(in), "every packet, and no other")
	for i := range in {
		vf.Assert(lib.SamePacket(in[i], out[i]), "unchanged and in order")
	}
	vf.Cover("end")
}

// conv reports what goes wrong
//
//vf:bound an FLV file of one packet cut short anywhere, or a destination that is not supported or whose 1st..4th write fails
//vf:time 60
func VF_ConvFails() {
	optDontPrintPkt = true
	fs := vfs.Use()
	src := fs.Put("/in.flv", vfMux([]av.Packet{{Type: av.AAC, Data: vf.Bytes("data", 1)}}))
	dst := "/out.flv"
	switch vf.Choose("what", 3) {
	case 0:
		// all but the whole file, the header and nothing
		n := vf.Choose("cut", len(src.Data))
		vf.Assume(n > 13)
		src.Data = src.Data[:n]
		vf.Cover("cut")
	case 1:
		dst = "/out.xyz"
	case 2:
		fs.Put(dst, nil).FailWrite = 1 + vf.Choose("at", 2)
		vf.Cover("full")
	}
	vf.Assert(doConv("/in.flv", dst) != nil, "an error")
}

const vfConfigs = 3

// vfConfig is an H.264 configuration with one or two parameter sets of a kind.
func vfConfig(k int) (data []byte, sets [][]byte) {
	sps := [][]byte{{0x67, 66, 0, 30, 0xf4, 0x0b, 0x04, 0xb2}}
	pps := [][]byte{{0x68, 0xce, 0x3c}}
	switch k {
	case 1:
		pps = append(pps, []byte{0x68, 0x50, 0x3c})
	case 2:
		pps[0] = []byte{0x68, 0xce, 0x06}
	}
	data = []byte{1, 66, 0, 30, 0xff, 0xe0 | byte(len(sps))}
	for _, s := range sps {
		data = append(append(data, 0, byte(len(s))), s...)
	}
	data = append(data, byte(len(pps)))
	for _, s := range pps {
		data = append(append(data, 0, byte(len(s))), s...)
	}
	return data, append(sps, pps...)
}

// moving sequence headers to the key frames
//
//vf:bound FLV files of 1..3 (thorough 1..4) packets: one of 3 video configurations, audio, metadata, and video of 1..2 NAL units of 2 (thorough 2..3) arbitrary bytes, key frame or not; times arbitrary
//vf:time 60
//vf:ttime 200
func VF_MoveSeqhdr() {
	var in, want []av.Packet
	var units [][][]byte
	var sets [][]byte
	for i, n := 0, 1+vf.Choose("n", vf.Tier(3, 4)); i < n; i++ {
		switch k := vf.Choose("kind", 3); k {
		case 0:
			p := av.Packet{Type: av.H264DecoderConfig}
			p.Data, sets = vfConfig(vf.Choose("config", vfConfigs))
			in = append(in, p)
			vf.Cover("config")
		case 1:
			nalus, data := vfNALUs(1+vf.Choose("nalus", 2), 1+vf.Choose("len", vf.Tier(1, 2)))
			p := av.Packet{Type: av.H264, IsKeyFrame: vf.Choose("key", 2) == 1, Data: data, Time: vfTime()}
			in, want = append(in, p), append(want, p)
			if p.IsKeyFrame {
				nalus = append(append([][]byte(nil), sets...), nalus...)
			}
			units = append(units, nalus)
			vf.Cover("video")
		default:
			p := lib.SymPacket([]int{0, 4}[vf.Choose("other", 2)], 1)
			in, want, units = append(in, p), append(want, p), append(units, nil)
		}
	}
	out := vfFiles(in, doMoveH264SeqhdrToKeyFrame)
	vf.Assert(len(out) == len(want), "every packet but the configurations, and no other")
	for i, p := range want {
		if units[i] != nil {
			vf.Assert(vfIsAnnexb(out[i].Data, units[i]), "the NAL units with start codes, after the parameter sets if a key frame")
			p.Data = out[i].Data
		}
		vf.Assert(lib.SamePacket(p, out[i]), "otherwise unchanged and in order")
	}
}

// start codes in the place of lengths
//
//vf:bound FLV files of 0..2 (thorough 0..4) packets: video of 1..2 NAL units of 2 (thorough 2..3) arbitrary bytes, key frame or not, or any other kind; times arbitrary
//vf:time 60
//vf:ttime 200
func VF_Annexb() {
	var in []av.Packet
	var units [][][]byte
	for i, n := 0, vf.Choose("n", vf.Tier(3, 5)); i < n; i++ {
		if k := vf.Choose("kind", 5); k != 1 {
			in, units = append(in, lib.SymPacket(k, 1)), append(units, nil)
			continue
		}
		nalus, data := vfNALUs(1+vf.Choose("nalus", 2), 1+vf.Choose("len", vf.Tier(1, 2)))
		in = append(in, av.Packet{Type: av.H264, IsKeyFrame: vf.Choose("key", 2) == 1, Data: data, Time: vfTime()})
		units = append(units, nalus)
		vf.Cover("video")
	}
	out := vfFiles(in, doAvcc2Annexb)
	vf.Assert(len(out) == len(in), "every packet, and no other")
	for i, p := range in {
		q := out[i]
		if units[i] != nil {
			b := q.Data
			vf.Assert(len(b) > 4 && int(pio.U32BE(b)) == len(b)-4, "one length-prefixed unit")
			vf.Assert(vfIsAnnexb(b[4:], units[i]), "the NAL units with start codes")
			q.Data = p.Data
		}
		vf.Assert(lib.SamePacket(p, q), "otherwise unchanged and in order")
	}
}
