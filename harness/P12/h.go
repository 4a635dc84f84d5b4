package h

import (
	"github.com/nareix/joy5/codec/h264"
	vf "github.com/nareix/joy5/zzvf"
)

// validNALU: what an encoder puts between start codes - emulation prevention
// keeps 00 00 00, 00 00 01 and 00 00 02 out and the last byte is not zero
func validNALU(b []byte) {
	for i := 0; i+2 < len(b); i++ {
		vf.Assume(vf.Or(vf.Or(b[i] != 0, b[i+1] != 0), b[i+2] > 2))
	}
	vf.Assume(b[len(b)-1] != 0)
}

func same(got, want [][]byte) {
	vf.Assert(len(got) == len(want), "number of NAL units")
	for i := range want {
		vf.Assert(len(got[i]) == len(want[i]), "length of a NAL unit")
		vf.Assert(vf.BytesEq(got[i], want[i]), "bytes of a NAL unit")
	}
}

// units joined with length prefixes split into the same units
//vf:bound 1..4 NAL units of 0..3 arbitrary bytes each (thorough 1..5 of 0..4), both joiners
func VF_JoinSplitAVCC() {
	var nalus [][]byte
	n := 1 + vf.Choose("n", vf.Tier(4, 5))
	for i := 0; i < n; i++ {
		nalus = append(nalus, vf.Bytes("nalu", vf.Choose("len", vf.Tier(4, 5))))
	}
	var b []byte
	if vf.Choose("join", 2) == 0 {
		b = h264.JoinNALUsAVCC(nalus)
	} else {
		b = h264.FillNALUsAVCC(nalus)
	}
	p := 0
	for _, u := range nalus {
		vf.Assert(vf.BytesEq(b[p:p+4], []byte{0, 0, 0, byte(len(u))}), "length prefix")
		vf.Assert(vf.BytesEq(b[p+4:p+4+len(u)], u), "unit after its prefix")
		p += 4 + len(u)
	}
	vf.Assert(p == len(b), "joined length")
	got, typ := h264.SplitNALUs(b)
	vf.Assert(typ == h264.NALU_AVCC, "recognised as length-prefixed")
	vf.Assert(h264.CheckNALUsType(b) == typ, "same answer from CheckNALUsType")
	same(got, nalus)
	vf.Cover("done")
}

// one unit whose length needs more than one byte of the prefix
//vf:bound 1 or 2 NAL units; the first of 255..257 or 65535..65537 bytes, all zero but for two arbitrary ones
func VF_LongAVCC() {
	l := []int{255, 256, 257, 65535, 65536, 65537}[vf.Choose("len", 6)]
	u := make([]byte, l)
	u[0], u[l-1] = vf.U8("first"), vf.U8("last")
	nalus := [][]byte{u}
	if vf.Choose("two", 2) == 1 {
		nalus = append(nalus, vf.Bytes("second", 2))
	}
	got, typ := h264.SplitNALUs(h264.JoinNALUsAVCC(nalus))
	vf.Assert(typ == h264.NALU_AVCC, "recognised as length-prefixed")
	same(got, nalus)
	vf.Cover("done")
}

// units between start codes of either length, with zero padding, split into the same units
//vf:bound 1..3 encoder-valid NAL units of 1..3 arbitrary bytes each (the third of 1), 3- or 4-byte start codes, 0..2 more zero bytes before each and after the last (thorough: units of 1..4 bytes, the third of 1..2)
//vf:ttime 800
func VF_SplitAnnexB() {
	var nalus [][]byte
	var b []byte
	n := 1 + vf.Choose("n", 3)
	m := vf.Tier(3, 4)
	for i := 0; i < n; i++ {
		k := m
		if i == 2 {
			k = vf.Tier(1, 2)
		}
		u := vf.Bytes("nalu", 1+vf.Choose("len", k))
		validNALU(u)
		nalus = append(nalus, u)
		z := vf.Choose("zeros", 4)
		if i == 1 && z == 2 {
			z = 0
		}
		b = append(b, make([]byte, z)...)
		b = append(b, 0, 0, 1)
		b = append(b, u...)
	}
	b = append(b, make([]byte, vf.Choose("trail", 3))...)
	got, _ := h264.SplitNALUs(b)
	// a length prefix of zero is an empty unit where the bytes happen to be both framings
	var ne [][]byte
	for _, u := range got {
		if len(u) > 0 {
			ne = append(ne, u)
		}
	}
	same(ne, nalus)
	vf.Cover("done")
}

// units joined with start codes split into the same units
//vf:bound 1..3 encoder-valid NAL units of 1..4 arbitrary bytes each, both joiners
func VF_JoinSplitAnnexB() {
	var nalus [][]byte
	n := 1 + vf.Choose("n", 3)
	for i := 0; i < n; i++ {
		u := vf.Bytes("nalu", 1+vf.Choose("len", 4-i/2))
		validNALU(u)
		nalus = append(nalus, u)
	}
	var b []byte
	if vf.Choose("join", 2) == 0 {
		b = h264.JoinNALUsAnnexb(nalus)
	} else {
		b = h264.FillNALUsAnnexb(nalus)
	}
	p := 0
	for _, u := range nalus {
		if p+4 <= len(b) && vf.BytesEq(b[p:p+4], []byte{0, 0, 0, 1}) {
			p++
		}
		vf.Assert(p+3+len(u) <= len(b), "joined length")
		vf.Assert(vf.BytesEq(b[p:p+3], []byte{0, 0, 1}), "start code")
		vf.Assert(vf.BytesEq(b[p+3:p+3+len(u)], u), "unit after its start code")
		p += 3 + len(u)
	}
	vf.Assert(p == len(b), "joined length")
	got, typ := h264.SplitNALUs(b)
	vf.Assert(typ == h264.NALU_ANNEXB, "recognised as Annex B")
	vf.Assert(h264.CheckNALUsType(b) == typ, "same answer from CheckNALUsType")
	same(got, nalus)
	vf.Cover("done")
}

type span struct{ nalu, data, end int }

func refAVCC(b []byte) (out []span, ok bool) {
	for i := 0; i < len(b); {
		if len(b)-i < 4 {
			return nil, false
		}
		l := uint64(b[i])<<24 | uint64(b[i+1])<<16 | uint64(b[i+2])<<8 | uint64(b[i+3])
		if l > uint64(len(b)-i-4) {
			return nil, false
		}
		n := vf.Conc(int(l))
		out = append(out, span{i, i + 4, i + 4 + n})
		i += 4 + n
	}
	return out, len(b) > 0
}

func refAnnexB(b []byte) (out []span, ok bool) {
	from, start := 0, 0
	for i := 0; i <= len(b); i++ {
		code := i+2 < len(b) && b[i] == 0 && b[i+1] == 0 && b[i+2] == 1
		if code || i == len(b) {
			end := i
			for end > from && b[end-1] == 0 {
				end--
			}
			if (ok || code) && end > from {
				out = append(out, span{start, from, end})
			}
		}
		if code {
			ok = true
			start, from = i, i+3
			if i > 0 && b[i-1] == 0 {
				start--
			}
		}
	}
	return
}

// any bytes at all: units are exactly those the framing marks out, in order, inside the input
//vf:bound every byte string of 0..9 bytes (thorough 0..10)
//vf:ttime 850
//vf:time 60
func VF_SplitAny() {
	b := vf.Bytes("b", vf.Choose("len", vf.Tier(10, 11)))
	keep := append([]byte(nil), b...)
	want, ok := refAVCC(b)
	typ := h264.NALU_AVCC
	if !ok {
		typ = h264.NALU_ANNEXB
		if want, ok = refAnnexB(b); !ok {
			typ = h264.NALU_RAW
			want = []span{{0, 0, len(b)}}
		}
	}
	got, gtyp := h264.SplitNALUsRetInfo(b)
	vf.Assert(gtyp == typ, "kind of framing")
	vf.Assert(len(got) == len(want), "number of NAL units")
	for i, w := range want {
		vf.Assert(got[i].DataStart == w.data && got[i].End == w.end, "place of a NAL unit")
		vf.Assert(got[i].NALUStart == w.nalu, "place of its prefix")
		vf.Assert(len(got[i].Data) == w.end-w.data, "length of a NAL unit")
		vf.Assert(vf.BytesEq(got[i].Data, keep[w.data:w.end]), "bytes of a NAL unit")
	}
	vf.Cover("done")
}

// length-prefixed input of any shape
//vf:bound a length-prefixed unit whose 32-bit length is arbitrary, followed by 0..6 arbitrary bytes
func VF_AVCCLength() {
	l := vf.U32("len")
	tail := vf.Bytes("tail", vf.Choose("n", 7))
	b := append([]byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}, tail...)
	got, typ := h264.SplitNALUs(b)
	if typ == h264.NALU_AVCC {
		vf.Assert(uint64(l) <= uint64(len(tail)), "length prefix is inside the input")
		vf.Assert(vf.BytesEq(got[0], tail[:vf.Conc(int(l))]), "first unit")
	}
	n := 0
	for _, u := range got {
		n += len(u)
	}
	vf.Assert(n <= len(b), "no more bytes than the input has")
	vf.Cover("done")
}
