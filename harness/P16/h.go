package h

import (
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	vf "github.com/nareix/joy5/zzvf"
)

// run calls a parser on b: it may return anything, but must return, allocate
// in proportion and leave the input alone
func run(b []byte, f func(b []byte)) {
	keep := append([]byte(nil), b...)
	full := append(b, 0xee, 0xee)
	vf.AllocLimit(4096 + 64*len(b))
	f(full[:len(b):len(b)])
	vf.Assert(vf.BytesEq(full[:len(b)], keep), "input is left alone")
	vf.Cover("done")
}

// short parameter sets of any content
//vf:bound every byte string of 0..3 bytes (thorough 4) as SPS, SPS id and PPS, and as a unit added to a codec
//vf:hang
//vf:time 60
//vf:ttime 800
func VF_SPSAny() {
	b := vf.Bytes("b", vf.Choose("len", vf.Tier(4, 5)))
	k := vf.Choose("as", 4)
	run(b, func(b []byte) {
		switch k {
		case 0:
			h264.ParseSPS(b)
		case 1:
			h264.ParseSPSId(b)
		case 2:
			h264.ParsePPS(b)
		case 3:
			c := h264.NewCodec()
			c.AddSPSPPS(b)
			c.ToConfig()
			vf.Assert(len(c.ConfigBytes) == c.Len(), "record length")
		}
	})
}

// SPS with plausible headers, then anything
//vf:bound 67, profile 66, 100 or 244, two arbitrary bytes, then one of five heads that lead into each part of the syntax, then every string of 0..2 bytes (thorough 3), in place or cut after any number of bits of it
//vf:hang
//vf:time 60
//vf:ttime 800
func VF_SPSTail() {
	b := []byte{0x67, []byte{66, 100, 244}[vf.Choose("profile", 3)], vf.U8("cons"), vf.U8("level")}
	b = append(b, [][]byte{
		{},
		{0xac},             // scaling matrix, 4:2:0
		{0x90},             // 4:4:4
		{0xd4, 0x40},       // order count type 1
		{0xf4, 0x05, 0xa1}, // up to the picture size and VUI
	}[vf.Choose("head", 5)]...)
	b = append(b, vf.Bytes("tail", vf.Choose("n", vf.Tier(3, 4)))...)
	run(b, func(b []byte) { h264.ParseSPS(b) })
}

// huge codes
//vf:bound an SPS whose id, chroma format, order count type, cycle length or size is one of the largest exp-Golomb codes: up to 36 zero bits, then arbitrary 2 bytes
//vf:hang
func VF_SPSHuge() {
	b := []byte{0x67, []byte{66, 100}[vf.Choose("profile", 2)], 0, 30}
	b = append(b, [][]byte{{}, {0x80}, {0xc0}, {0xd0}, {0xe8}}[vf.Choose("head", 5)]...)
	z := vf.Choose("zeros", 5)
	for i := 0; i < z; i++ {
		b = append(b, 0)
		if i%2 == 1 {
			b = append(b, 3)
		}
	}
	b = append(b, vf.Bytes("tail", 2)...)
	b = append(b, 0xff, 0xff, 0xff, 0xff, 0xff)
	run(b, func(b []byte) { h264.ParseSPS(b) })
}

// decoder configuration records of any content
//vf:bound every byte string of 0..12 bytes (thorough 0..18) as a decoder configuration record 
//vf:hang
//vf:time 60
func VF_Record() {
	b := vf.Bytes("b", vf.Choose("len", vf.Tier(13, 19)))
	run(b, func(b []byte) {
		c, err := h264.FromDecoderConfig(b)
		if err != nil {
			return
		}
		n := 0
		for _, s := range c.SPS {
			n += len(s)
		}
		for _, s := range c.PPS {
			n += len(s)
		}
		vf.Assert(n <= len(b), "parameter sets are inside the input")
	})
}

// audio configurations and headers of any content
//vf:bound every byte string of 0..9 bytes as audio-specific config and as ADTS header
//vf:hang
//vf:time 60
func VF_AAC() {
	b := vf.Bytes("b", vf.Choose("len", 10))
	k := vf.Choose("as", 3)
	run(b, func(b []byte) {
		switch k {
		case 0:
			c, err := aac.ParseMPEG4AudioConfigBytes(b)
			if err == nil {
				vf.Assert(c.SampleRate > 0, "accepted config has a sample rate")
				aac.PacketDuration(c, nil)
			}
		case 1:
			if c, err := aac.FromMPEG4AudioConfigBytes(b); err == nil {
				aac.PacketDuration(c.Config, nil)
				vf.Assert(c.SampleFormat().BytesPerSample() > 0, "sample format")
			}
		case 2:
			if c, hl, fl, _, err := aac.ParseADTSHeader(b); err == nil {
				vf.Assert(fl >= hl && hl >= 7, "frame is at least its header")
				aac.PacketDuration(c, nil)
			}
		}
	})
}

// emulation prevention removal of any content
//vf:bound every byte string of 0..8 bytes
//vf:hang
func VF_Emulation() {
	b := vf.Bytes("b", vf.Choose("len", 9))
	run(b, func(b []byte) {
		r := h264.RemoveH264orH265EmulationBytes(b)
		vf.Assert(len(r) <= len(b), "no longer than the input")
	})
}
