package h

import (
	"bytes"
	"time"

	"github.com/nareix/joy5/codec/aac"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

var rates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

var layouts = []aac.ChannelLayout{
	0,
	aac.CH_FRONT_CENTER,
	aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT | aac.CH_BACK_CENTER,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT | aac.CH_BACK_LEFT | aac.CH_BACK_RIGHT,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT | aac.CH_BACK_LEFT | aac.CH_BACK_RIGHT | aac.CH_LOW_FREQ,
	aac.CH_FRONT_CENTER | aac.CH_FRONT_LEFT | aac.CH_FRONT_RIGHT | aac.CH_SIDE_LEFT | aac.CH_SIDE_RIGHT | aac.CH_BACK_LEFT | aac.CH_BACK_RIGHT | aac.CH_LOW_FREQ,
}

var counts = []int{0, 1, 2, 3, 4, 5, 6, 8}

// refASC is the audio-specific config, padded with zero bits
func refASC(ot, idx, rate, ch uint) []byte {
	w := &lib.BitBuf{}
	if ot >= 32 {
		w.Put(31, 5)
		w.Put(uint64(ot-32), 6)
	} else {
		w.Put(uint64(ot), 5)
	}
	w.Put(uint64(idx), 4)
	if idx == 15 {
		w.Put(uint64(rate), 24)
	}
	w.Put(uint64(ch), 4)
	for len(w.B)%8 != 0 {
		w.B = append(w.B, 0)
	}
	out := make([]byte, len(w.B)/8)
	for i, b := range w.B {
		out[i/8] |= b << uint(7-i%8)
	}
	return out
}

// objectType is any object type but those whose config starts differently (SBR, PS) or that only escapes
func objectType() uint {
	if vf.Choose("long type", 2) == 1 {
		return 32 + uint(vf.U8("type")&63)
	}
	t := uint(vf.U8("type") & 31)
	vf.Assume(t != 0 && t != 5 && t != 29 && t != 31)
	return t
}

func checkConfig(c aac.MPEG4AudioConfig, ot, idx, rate, ch uint) {
	vf.Assert(c.ObjectType == ot, "object type")
	vf.Assert(c.SampleRateIndex == idx, "sample rate index")
	vf.Assert(c.SampleRate == int(rate), "sample rate")
	vf.Assert(c.ChannelConfig == ch, "channel configuration")
	vf.Assert(c.ChannelLayout == layouts[ch], "channel layout")
	vf.Assert(c.ChannelLayout.Count() == counts[ch], "channel count")
	vf.Assert(c.IsValid(), "valid")
	vf.Assert(aac.PacketDuration(c, nil) == 1024*time.Second/time.Duration(rate), "frame duration")
}

// every config survives writing and parsing
//vf:bound every object type but SBR, PS and the escape value, every table sample rate given by index or by rate, every other 24-bit rate, channel configurations 0..7 given by number or by layout, 0..2 arbitrary bytes after the config
//vf:time 60
func VF_AudioSpecificConfig() {
	ot := objectType()
	ch := uint(vf.Choose("channels", 8))
	in := aac.MPEG4AudioConfig{ObjectType: ot}
	if vf.Choose("layout", 2) == 1 {
		in.ChannelLayout = layouts[ch]
	} else {
		in.ChannelConfig = ch
	}
	idx := uint(15)
	var rate uint
	switch vf.Choose("rate kind", 3) {
	case 0:
		idx = uint(vf.Choose("idx", 13))
		rate = uint(rates[idx])
		in.SampleRateIndex = idx
		in.SampleRate = int(rate)
	case 1:
		idx = uint(vf.Choose("idx", 13))
		rate = uint(rates[idx])
		in.SampleRate = int(rate)
	case 2:
		rate = uint(vf.U32("rate") & 0xffffff)
		vf.Assume(rate != 0)
		for _, r := range rates {
			vf.Assume(rate != uint(r))
		}
		in.SampleRate = int(rate)
		if vf.Choose("explicit", 2) == 1 {
			in.SampleRateIndex = 15
		}
	}
	var w bytes.Buffer
	vf.Assert(aac.WriteMPEG4AudioConfig(&w, in) == nil, "written")
	want := refASC(ot, idx, rate, ch)
	vf.Assert(len(w.Bytes()) == len(want), "config length")
	vf.Assert(vf.BytesEq(w.Bytes(), want), "config bits")
	b := append(append([]byte(nil), want...), vf.Bytes("more", vf.Choose("more", 3))...)
	c, err := aac.ParseMPEG4AudioConfigBytes(b)
	vf.Assert(err == nil, "parsed")
	checkConfig(c, ot, idx, rate, ch)
	k, err := aac.FromMPEG4AudioConfigBytes(b)
	vf.Assert(err == nil, "codec")
	checkConfig(k.Config, ot, idx, rate, ch)
	vf.Assert(vf.BytesEq(k.ConfigBytes, b), "codec keeps the config")
	vf.Cover("done")
}

// configs outside the tables are refused
//vf:bound every 16-bit config of a short object type
func VF_ConfigTables() {
	b := vf.Bytes("b", 2)
	vf.Assume(b[0]>>3 != 31)
	idx := uint(b[0]&7)<<1 | uint(b[1]>>7)
	ch := uint(b[1]>>3) & 15
	c, err := aac.ParseMPEG4AudioConfigBytes(b)
	if idx > 12 || ch > 7 {
		vf.Assert(err != nil, "reserved sample rate or channel configuration is refused")
		return
	}
	vf.Assert(err == nil, "accepted")
	vf.Assert(c.ObjectType == uint(b[0]>>3) && c.SampleRate == rates[idx] && c.ChannelConfig == ch, "fields")
	vf.Cover("done")
}

// an ADTS header says what was written
//vf:bound object types 1..4, all table rates, channel configurations 1..7, 1..4 blocks, payloads of 0..8184 bytes, header buffer with arbitrary old contents
func VF_ADTSWrite() {
	ot := uint(1 + vf.Choose("type", 4))
	idx := uint(vf.Choose("idx", 13))
	ch := uint(1 + vf.Choose("channels", 7))
	blocks := int(vf.U8("blocks")&3) + 1
	payload := int(vf.U16("payload"))
	vf.Assume(payload <= 8191-7)
	hdr := vf.Bytes("old", 9)
	end := append([]byte(nil), hdr[7:]...)
	aac.FillADTSHeader(hdr, aac.MPEG4AudioConfig{ObjectType: ot, SampleRateIndex: idx, ChannelConfig: ch}, blocks*1024, payload)
	vf.Assert(vf.BytesEq(hdr[7:], end), "only the header is written")
	// the bits of ISO 13818-7, whatever the buffer fullness
	fl := uint(payload + 7)
	vf.Assert(hdr[0] == 0xff && hdr[1]&0xf6 == 0xf0 && hdr[1]&1 == 1, "sync word, layer, no CRC")
	vf.Assert(uint(hdr[2]>>6) == ot-1, "profile")
	vf.Assert(uint(hdr[2]>>2&15) == idx, "sample rate index")
	vf.Assert(uint(hdr[2]&1)<<2|uint(hdr[3]>>6) == ch, "channel configuration")
	vf.Assert(uint(hdr[3]&3)<<11|uint(hdr[4])<<3|uint(hdr[5]>>5) == fl, "frame length")
	vf.Assert(int(hdr[6]&3) == blocks-1, "blocks")
	c, hl, gfl, n, err := aac.ParseADTSHeader(hdr[:7])
	vf.Assert(err == nil, "parsed")
	vf.Assert(hl == 7, "header length")
	vf.Assert(gfl == int(fl), "frame length parsed")
	vf.Assert(n == blocks*1024, "samples")
	checkConfig(c, ot, idx, uint(rates[idx]), ch)
	vf.Cover("done")
}

// every ADTS header reports what its bits encode
//vf:bound every 7 and 9 byte header
func VF_ADTSParse() {
	b := vf.Bytes("hdr", []int{7, 9}[vf.Choose("len", 2)])
	keep := append([]byte(nil), b...)
	idx := uint(b[2]>>2) & 15
	ch := uint(b[2]&1)<<2 | uint(b[3]>>6)
	fl := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5]>>5)
	hl := 7
	if b[1]&1 == 0 {
		hl = 9
	}
	c, ghl, gfl, n, err := aac.ParseADTSHeader(b)
	vf.Assert(vf.BytesEq(b, keep), "input is left alone")
	sync := b[0] == 0xff && b[1]&0xf6 == 0xf0
	if !sync {
		vf.Assert(err != nil, "not a header")
		return
	}
	if idx > 12 || fl < hl {
		vf.Assert(err != nil, "reserved rate or impossible length is refused")
		return
	}
	if ch == 0 {
		return // channels defined in the payload: may be refused
	}
	vf.Assert(err == nil, "accepted")
	vf.Assert(ghl == hl, "header length")
	vf.Assert(gfl == fl, "frame length")
	vf.Assert(n == (int(b[6]&3)+1)*1024, "samples")
	k := vf.Conc(int(idx))
	checkConfig(c, uint(b[2]>>6)+1, uint(k), uint(rates[k]), uint(vf.Conc(int(ch))))
	vf.Cover("done")
}
