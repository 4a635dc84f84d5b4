// Package h: what is recorded into an MP4 file is played back from it.
package h

import (
	"bytes"
	"errors"
	"io"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/mp4"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

// out is the file the muxer writes.
type out struct {
	b       []byte
	pos     int64
	streams []interface{}
}

func (o *out) Write(p []byte) (int, error) {
	for n := o.pos + int64(len(p)); int64(len(o.b)) < n; {
		o.b = append(o.b, 0)
	}
	copy(o.b[o.pos:], p)
	o.pos += int64(len(p))
	return len(p), nil
}

func (o *out) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += o.pos
	case 2:
		off += int64(len(o.b))
	}
	if off < 0 {
		return 0, errors.New("seek")
	}
	o.pos = off
	return off, nil
}

func (o *out) Streams() ([]interface{}, error) { return o.streams, nil }

var (
	avcc = []byte{1, 66, 0, 30, 0xff, 0xe1, 0, 8, 0x67, 66, 0, 30, 0xf4, 0x0b, 0x04, 0xb2, 1, 0, 4, 0x68, 0xce, 0x38, 0x80}
	asc  = []byte{0x12, 0x10}
)

func video() interface{} {
	c, err := h264.FromDecoderConfig(avcc)
	vf.Assert(err == nil, "video configuration")
	return c
}

func audio() interface{} {
	c, err := aac.FromMPEG4AudioConfigBytes(asc)
	vf.Assert(err == nil, "audio configuration")
	return c
}

// unit is more than a tick of the muxer, in nanoseconds.
const unit = 11112

func near(a, b time.Duration) bool {
	d := a - b
	return vf.And(d < unit, d > -unit)
}

// same checks a packet that was read against the one that was written.
func same(got, p av.Packet, first time.Duration, what string) {
	vf.Assert(got.Type == p.Type, what+": type")
	vf.Assert(vf.BytesEq(got.Data, p.Data), what+": payload")
	vf.Assert(near(got.Time, p.Time-first), what+": time")
	if p.Type == av.H264 {
		vf.Assert(got.IsKeyFrame == p.IsKeyFrame, what+": key frame flag")
		vf.Assert(near(got.CTime, p.CTime), what+": composition offset")
	}
}

func newMuxer(o *out) *mp4.Muxer {
	m, err := mp4.NewMuxer(o)
	vf.Assert(err == nil, "muxer")
	return m
}

func write(m *mp4.Muxer, ps []av.Packet) {
	for _, p := range ps {
		vf.Assert(m.WritePacket(p) == nil, "write")
	}
	vf.Assert(m.WriteTrailer() == nil, "trailer")
}

// layout checks the top level of the file.
func layout(b []byte) {
	vf.Assert(len(b) >= 8, "media box")
	n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
	vf.Assert(string(b[4:8]) == "mdat", "media box first")
	vf.Assert(n >= 8, "media box size")
	vf.Assert(n+8 <= len(b), "media box inside the file")
	r := b[n:]
	vf.Assert(string(r[4:8]) == "moov", "movie box next")
	k := int(r[0])<<24 | int(r[1])<<16 | int(r[2])<<8 | int(r[3])
	vf.Assert(k == len(r), "movie box ends the file")
}

// configs checks the streams of the file.
func configs(d *mp4.Demuxer, want []interface{}) {
	got, err := d.Streams()
	vf.Assert(err == nil, "the file is read")
	vf.Assert(len(got) == len(want), "every stream is there")
	for i, c := range want {
		switch c := c.(type) {
		case *h264.Codec:
			g, ok := got[i].(*h264.Codec)
			vf.Assert(ok, "video stream")
			vf.Assert(bytes.Equal(g.ConfigBytes, c.ConfigBytes), "video configuration")
			vf.Assert(g.W == c.W && g.H == c.H, "video size")
		case *aac.Codec:
			g, ok := got[i].(*aac.Codec)
			vf.Assert(ok, "audio stream")
			vf.Assert(bytes.Equal(g.ConfigBytes, c.ConfigBytes), "audio configuration")
		}
	}
}

// playback reads the file and compares it with the packets written.
func playback(o *out, ps []av.Packet) {
	layout(o.b)
	d := mp4.NewDemuxer(bytes.NewReader(o.b))
	configs(d, o.streams)
	next := map[int]int{}
	first := map[int]time.Duration{}
	find := func(t, from int) int {
		for from < len(ps) && ps[from].Type != t {
			from++
		}
		return from
	}
	last := time.Duration(0)
	for range ps {
		got, err := d.ReadPacket()
		vf.Assert(err == nil, "every packet is there")
		i := find(got.Type, next[got.Type])
		vf.Assert(i < len(ps), "no packet more than were written")
		if next[got.Type] == 0 {
			first[got.Type] = ps[i].Time
		}
		next[got.Type] = i + 1
		same(got, ps[i], first[got.Type], "packet")
		vf.Assert(got.Time >= last, "time order")
		last = got.Time
	}
	_, err := d.ReadPacket()
	vf.Assert(err == io.EOF, "the end is reported")
	vf.Cover("end")
}

// packet is an arbitrary packet at time t.
func packet(typ int, t time.Duration, size int) av.Packet {
	p := av.Packet{Type: typ, Time: t, Data: vf.Bytes("data", vf.Choose("size", size+1))}
	if typ == av.H264 {
		p.IsKeyFrame = vf.Bool("key")
		c := vf.I64("ctime")
		vf.Assume(c > -1<<44)
		vf.Assume(c < 1<<44)
		p.CTime = time.Duration(c)
	}
	return p
}

func dur(name string, max uint64) time.Duration {
	d := vf.U64(name)
	vf.Assume(d < max)
	return time.Duration(d)
}

//vf:bound video of 1..3 (thorough 1..4) packets of 0..1 bytes with arbitrary contents and key frame flags, first time below 2^50 ns, intervals below 2^44 ns, composition offsets of up to 2^44 ns either way
//vf:time 120
//vf:ttime 850
func VF_Video() {
	o := &out{streams: []interface{}{video()}}
	m := newMuxer(o)
	n := 1 + vf.Choose("n", vf.Tier(3, 4))
	t := dur("first", 1<<50)
	var ps []av.Packet
	for i := 0; i < n; i++ {
		ps = append(ps, packet(av.H264, t, 1))
		t += dur("interval", 1<<44)
	}
	write(m, ps)
	playback(o, ps)
}

//vf:bound audio of 0..4 (thorough 0..5) packets of 0..1 bytes, first time below 2^50 ns, intervals below 2^44 ns
//vf:time 120
//vf:ttime 850
func VF_Audio() {
	o := &out{streams: []interface{}{audio()}}
	m := newMuxer(o)
	n := vf.Choose("n", vf.Tier(5, 6))
	t := dur("first", 1<<50)
	var ps []av.Packet
	for i := 0; i < n; i++ {
		ps = append(ps, packet(av.AAC, t, 1))
		t += dur("interval", 1<<44)
	}
	write(m, ps)
	playback(o, ps)
}

//vf:bound audio of 6 (thorough 16) packets at one arbitrary interval below 2^40 ns: rounding errors do not add up
//vf:time 120
//vf:ttime 850
func VF_Drift() {
	o := &out{streams: []interface{}{audio()}}
	m := newMuxer(o)
	t, d := time.Duration(0), dur("interval", 1<<40)
	var ps []av.Packet
	for i := 0; i < vf.Tier(6, 16); i++ {
		ps = append(ps, av.Packet{Type: av.AAC, Time: t, Data: []byte{byte(i)}})
		t += d
	}
	write(m, ps)
	playback(o, ps)
}

// mixed makes n packets of both types in every order, both starting at the
// same time.
func mixed(n int) []av.Packet {
	var ps []av.Packet
	start := dur("first", 1<<50)
	t := map[int]time.Duration{av.H264: start, av.AAC: start}
	for i := 0; i < n; i++ {
		typ := []int{av.H264, av.AAC}[vf.Choose("type", 2)]
		if typ == av.H264 {
			p := packet(av.H264, t[typ], 0)
			p.CTime = 0
			ps = append(ps, p)
		} else {
			ps = append(ps, av.Packet{Type: av.AAC, Time: t[typ]})
		}
		// contents tell the packets apart
		ps[i].Data = []byte{byte(i), vf.U8("data")}
		t[typ] += dur("interval", 1<<40)
	}
	return ps
}

//vf:bound 3 (thorough 4) packets of audio and video in every order, streams announced in either order, intervals below 2^40 ns: every packet is there, in time order
//vf:time 120
//vf:ttime 850
func VF_Mixed() {
	o := &out{streams: []interface{}{video(), audio()}}
	if vf.Choose("order", 2) == 1 {
		o.streams = []interface{}{audio(), video()}
	}
	m := newMuxer(o)
	ps := mixed(vf.Tier(3, 4))
	write(m, ps)
	playback(o, ps)
}

//vf:bound a stream announced only when its first packet is written, after 1..2 packets of the other
//vf:time 60
func VF_Late() {
	v, a := video(), audio()
	o := &out{streams: []interface{}{a}}
	m := newMuxer(o)
	ps := []av.Packet{{Type: av.AAC, Data: []byte{1, vf.U8("d")}}}
	if vf.Choose("more", 2) == 1 {
		ps = append(ps, av.Packet{Type: av.AAC, Time: dur("interval", 1<<40), Data: []byte{2}})
	}
	for _, p := range ps {
		vf.Assert(m.WritePacket(p) == nil, "write")
	}
	o.streams = []interface{}{v, a}
	if vf.Choose("order", 2) == 1 {
		o.streams = []interface{}{a, v}
	}
	p := av.Packet{Type: av.H264, IsKeyFrame: true, Data: []byte{3, vf.U8("d")}}
	vf.Assert(m.WritePacket(p) == nil, "write")
	ps = append(ps, p)
	vf.Assert(m.WriteTrailer() == nil, "trailer")
	o.streams = []interface{}{a, v} // in the order they appeared
	playback(o, ps)
}

//vf:bound a packet whose stream was not announced is refused, the rest of the file stays good
//vf:time 60
func VF_Foreign() {
	o := &out{streams: []interface{}{audio()}}
	m := newMuxer(o)
	ps := []av.Packet{{Type: av.AAC, Data: []byte{1, vf.U8("d")}}}
	vf.Assert(m.WritePacket(ps[0]) == nil, "write")
	vf.Assert(m.WritePacket(av.Packet{Type: av.H264, Data: []byte{2}}) != nil, "no stream")
	p := av.Packet{Type: av.AAC, Time: dur("interval", 1<<40), Data: []byte{3, vf.U8("d")}}
	vf.Assert(m.WritePacket(p) == nil, "write")
	ps = append(ps, p)
	vf.Assert(m.WriteTrailer() == nil, "trailer")
	playback(o, ps)
}

//vf:bound payloads longer than the 256 byte write buffer: two packets of 0..600 or 65536..65537 bytes from eight sizes
//vf:time 60
func VF_Sizes() {
	o := &out{streams: []interface{}{audio()}}
	m := newMuxer(o)
	sizes := []int{0, 1, 255, 256, 257, 600, 65536, 65537}
	var ps []av.Packet
	for i := 0; i < 2; i++ {
		b := make([]byte, sizes[vf.Choose("size", len(sizes))])
		if len(b) > 0 {
			b[0], b[len(b)-1] = vf.U8("d"), vf.U8("d")
		}
		ps = append(ps, av.Packet{Type: av.AAC, Time: time.Duration(i) * 20e6, Data: b})
	}
	write(m, ps)
	playback(o, ps)
}

// two streams that do not start together keep their distance
//
//vf:bound one audio and one video packet, the later one by less than 2^40 ns
//vf:time 60
func VF_StartOffset() {
	o := &out{streams: []interface{}{video(), audio()}}
	m := newMuxer(o)
	off := dur("offset", 1<<40)
	write(m, []av.Packet{
		{Type: av.H264, IsKeyFrame: true, Data: []byte{1}},
		{Type: av.AAC, Time: off, Data: []byte{2}},
	})
	d := mp4.NewDemuxer(bytes.NewReader(o.b))
	for i := 0; i < 2; i++ {
		p, err := d.ReadPacket()
		vf.Assert(err == nil, "packet")
		if p.Type == av.AAC {
			vf.Assert(near(p.Time, off), "distance of the streams")
		}
	}
	vf.Cover("done")
}

// a file written by the muxer can be scanned box by box, and every box fills
// its parent
//
//vf:bound a file of one stream with 0..2 packets
//vf:time 60
func VF_Boxes() {
	c := audio()
	if vf.Choose("video", 2) == 1 {
		c = video()
	}
	o := &out{streams: []interface{}{c}}
	m := newMuxer(o)
	typ := av.AAC
	if _, ok := c.(*h264.Codec); ok {
		typ = av.H264
	}
	var ps []av.Packet
	for i, k := 0, vf.Choose("n", 3); i < k; i++ {
		p := packet(typ, time.Duration(i)*20e6, 1)
		ps = append(ps, p)
	}
	write(m, ps)
	boxes(o.b, "")
	vf.Cover("done")
	_ = lib.Box
}

func boxes(b []byte, in string) {
	for len(b) > 0 {
		vf.Assert(len(b) >= 8, in+": room for a box")
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		vf.Assert(n >= 8 && n <= len(b), in+": box inside its parent")
		tag := string(b[4:8])
		switch tag {
		case "moov", "trak", "mdia", "minf", "dinf", "stbl":
			boxes(b[8:n], tag)
		case "stsd", "dref":
			boxes(b[16:n], tag)
		}
		b = b[n:]
	}
}
