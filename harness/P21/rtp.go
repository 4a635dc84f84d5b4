// Package h: access units out of RTP packets.
package h

import (
	"net"
	"strings"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/rtsp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
	"github.com/nareix/joy5/zzvf/lib/dial"
)

const (
	sps = "Z0IAHvQLBLI=" // 67 42 00 1e f4 0b 04 b2
	pps = "aM44gA=="     // 68 ce 38 80
)

const videoSDP = "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1;sprop-parameter-sets=" + sps + "," + pps + "\r\na=control:track1\r\n"
const audioSDP = "m=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/48000/2\r\na=fmtp:97 mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=1190\r\na=control:track2\r\n"

// open starts a session; what has been added to s after the responses is read
// as packets.
func open(s *lib.RTSPServer) (*rtsp.Client, *lib.FakeConn) {
	c := &lib.FakeConn{}
	c.In.B, c.In.K = s.B, 1<<20
	dial.To(func(network, address string) (net.Conn, error) { return c, nil })
	cl, err := rtsp.DialTimeout("rtsp://cam/live", 0)
	vf.Assert(err == nil, "dial")
	return cl, c
}

func server(sdps ...string) *lib.RTSPServer {
	s := &lib.RTSPServer{}
	all := "v=0\r\n"
	for _, d := range sdps {
		all += d
	}
	s.Response("200 OK", nil, all)
	for range sdps {
		s.Response("200 OK", []string{"Session: 12345;timeout=60"}, "")
	}
	s.Response("200 OK", nil, "")
	return s
}

// feed makes the packets of one stream.
type feed struct {
	s   *lib.RTSPServer
	ch  byte
	pt  byte
	seq uint16
	ts  uint32
	n   int
}

func newFeed(s *lib.RTSPServer, ch, pt byte) *feed {
	return &feed{s: s, ch: ch, pt: pt, seq: vf.U16("seq"), ts: vf.U32("ts")}
}

func (f *feed) send(payload []byte, marker bool) {
	p := &lib.RTP{PT: f.pt, Marker: marker, Seq: f.seq, TS: f.ts, SSRC: 0x11223344, Payload: payload}
	f.s.Block(f.ch, p.Bytes())
	f.seq++
}

func (f *feed) lose() { f.seq++ }

// step moves the clock on by less than half an hour.
func (f *feed) step(scale uint32) uint32 {
	d := vf.U32("step")
	vf.Assume(d <= scale*60*30)
	f.ts += d
	return d
}

// want is a packet that is due.
type want struct {
	typ   int
	ticks uint64
	scale uint64
	data  []byte
	key   bool
}

func check(c *rtsp.Client, w want) {
	p, err := c.ReadPacket()
	vf.Assert(err == nil, "every packet is delivered")
	vf.Assert(p.Type == w.typ, "type")
	vf.Assert(vf.BytesEq(p.Data, w.data), "payload")
	vf.Assert(p.Time == time.Duration(w.ticks*1000000000/w.scale), "time")
	if w.typ == av.H264 {
		vf.Assert(p.IsKeyFrame == w.key, "key frame flag")
	}
}

func end(c *rtsp.Client) {
	_, err := c.ReadPacket()
	vf.Assert(err != nil, "nothing else is delivered")
	vf.Cover("end")
}

// avcc is NAL units with length prefixes.
func avcc(ns ...[]byte) (b []byte) {
	for _, n := range ns {
		b = append(b, byte(len(n)>>24), byte(len(n)>>16), byte(len(n)>>8), byte(len(n)))
		b = append(b, n...)
	}
	return
}

// nal is a unit of the type with n arbitrary bytes and reference and error bits.
func nal(typ byte, n int) []byte {
	h := vf.U8("nri")
	vf.Assume(h < 8)
	return append([]byte{h<<5 | typ}, vf.Bytes("nal", n)...)
}

var slices = []byte{1, 5, 2}

//vf:bound 1..3 (thorough 1..4) packets of one slice of 0..2 arbitrary bytes, any first timestamp and sequence number, steps of up to 30 minutes
//vf:time 60
func VF_Single() {
	s := server(videoSDP)
	f := newFeed(s, 0, 96)
	var ws []want
	ticks := uint64(0)
	for i, k := 0, vf.Choose("n", vf.Tier(3, 4)); i <= k; i++ {
		if i > 0 {
			ticks += uint64(f.step(90000))
		}
		t := slices[vf.Choose("type", 3)]
		n := nal(t, 1+vf.Choose("len", 2))
		f.send(n, true)
		ws = append(ws, want{av.H264, ticks, 90000, avcc(n), t == 5})
	}
	c, _ := open(s)
	for _, w := range ws {
		check(c, w)
	}
	end(c)
}

//vf:bound header extensions of 0..2 or 300 words, 0, 1, 2, 8 or 15 contributing sources, padding of 0..3, 128 or 255 bytes
//vf:time 60
func VF_Header() {
	s := server(videoSDP)
	p := &lib.RTP{PT: 96, Marker: vf.Bool("marker"), Seq: vf.U16("seq"), TS: vf.U32("ts"), SSRC: vf.U32("ssrc")}
	k := []int{0, 1, 2, 8, 15}[vf.Choose("sources", 5)]
	for i := 0; i < k; i++ {
		p.CSRC = append(p.CSRC, vf.U32("source"))
	}
	if n := vf.Choose("extension", 4); n > 0 {
		p.Ext = append([]byte{vf.U8("profile"), vf.U8("profile"), 0, byte(n - 1)}, vf.Bytes("ext", 4*(n-1))...)
	}
	if vf.Choose("large extension", 2) == 1 {
		p.Ext = append([]byte{1, 2, 300 >> 8, 300 & 0xff}, make([]byte, 1200)...)
	}
	p.Pad = []int{0, 1, 2, 3, 128, 255}[vf.Choose("padding", 6)]
	n := nal(5, 2)
	p.Payload = n
	s.Block(0, p.Bytes())
	c, _ := open(s)
	check(c, want{av.H264, 0, 90000, avcc(n), true})
	end(c)
}

//vf:bound an aggregate of 1..3 units, each a slice, parameter set or message of 1..3 bytes, the first slice also of 300 more
//vf:time 60
func VF_Aggregate() {
	s := server(videoSDP)
	f := newFeed(s, 0, 96)
	agg := []byte{24}
	var ns [][]byte
	key := false
	for i, k := 0, vf.Choose("n", 3); i <= k; i++ {
		var n []byte
		switch t := []byte{1, 5, 6, 7, 8, 10}[vf.Choose("type", 6)]; t {
		case 1, 5:
			n = nal(t, vf.Choose("len", 2))
			if i == 0 && vf.Choose("long", 2) == 1 {
				n = append(n, make([]byte, 300)...)
			}
			ns = append(ns, n)
			key = key || t == 5
		case 7:
			n = []byte{0x67, 66, 0, 30, 0xf4, 0x0b, 0x04, 0xb2}
		case 8:
			n = []byte{0x68, 0xce, 0x38, 0x80}
		default:
			n = nal(t, vf.Choose("len", 2))
		}
		agg = append(agg, byte(len(n)>>8), byte(len(n)))
		agg = append(agg, n...)
	}
	f.send(agg, true)
	ts := uint64(f.step(90000))
	last := nal(1, 1)
	f.send(last, true)
	c, _ := open(s)
	if len(ns) > 0 {
		check(c, want{av.H264, 0, 90000, avcc(ns...), key})
	} else {
		ts = 0
	}
	check(c, want{av.H264, ts, 90000, avcc(last), false})
	end(c)
}

// fragments cuts a unit.
func fragments(n []byte, cuts int) (fs [][]byte) {
	size := make([]int, cuts)
	for i := range size {
		size[i] = 1 + vf.Choose("size", 2)
	}
	b := n[1:]
	for i := 0; len(b) > 0 || i < 2; i++ {
		k := len(b)
		if i < cuts && size[i] < k {
			k = size[i]
		}
		h := n[0] & 31
		if i == 0 {
			h |= 0x80
		}
		if k == len(b) && i > 0 {
			h |= 0x40
		}
		fs = append(fs, append([]byte{n[0]&0xe0 | 28, h}, b[:k]...))
		b = b[k:]
	}
	return
}

//vf:bound a unit of 3..5 bytes in 2..4 fragments, then a whole one
//vf:time 60
func VF_Fragments() {
	s := server(videoSDP)
	f := newFeed(s, 0, 96)
	t := slices[vf.Choose("type", 3)]
	n := nal(t, 3+vf.Choose("len", 3))
	fs := fragments(n, 3)
	for i, b := range fs {
		f.send(b, i == len(fs)-1)
	}
	d := uint64(f.step(90000))
	last := nal(1, 1)
	f.send(last, true)
	c, _ := open(s)
	check(c, want{av.H264, 0, 90000, avcc(n), t == 5})
	check(c, want{av.H264, d, 90000, avcc(last), false})
	end(c)
}

// with one or two packets lost, units that are not complete do not appear
//
//vf:bound two units of 3 bytes in 2..3 fragments each, any 3 fragments lost, then a whole one; steps of up to 10 minutes
//vf:time 100
func VF_Loss() {
	s := server(videoSDP)
	f := newFeed(s, 0, 96)
	var ws []want
	ticks := uint64(0)
	started := false
	lost := 0
	for u := 0; u < 2; u++ {
		n := nal([]byte{1, 5}[vf.Choose("type", 2)], 3)
		fs := fragments(n, 2)
		if u > 0 {
			d := uint64(f.step(30000))
			if started {
				ticks += d
			}
		}
		whole := true
		for i, b := range fs {
			if lost < 3 && vf.Choose("lost", 2) == 1 {
				f.lose()
				lost++
				whole = false
				continue
			}
			f.send(b, i == len(fs)-1)
		}
		if whole {
			started = true
			ws = append(ws, want{av.H264, ticks, 90000, avcc(n), n[0]&31 == 5})
		}
	}
	d := uint64(f.step(30000))
	if started {
		ticks += d
	}
	last := nal(1, 1)
	f.send(last, true)
	ws = append(ws, want{av.H264, ticks, 90000, avcc(last), false})
	c, _ := open(s)
	// the clock starts with the first unit that is delivered
	for _, w := range ws {
		check(c, w)
	}
	end(c)
}

//vf:bound 1..2 (thorough 1..3) packets of 1..3 AAC frames of 0..2 bytes, the first of a single packet also of 300 more (where its size can be given); sizes of 13 bits and indexes of 3, or one packet (thorough 1..3) with 6 and 2, or 10 and 0
//vf:time 60
func VF_AAC() {
	mode := vf.Choose("mode", 3)
	size, index := []int{13, 6, 10}[mode], []int{3, 2, 0}[mode]
	s := server(strings.Replace(audioSDP, "mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3",
		[]string{"mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3", "mode=AAC-lbr;sizelength=6;indexlength=2;indexdeltalength=2",
			"mode=generic; sizeLength=10; indexLength=0; indexDeltaLength=0"}[mode], 1))
	f := newFeed(s, 0, 97)
	var ws []want
	ticks := uint64(0)
	m := 0
	if mode == 0 || vf.Tier(0, 1) == 1 {
		m = vf.Choose("n", vf.Tier(2, 3))
	}
	for i := 0; i <= m; i++ {
		k := 1 + vf.Choose("frames", 3)
		if i > 0 {
			d := f.step(48000)
			vf.Assume(d >= 3*1024)
			ticks += uint64(d)
		}
		hdr := make([]byte, (k*(size+index)+7)/8)
		p := []byte{0, byte(k * (size + index))}
		var data []byte
		for j := 0; j < k; j++ {
			b := vf.Bytes("frame", vf.Choose("len", 3))
			if m == 0 && j == 0 && size > 6 && vf.Choose("long", 2) == 1 {
				b = append(b, make([]byte, 300)...)
			}
			for at, bit := j*(size+index), size-1; bit >= 0; at, bit = at+1, bit-1 {
				hdr[at/8] |= byte(len(b)>>uint(bit)&1) << uint(7-at%8)
			}
			data = append(data, b...)
			ws = append(ws, want{av.AAC, ticks + uint64(j)*1024, 48000, b, false})
		}
		f.send(append(append(p, hdr...), data...), true)
	}
	c, _ := open(s)
	for _, w := range ws {
		check(c, w)
	}
	end(c)
}

//vf:bound 3 (thorough 4) blocks: video, audio, reports of 0..3 words on either report channel, or a response to a keep-alive
//vf:time 60
func VF_Both() {
	s := server(videoSDP, audioSDP)
	v, a := newFeed(s, 0, 96), newFeed(s, 2, 97)
	var ws []want
	var vt, at uint64
	for i := 0; i < vf.Tier(3, 4); i++ {
		switch vf.Choose("what", 5) {
		case 0:
			n := nal(5, 1)
			v.send(n, true)
			ws = append(ws, want{av.H264, vt, 90000, avcc(n), true})
			vt += uint64(v.step(90000))
		case 1:
			b := vf.Bytes("frame", 2)
			a.send(append([]byte{0, 16, 0, 2 << 3}, b...), true)
			ws = append(ws, want{av.AAC, at, 48000, b, false})
			at += uint64(a.step(48000))
		case 2:
			s.Block(1, vf.Bytes("report", 4*vf.Choose("len", 4)))
		case 3:
			s.Block(3, vf.Bytes("report", 4*vf.Choose("len", 4)))
		case 4:
			s.Response("200 OK", nil, []string{"", "$abcdefghijklmn"}[vf.Choose("body", 2)])
		}
	}
	c, _ := open(s)
	for _, w := range ws {
		check(c, w)
	}
	end(c)
}

// other parameter sets in the stream
//
//vf:bound a slice, then other parameter sets (sequence, picture or both; one by one or aggregated, with a slice in the aggregate or not), then a slice of 3 arbitrary bytes whole or in two fragments and one more; with and without skipping errors
//vf:time 60
//vf:hang
func VF_Change() {
	s := server(videoSDP)
	f := newFeed(s, 0, 96)
	first := nal(1, 1)
	f.send(first, true)
	ticks := uint64(f.step(90000 / 3))
	which := vf.Choose("which", 4)
	var sets [][]byte
	if which != 1 {
		sets = append(sets, []byte{0x67, 66, 0, 31, 0xf4, 0x0b, 0x04, 0xb2})
	}
	if which != 0 {
		sets = append(sets, []byte{0x68, 0xce, 0x38, 0x81})
	}
	if which == 3 {
		sets[0], sets[1] = sets[1], sets[0]
	}
	ws := []want{{av.H264, 0, 90000, avcc(first), false}}
	if vf.Choose("aggregate", 2) == 1 {
		agg := []byte{24}
		if vf.Choose("with slice", 2) == 1 {
			n := nal(5, 1)
			sets = append(sets, n)
			ws = append(ws, want{av.H264, ticks, 90000, avcc(n), true})
		}
		for _, n := range sets {
			agg = append(agg, byte(len(n)>>8), byte(len(n)))
			agg = append(agg, n...)
		}
		f.send(agg, true)
	} else {
		for _, n := range sets {
			f.send(n, false)
		}
	}
	before := len(ws)
	n := nal(5, 3)
	ticks += uint64(f.step(90000 / 3))
	if vf.Choose("fragments", 2) == 1 {
		for _, b := range fragments(n, 1) {
			f.send(b, false)
		}
	} else {
		f.send(n, true)
	}
	ws = append(ws, want{av.H264, ticks, 90000, avcc(n), true})
	ticks += uint64(f.step(90000 / 3))
	last := nal(1, 1)
	f.send(last, true)
	ws = append(ws, want{av.H264, ticks, 90000, avcc(last), false})
	c, _ := open(s)
	c.SkipErrRtpBlock = vf.Choose("skip", 2) == 1
	for i, w := range ws {
		if i == before && which >= 2 {
			_, err := c.ReadPacket()
			vf.Assert(err == rtsp.ErrCodecChange, "the change is announced")
			c, err = c.HandleCodecChange()
			vf.Assert(err == nil, "and dealt with")
			vf.Cover("change")
		}
		check(c, w)
	}
	ss, err := c.Streams()
	vf.Assert(err == nil && len(ss) == 1, "streams")
	h := ss[0].(*h264.Codec)
	if which != 1 {
		vf.Assert(len(h.SPS) == 1 && h.SPS[0][3] == 31, "the new sequence parameters")
	}
	if which != 0 {
		vf.Assert(len(h.PPS) == 1 && h.PPS[0][3] == 0x81, "the new picture parameters")
	}
	end(c)
}
