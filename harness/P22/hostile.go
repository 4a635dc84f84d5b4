// Package h: no server can crash or hang the RTSP client.
package h

import (
	"net"

	"github.com/nareix/joy5/format/rtsp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
	"github.com/nareix/joy5/zzvf/lib/dial"
)

const videoSDP = "v=0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=control:track1\r\n"
const audioSDP = "m=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/48000/2\r\na=fmtp:97 config=1190\r\na=control:track2\r\n"

func server() *lib.RTSPServer {
	s := &lib.RTSPServer{}
	s.Response("200 OK", nil, videoSDP+audioSDP)
	s.Response("200 OK", []string{"Session: 1"}, "")
	s.Response("200 OK", []string{"Session: 1"}, "")
	s.Response("200 OK", nil, "")
	return s
}

// play reads all there is. No more packets can come than there are bytes.
func play(s *lib.RTSPServer, uri string) {
	c := &lib.FakeConn{}
	c.In.B, c.In.K = s.B, 1<<20
	dial.To(func(network, address string) (net.Conn, error) { return c, nil })
	cl, err := rtsp.DialTimeout(uri, 0)
	vf.Assert(err == nil, "dial")
	cl.SkipErrRtpBlock = vf.Choose("skip", 2) == 1
	for i := 0; i <= len(s.B); i++ {
		if _, err := cl.ReadPacket(); err != nil {
			break
		}
		vf.Assert(i < len(s.B), "no packets out of nothing")
	}
	cl.Close()
	vf.Cover("end")
}

//vf:bound 0..3 arbitrary bytes after the session was set up; or 4..5 (thorough 4..7) bytes out of 0..3, 12, '$', 'R', 'T', 'S', 'P', 0x80, 96, 97 and 255
//vf:time 60
//vf:ttime 200
//vf:hang
func VF_Bytes() {
	s := server()
	n := vf.Choose("n", vf.Tier(6, 8))
	b := vf.Bytes("any", n)
	for _, c := range b {
		if n > 3 {
			vf.Assume(vf.Or(c < 4, vf.Or(vf.Or(vf.Or(c == '$', c == 'R'), vf.Or(c == 'T', c == 'S')), vf.Or(vf.Or(c == 'P', c == 0x80), vf.Or(vf.Or(c == 12, c == 255), vf.Or(c == 96, c == 97))))))
		}
	}
	s.B = append(s.B, b...)
	vf.AllocLimit(1 << 20)
	play(s, "rtsp://cam/live")
}

//vf:bound a block on the channels 0..3 with 0, 5, 7, 8, 11, 12, 13 or 16 (thorough 0..18) bytes, 0 or 16 more after it, its length their number, or 1 or 255 more, or 65535; all bytes of the packet arbitrary but version and payload type
//vf:time 60
//vf:ttime 200
//vf:hang
func VF_Block() {
	s := server()
	n := vf.Choose("n", vf.Tier(8, 19))
	if vf.Tier(0, 1) == 0 {
		n = []int{0, 5, 7, 8, 11, 12, 13, 16}[n]
	}
	l := []int{n, n + 1, n + 255, 0xffff}[vf.Choose("len", 4)]
	ch := byte(vf.Choose("channel", 4))
	s.B = append(s.B, '$', ch, byte(l>>8), byte(l))
	b := vf.Bytes("any", n)
	if n > 1 {
		b[0] = b[0]&0x3f | 0x80
		b[1] = b[1]&0x80 | 96 + ch/2
	}
	s.B = append(s.B, b...)
	s.B = append(s.B, make([]byte, vf.Choose("after", 2)*16)...)
	vf.AllocLimit(1 << 20)
	play(s, "rtsp://cam/live")
}

//vf:bound a video RTP packet with arbitrary first byte and 0..3 (thorough 0..5) arbitrary bytes after its header, then another with 0..1 (thorough 0..2)
//vf:time 60
//vf:ttime 200
//vf:hang
func VF_Video() {
	s := server()
	for i, n := range []int{vf.Choose("n", vf.Tier(4, 6)), vf.Choose("more", vf.Tier(2, 3))} {
		b := []byte{0x80, 96, 0, byte(i), 0, 0, 0, byte(i), 1, 2, 3, 4}
		if i == 0 {
			b[0] = vf.U8("first")
		}
		s.Block(0, append(b, vf.Bytes("any", n)...))
	}
	vf.AllocLimit(1 << 20)
	play(s, "rtsp://cam/live")
}

//vf:bound an audio RTP packet with 0..8 (thorough 0..10) arbitrary bytes after its header
//vf:time 100
//vf:hang
func VF_Audio() {
	s := server()
	b := []byte{0x80, 97, 0, 1, 0, 0, 0, 1, 1, 2, 3, 4}
	s.Block(2, append(b, vf.Bytes("any", vf.Choose("n", vf.Tier(9, 11)))...))
	vf.AllocLimit(1 << 20)
	play(s, "rtsp://cam/live")
}

//vf:bound a response claiming a body of any number of 1, 2, 7, 10 or 20 digits (thorough: 1..20; of more than 10 all but the first two and the last are 0), followed by 0 or 3 bytes
//vf:time 60
//vf:ttime 200
//vf:hang
func VF_Length() {
	s := &lib.RTSPServer{}
	n := 1 + vf.Choose("digits", vf.Tier(5, 20))
	if vf.Tier(0, 1) == 0 {
		n = []int{1, 2, 7, 10, 20}[n-1]
	}
	t := make([]byte, n)
	for i := range t {
		t[i] = '0'
		if n > 10 && i > 1 && i < n-1 {
			continue
		}
		t[i] = vf.U8("digit")
		vf.Assume(t[i] >= '0')
		vf.Assume(t[i] <= '9')
	}
	s.B = append(s.B, "RTSP/1.0 200 OK\r\nContent-Length: "...)
	s.B = append(s.B, t...)
	s.B = append(s.B, "\r\n\r\n"...)
	s.B = append(s.B, vf.Bytes("body", 3*vf.Choose("n", 2))...)
	vf.AllocLimit(1 << 20)
	play(s, "rtsp://cam/live")
}

//vf:bound 0..2 (thorough 0..3) arbitrary bytes in a response after one of 8 beginnings of a line
//vf:time 60
//vf:ttime 200
//vf:hang
func VF_Response() {
	pre := []string{"", "RTSP", "RTSP/1.0 ", "RTSP/1.0 200 OK\r\n", "RTSP/1.0 200 OK\r\nContent-Length: ", "RTSP/1.0 200 OK\r\nSession:", "RTSP/1.0 401 Unauthorized\r\nWWW-Authenticate:", "RTSP/1.0 401 Unauthorized\r\nWWW-Authenticate: Digest realm="}
	s := &lib.RTSPServer{}
	s.B = append(s.B, pre[vf.Choose("line", len(pre))]...)
	b := vf.Bytes("any", vf.Choose("n", vf.Tier(3, 4)))
	for _, c := range b {
		vf.Assume(c < 0x80)
	}
	s.B = append(s.B, b...)
	s.B = append(s.B, "\r\n\r\n"...)
	s.Response("200 OK", nil, videoSDP)
	vf.AllocLimit(1 << 20)
	uri := "rtsp://cam/live"
	if vf.Choose("user", 2) == 1 {
		uri = "rtsp://user:pw@cam/live"
	}
	play(s, uri)
}

//vf:bound a session description with arbitrary parameter sets of 0..4 (thorough 0..6) bytes, or an arbitrary configuration of 0..3 (thorough 0..4) bytes
//vf:time 100
//vf:hang
func VF_Description() {
	s := &lib.RTSPServer{}
	d := "v=0\r\nm=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 sprop-parameter-sets=" + b64(vf.Bytes("set", vf.Choose("n", vf.Tier(5, 7)))) + "," + b64([]byte{0x68, 0xce})
	if vf.Choose("audio", 2) == 1 {
		d = "v=0\r\nm=audio 0 RTP/AVP 96\r\na=rtpmap:96 MPEG4-GENERIC/48000/2\r\na=fmtp:96 config=" + hex(vf.Bytes("config", vf.Choose("n", vf.Tier(4, 5))))
	}
	s.Response("200 OK", nil, d+"\r\n")
	s.Response("200 OK", nil, "")
	s.Response("200 OK", nil, "")
	s.Block(0, []byte{0x80, 96, 0, 1, 0, 0, 0, 1, 1, 2, 3, 4, 0x65, 1})
	vf.AllocLimit(1 << 20)
	play(s, "rtsp://cam/live")
}

func hex(b []byte) string {
	var r []byte
	for _, c := range b {
		for _, d := range []byte{c >> 4, c & 15} {
			r = append(r, byte(vf.Ite(d < 10, int64('0'+d), int64('a'+d-10))))
		}
	}
	return string(r)
}

func b64(b []byte) string {
	dig := func(d byte) byte {
		return byte(vf.Ite(d < 26, int64('A'+d), vf.Ite(d < 52, int64('a'+d-26), vf.Ite(d < 62, int64('0'+d-52), vf.Ite(d == 62, '+', '/')))))
	}
	var r []byte
	for len(b) > 0 {
		var g [3]byte
		n := copy(g[:], b)
		b = b[n:]
		r = append(r, dig(g[0]>>2), dig(g[0]&3<<4|g[1]>>4))
		if n > 1 {
			r = append(r, dig(g[1]&15<<2|g[2]>>6))
		} else {
			r = append(r, '=')
		}
		if n > 2 {
			r = append(r, dig(g[2]&63))
		} else {
			r = append(r, '=')
		}
	}
	return string(r)
}
