// Package h: session descriptions say what the parser returns.
package h

import (
	"bytes"
	"strings"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtsp/sdp"
	vf "github.com/nareix/joy5/zzvf"
)

// join makes lines.
func join(ls ...string) string { return strings.Join(ls, "\r\n") + "\r\n" }

// perm is a permutation of the lines.
func perm(ls []string) []string {
	var r []string
	rest := append([]string{}, ls...)
	for len(rest) > 0 {
		i := vf.Choose("line", len(rest))
		r = append(r, rest[i])
		rest = append(rest[:i:i], rest[i+1:]...)
	}
	return r
}

// noise is an attribute, bandwidth or connection line that says nothing about
// the media.
func noise() string {
	all := []string{"", "a=recvonly", "a=x-dimensions: 720, 480", "b=AS:300", "a=range:npt=0/5;config=11", "a=tool:x/77/config=22;sizelength=3",
		"a=framesize:96 1920-1080/4", "a=rtpmap:97 H264/8000", "a=fmtp:97 config=33;sizelength=9;indexlength=9;sprop-parameter-sets=Z0Bo", "a=cliprect:0,0,480/640", "c=IN IP4 0.0.0.0", "k=clear:a=control:no", "a=controller:zzz", "a=x/5", "a="}
	return all[vf.Choose("noise", len(all))]
}

//vf:bound a video and an audio media with 3 attribute lines each in every order, with another kind of media of the same attributes before, between or after them, or none
//vf:time 60
func VF_Order() {
	session := []string{"v=0", "o=- 1 1 IN IP4 1.2.3.4", "s=x", "u=http://a/b c", "a=control:*", "a=rtpmap:96 H264/1"}
	other := []string{[]string{"m=application 0 RTP/AVP 96", "m=text 0 RTP/AVP 96", "m=videos 0 RTP/AVP 96"}[vf.Choose("other", 3)], "a=control:wrong", "a=rtpmap:96 H264/7", "a=fmtp:96 config=ff;sizelength=1;sprop-parameter-sets=AAAA"}
	video := append([]string{"m=video 0 RTP/AVP 96"}, perm([]string{"a=control:trackID=1", "a=rtpmap:96 H264/90000", "a=fmtp:96 packetization-mode=1; sprop-parameter-sets=Z00A,aO48gA=="})...)
	audio := append([]string{"m=audio 49170/2 RTP/AVP 97"}, perm([]string{"a=control:rtsp://h:554/a/2", "a=rtpmap:97 mpeg4-generic/16000/2", "a=fmtp:97 streamtype=5; mode=AAC-hbr;config=1408;SizeLength=13;indexLength=3"})...)
	ls := session
	media := [][]string{video, audio}
	if vf.Choose("swap", 2) == 1 {
		media[0], media[1] = media[1], media[0]
	}
	pos := vf.Choose("where", 4)
	for i, m := range media {
		if pos == i {
			ls = append(ls, other...)
		}
		ls = append(ls, m...)
	}
	if pos == 2 {
		ls = append(ls, other...)
	}
	sess, got := sdp.Parse(join(ls...))
	vf.Assert(sess.Uri == "http://a/b c", "session address")
	vf.Assert(len(got) == 2, "two media")
	v, a := got[0], got[1]
	if v.AVType != "video" {
		v, a = a, v
	}
	vf.Assert((got[0].AVType == "video") == (len(media[0]) == len(video) && media[0][0] == video[0]), "order of the media")
	checkVideo(v)
	checkAudio(a)
	vf.Cover("parsed")
}

func checkVideo(v sdp.Media) {
	vf.Assert(v.AVType == "video" && v.Type == av.H264, "video codec")
	vf.Assert(v.PayloadType == 96 && v.TimeScale == 90000, "video payload type and clock")
	vf.Assert(v.Control == "trackID=1", "video control")
	vf.Assert(len(v.SpropParameterSets) == 2, "two parameter sets")
	vf.Assert(bytes.Equal(v.SpropParameterSets[0], []byte{0x67, 0x4d, 0}), "first parameter set")
	vf.Assert(bytes.Equal(v.SpropParameterSets[1], []byte{0x68, 0xee, 0x3c, 0x80}), "second parameter set")
	vf.Assert(len(v.Config) == 0, "video configuration")
}

func checkAudio(a sdp.Media) {
	vf.Assert(a.AVType == "audio" && a.Type == av.AAC, "audio codec")
	vf.Assert(a.PayloadType == 97 && a.TimeScale == 16000, "audio payload type and clock")
	vf.Assert(a.Control == "rtsp://h:554/a/2", "audio control")
	vf.Assert(bytes.Equal(a.Config, []byte{0x14, 8}), "audio configuration")
	vf.Assert(a.SizeLength == 13 && a.IndexLength == 3, "audio header lengths")
	vf.Assert(len(a.SpropParameterSets) == 0, "audio parameter sets")
}

//vf:bound one of 15 unrelated lines at each of 3 places of a video media, line ends with and without carriage return
//vf:time 60
func VF_Noise() {
	ls := []string{"m=video 0 RTP/AVP 96 97", "a=rtpmap:96 H264/90000", noise(), "a=fmtp:96 sprop-parameter-sets=Z00A,aO48gA==", "a=control:trackID=1", noise()}
	if vf.Choose("early", 2) == 1 {
		ls = append([]string{noise()}, ls...)
	}
	s := join(ls...)
	if vf.Choose("lf", 2) == 1 {
		s = strings.Join(ls, "\n")
	}
	_, got := sdp.Parse(s)
	vf.Assert(len(got) == 1, "one media")
	checkVideo(got[0])
	vf.Cover("parsed")
}

// digits is a number without leading zero.
func digits(name string, n int) (string, int) {
	b := make([]byte, n)
	v := 0
	for i := range b {
		b[i] = vf.U8(name)
		vf.Assume(b[i] >= '0')
		vf.Assume(b[i] <= '9')
		v = v*10 + int(b[i]-'0')
	}
	vf.Assume(b[0] != '0')
	return string(b), v
}

//vf:bound every payload type of 1..3 digits and clock rate of 1..5 (thorough 1..7) digits, as first of one or two formats
//vf:time 60
func VF_Numbers() {
	pt, n := digits("type", 1+vf.Choose("tlen", 3))
	clock, c := digits("clock", 1+vf.Choose("clen", vf.Tier(5, 7)))
	m := "m=audio 0 RTP/AVP " + pt
	if vf.Choose("two", 2) == 1 {
		m += " 5"
	}
	enc := []string{"MPEG4-GENERIC", "mpeg4-generic", "PCMU"}[vf.Choose("enc", 3)]
	ch := []string{"", "/2"}[vf.Choose("ch", 2)]
	_, got := sdp.Parse(join(m, "a=rtpmap:"+pt+" "+enc+"/"+clock+ch))
	vf.Assert(len(got) == 1, "one media")
	vf.Assert(got[0].PayloadType == n, "payload type")
	vf.Assert(got[0].TimeScale == c, "clock rate")
	vf.Assert((got[0].Type == av.AAC) == (enc != "PCMU"), "codec")
	vf.Cover("parsed")
}

// hexDigit is a digit and its value.
func hexDigit() (byte, byte) {
	d := vf.U8("digit")
	vf.Assume(d < 16)
	c := vf.Ite(d < 10, int64('0'+d), vf.Ite(vf.Bool("upper"), int64('A'+d-10), int64('a'+d-10)))
	return byte(c), d
}

//vf:bound configurations of 1..3 (thorough 1..5) arbitrary bytes in upper or lower case digits, the parameter first, last or alone
//vf:time 60
func VF_Config() {
	n := 1 + vf.Choose("n", vf.Tier(3, 5))
	var txt, want []byte
	for i := 0; i < n; i++ {
		c, h := hexDigit()
		d, l := hexDigit()
		txt = append(txt, c, d)
		want = append(want, h<<4|l)
	}
	p := "config=" + string(txt)
	p = []string{p, p + ";sizelength=13", "mode=AAC-hbr; " + p, "mode=AAC-hbr;" + p + " ; indexlength=3"}[vf.Choose("place", 4)]
	_, got := sdp.Parse(join("m=audio 0 RTP/AVP 96", "a=rtpmap:96 MPEG4-GENERIC/44100", "a=fmtp:96 "+p))
	vf.Assert(len(got) == 1, "one media")
	vf.Assert(vf.BytesEq(got[0].Config, want), "configuration bytes")
	vf.Assert(got[0].TimeScale == 44100, "clock rate")
	vf.Cover("parsed")
}

// b64 is an encoded digit of base64.
func b64(d byte) byte {
	return byte(vf.Ite(d < 26, int64('A'+d), vf.Ite(d < 52, int64('a'+d-26), vf.Ite(d < 62, int64('0'+d-52), vf.Ite(d == 62, '+', '/')))))
}

//vf:bound one or two parameter sets of 1..4 (thorough 1..7) arbitrary bytes, alone or after another parameter
//vf:time 100
func VF_Sprop() {
	enc := func(b []byte) (r []byte) {
		for len(b) > 0 {
			var g [3]byte
			n := copy(g[:], b)
			b = b[n:]
			r = append(r, b64(g[0]>>2), b64(g[0]&3<<4|g[1]>>4))
			if n > 1 {
				r = append(r, b64(g[1]&15<<2|g[2]>>6))
			} else {
				r = append(r, '=')
			}
			if n > 2 {
				r = append(r, b64(g[2]&63))
			} else {
				r = append(r, '=')
			}
		}
		return
	}
	a := vf.Bytes("sps", 1+vf.Choose("n", vf.Tier(4, 7)))
	sets := [][]byte{a}
	p := "sprop-parameter-sets=" + string(enc(a))
	if vf.Choose("two", 2) == 1 {
		b := []byte{0x68, 0xee, 0x3c, 0x80}
		sets = append(sets, b)
		p += "," + string(enc(b))
	}
	if vf.Choose("after", 2) == 1 {
		p = "packetization-mode=1;" + p
	}
	_, got := sdp.Parse(join("m=video 0 RTP/AVP 96", "a=rtpmap:96 H264/90000", "a=fmtp:96 "+p))
	vf.Assert(len(got) == 1, "one media")
	vf.Assert(len(got[0].SpropParameterSets) == len(sets), "number of parameter sets")
	for i, s := range sets {
		vf.Assert(vf.BytesEq(got[0].SpropParameterSets[i], s), "parameter set")
	}
	vf.Assert(got[0].TimeScale == 90000, "clock rate")
	vf.Cover("parsed")
}

//vf:bound a control address of 1..4 (thorough 1..6) arbitrary printable characters
//vf:time 60
func VF_Control() {
	b := vf.Bytes("control", 1+vf.Choose("n", vf.Tier(4, 6)))
	for _, c := range b {
		vf.Assume(c > ' ')
		vf.Assume(c < 127)
	}
	_, got := sdp.Parse(join("m=video 0 RTP/AVP 96", "a=rtpmap:96 H264/90000", "a=control:"+string(b)))
	vf.Assert(len(got) == 1, "one media")
	vf.Assert(vf.BytesEq([]byte(got[0].Control), b), "control address")
	vf.Assert(got[0].TimeScale == 90000, "clock rate")
	vf.Assert(got[0].Type == av.H264 && got[0].PayloadType == 96, "codec")
	vf.Cover("parsed")
}

//vf:bound arbitrary bytes at the place of a value: 0..3 (thorough 0..4) bytes after one of 14 beginnings of a line (ASCII where the letter case is changed)
//vf:time 100
func VF_Hostile() {
	pre := []string{"", "m=", "m=audio", "m=video ", "m=video 0 RTP/AVP ", "a=", "a=rtpmap:", "a=rtpmap:96 ", "a=fmtp:96 ", "a=fmtp:96 config=", "a=fmtp:96 sprop-parameter-sets=", "a=fmtp:96 sizelength=", "a=control:", "u="}
	p := pre[vf.Choose("line", len(pre))]
	b := vf.Bytes("any", vf.Choose("n", vf.Tier(4, 5)))
	if p == "a=rtpmap:96 " || p == "a=fmtp:96 " {
		for _, c := range b {
			vf.Assume(c < 0x80)
		}
	}
	s := p + string(b)
	head := ""
	if vf.Choose("media", 2) == 1 {
		head = "m=video 0 RTP/AVP 96\n"
	}
	sdp.Parse(head + s + "\na=control:x\n")
	vf.Cover("returned")
}
