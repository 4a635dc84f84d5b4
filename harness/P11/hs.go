package h

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"net"
	"net/url"

	"github.com/nareix/joy5/format/rtmp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

var tail = []byte{
	0xF0, 0xEE, 0xC2, 0x4A, 0x80, 0x68, 0xBE, 0xE8, 0x2E, 0x00, 0xD0, 0xD1,
	0x02, 0x9E, 0x7E, 0x57, 0x6E, 0xEC, 0x5D, 0x2D, 0x29, 0x80, 0x6F, 0xAB,
	0x93, 0xB8, 0xE6, 0x36, 0xCF, 0xEB, 0x31, 0xAE,
}

const fp = "Genuine Adobe Flash Player 001"
const fms = "Genuine Adobe Flash Media Server 001"

func mac(key, data []byte) []byte {
	h := hmac.New(sha256.New, key)
	h.Write(data)
	return h.Sum(nil)
}

// digestAt is the place of the digest in p for the scheme with the given base
func digestAt(p []byte, base int) int {
	return (int(p[base])+int(p[base+1])+int(p[base+2])+int(p[base+3]))%728 + base + 4
}

func macAt(key, p []byte, at int) []byte {
	d := append(append([]byte{}, p[:at]...), p[at+32:]...)
	return mac(key, d)
}

func valid(key, p []byte, base int) (bool, []byte) {
	at := digestAt(p, base)
	d := p[at : at+32]
	return bytes.Equal(d, macAt(key, p, at)), d
}

// block is 1536 bytes; the four offset bytes of the given base are arbitrary,
// and so is one byte of every 64 others.
func block(base int) []byte {
	p := make([]byte, 1536)
	for i := range p {
		p[i] = byte(i * 31)
		if i%64 == 5 && i >= 16 && i != 773 {
			p[i] = vf.U8("byte")
		}
	}
	for i := 0; i < 4; i++ {
		p[base+i] = vf.U8("off")
	}
	return p
}

func sign(key, p []byte, base int) []byte {
	at := digestAt(p, base)
	d := macAt(key, p, at)
	copy(p[at:], d)
	return d
}

func serve(in []byte, k int) (*rtmp.Conn, []byte) {
	s := rtmp.NewServer()
	var c *rtmp.Conn
	s.OnNewConn = func(x *rtmp.Conn) { c = x }
	s.HandleConn = func(*rtmp.Conn, net.Conn) {}
	nc := &lib.FakeConn{In: lib.Chunked{B: in, K: k}}
	s.HandleNetConn(nc)
	vf.Assert(nc.Closed, "a connection that ends in the handshake or right after is closed")
	return c, nc.Out
}

// the server answers a digest handshake with the digests the scheme requires
//vf:bound both digest positions schemes, every value of the four offset bytes (all 728 digest positions), arbitrary further content; fixed server randomness
//vf:time 100
//vf:ttime 300
func VF_ServerDigest() {
	base := []int{8, 772}[vf.Choose("scheme", 2)]
	c1 := block(base)
	d := sign([]byte(fp), c1, base)
	if base == 8 {
		// no accidental digest in the other place
		ok, _ := valid([]byte(fp), c1, 772)
		vf.Assume(!ok)
	}
	in := append([]byte{3}, c1...)
	in = append(in, make([]byte, 1536)...)
	c, out := serve(in, 4096)
	vf.Assert(c.Stage >= rtmp.StageHandshakeDone, "handshake completes")
	vf.Assert(len(out) == 3073, "S0, S1 and S2 are sent")
	checkServerAnswer(out, d)
	vf.Cover("done")
}

func checkServerAnswer(out, d []byte) {
	vf.Assert(out[0] == 3, "S0 is version 3")
	s1, s2 := out[1:1537], out[1537:]
	full := append([]byte(fms), tail...)
	a, _ := valid([]byte(fms), s1, 8)
	if !a {
		a, _ = valid([]byte(fms), s1, 772)
	}
	vf.Assert(a, "S1 carries the server's digest")
	key := mac(full, d)
	vf.Assert(vf.BytesEq(s2[1504:], mac(key, s2[:1504])), "S2 is signed with the client's digest")
}

// any server randomness gives a valid S1
//vf:bound every value of the server's random digest offset (all 728 positions), fixed client
//vf:time 60
func VF_ServerRandom() {
	c1 := make([]byte, 1536)
	d := sign([]byte(fp), c1, 8)
	first := true
	vf.Rand(func(p []byte) {
		for i := range p {
			p[i] = byte(i * 13)
		}
		if first {
			copy(p, vf.Bytes("rand", 4))
			first = false
		}
	})
	in := append([]byte{3}, c1...)
	in = append(in, make([]byte, 1536)...)
	c, out := serve(in, 4096)
	vf.Assert(c.Stage >= rtmp.StageHandshakeDone, "handshake completes")
	vf.Assert(len(out) == 3073, "S0, S1 and S2 are sent")
	checkServerAnswer(out, d)
	vf.Cover("done")
}

// the server echoes a simple handshake
//vf:bound arbitrary content in 4+24 places without a valid digest, offsets in one of 728 positions; delivered in pieces of 1000 bytes
//vf:time 60
func VF_ServerSimple() {
	c1 := block(8)
	vf.Assume(c1[9] == 0 && c1[10] == 0 && c1[11] == 0)
	a, _ := valid([]byte(fp), c1, 8)
	b, _ := valid([]byte(fp), c1, 772)
	vf.Assume(!a && !b)
	in := append([]byte{3}, c1...)
	in = append(in, vf.Bytes("c2", 8)...)
	in = append(in, make([]byte, 1528)...)
	c, out := serve(in, 1000)
	vf.Assert(c.Stage >= rtmp.StageHandshakeDone, "handshake completes")
	vf.Assert(len(out) == 3073 && out[0] == 3, "S0, S1 and S2 are sent")
	vf.Assert(vf.BytesEq(out[1537:], c1), "S2 echoes C1")
	vf.Cover("done")
}

// other versions and truncated handshakes are refused
//vf:bound every version byte; input cut at 0, 1, 2, 1536, 1537, 1538, 3072 or complete
func VF_ServerRefuses() {
	v := vf.U8("version")
	n := []int{0, 1, 2, 1536, 1537, 1538, 3072, 3073}[vf.Choose("cut", 8)]
	in := append([]byte{v}, make([]byte, 3072)...)
	c, out := serve(in[:n], 4096)
	if n == 3073 && v == 3 {
		vf.Assert(c.Stage >= rtmp.StageHandshakeDone, "handshake completes")
		vf.Cover("ok")
		return
	}
	vf.Assert(c.Stage < rtmp.StageHandshakeDone, "handshake does not complete")
	if n < 1537 || v != 3 {
		vf.Assert(len(out) == 0, "nothing is sent to a peer that is not understood")
	}
	vf.Cover("refused")
}

func connect(in []byte, k int) ([]byte, error) {
	u, _ := url.Parse("rtmp://host/app/stream")
	nc := &lib.FakeConn{In: lib.Chunked{B: in, K: k}}
	_, err := rtmp.NewClient().FromNetConn(nc, u, rtmp.PrepareReading)
	return nc.Out, err
}

// the client proves itself to a digest server and echoes a simple one
//vf:bound server digest in either place at every one of the 728 positions, or no digest; arbitrary further content; fixed client randomness
//vf:time 100
//vf:ttime 300
func VF_Client() {
	kind := vf.Choose("kind", 3)
	base := []int{8, 772, 8}[kind]
	s1 := block(base)
	if kind == 2 {
		vf.Assume(s1[9] == 0 && s1[10] == 0 && s1[11] == 0)
	}
	var d []byte
	if kind < 2 {
		d = sign([]byte(fms), s1, base)
	}
	if kind != 1 {
		ok, _ := valid([]byte(fms), s1, 772)
		vf.Assume(!ok)
	}
	if kind == 2 {
		ok, _ := valid([]byte(fms), s1, 8)
		vf.Assume(!ok)
	}
	in := append([]byte{3}, s1...)
	in = append(in, make([]byte, 1536)...)
	out, err := connect(in, 4096)
	vf.Assert(err != nil, "the peer went away after the handshake")
	vf.Assert(len(out) > 3073, "C0, C1, C2 and the connect command are sent")
	vf.Assert(out[0] == 3, "C0 is version 3")
	a, _ := valid([]byte(fp), out[1:1537], 8)
	if !a {
		a, _ = valid([]byte(fp), out[1:1537], 772)
	}
	vf.Assert(a, "C1 carries the client's digest")
	c2 := out[1537:3073]
	if kind < 2 {
		key := mac(append([]byte(fp), tail...), d)
		vf.Assert(vf.BytesEq(c2[1504:], mac(key, c2[:1504])), "C2 is signed with the server's digest")
		vf.Cover("digest")
	} else {
		vf.Assert(vf.BytesEq(c2, s1), "C2 echoes S1")
		vf.Cover("simple")
	}
}

// any client randomness gives a valid C1; a server that stops answering is an error
//vf:bound every value of the client's random digest offset (all 728 positions); server sends 0, 1, 1537 or 3072 bytes
//vf:time 60
func VF_ClientRandom() {
	first := true
	vf.Rand(func(p []byte) {
		for i := range p {
			p[i] = byte(i * 13)
		}
		if first {
			copy(p, vf.Bytes("rand", 4))
			first = false
		}
	})
	out, err := connect(make([]byte, []int{0, 1, 1537, 3072}[vf.Choose("n", 4)]), 4096)
	vf.Assert(err != nil, "a server that does not complete the handshake")
	vf.Assert(len(out) == 1537 && out[0] == 3, "C0 and C1")
	a, _ := valid([]byte(fp), out[1:], 8)
	vf.Assert(a, "C1 carries the client's digest")
	vf.Cover("done")
}
