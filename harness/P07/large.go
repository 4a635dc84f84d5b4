package h

import (
	"net"
	"net/url"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

// a session's own chunk size: messages of more than one chunk, and what follows them, survive
//vf:bound a published session; an audio or video packet whose body fills one chunk of the 65536 bytes a session uses, one byte less or more, or two chunks and one byte less or more; arbitrary bytes at both ends and at the ends of the chunks, zero otherwise; 32-bit millisecond times; then an audio packet of 2 arbitrary bytes
//vf:time 60
//vf:preempt 0
func VF_Large() {
	kind := vf.Choose("kind", 2)
	n := []int{65535, 65536, 65537, 131071, 131072, 131073}[vf.Choose("size", 6)] - []int{2, 5}[kind]
	big, a := lib.SymPacket(kind, 0), lib.SymPacket(0, 2)
	big.Data = make([]byte, n)
	for i := 0; i < n; i += 65535 {
		big.Data[i] = vf.U8("byte")
	}
	big.Data[n-1] = vf.U8("last")
	in := []av.Packet{big, a}

	cc, sc := lib.NewPipe()
	done := make(chan bool, 1)
	var got []av.Packet
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		for {
			p, err := c.ReadPacket()
			if err != nil {
				break
			}
			got = append(got, p)
		}
		nc.Close()
	}
	go func() {
		s.HandleNetConn(sc)
		done <- true
	}()
	u, err := url.Parse("rtmp://host/app/stream")
	vf.Assert(err == nil, "url")
	c, err := rtmp.NewClient().FromNetConn(cc, u, rtmp.PrepareWriting)
	vf.Assert(err == nil, "the session begins")
	for _, p := range in {
		vf.Assert(c.WritePacket(p) == nil, "written")
	}
	cc.Close()
	<-done
	vf.Assert(len(got) == len(in), "every packet arrives, and no other")
	for i := range in {
		vf.Assert(lib.SamePacket(in[i], got[i]), "as it was sent")
	}
	vf.Cover("done")
}
