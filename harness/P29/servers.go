// The servers of avtool carry whole streams and let go of every connection.
//
//vf:dir cmd/avtool
package main

import (
	"net"
	"net/url"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
	"github.com/nareix/joy5/zzvf/lib/dial"
	"github.com/nareix/joy5/zzvf/lib/vfs"
)

// vsConn tells when it is closed.
type vsConn struct {
	net.Conn
	closed chan bool
	n      int
}

func (c *vsConn) Close() error {
	c.n++
	if c.n == 1 {
		c.closed <- true
	}
	return c.Conn.Close()
}

type vsNet struct {
	l       *dial.Listener
	clients []net.Conn
	servers []*vsConn
}

// vsListen gives the server n connections.
func vsListen(n int) *vsNet {
	v := &vsNet{l: &dial.Listener{Block: true}}
	for i := 0; i < n; i++ {
		c, s := lib.NewPipe()
		w := &vsConn{Conn: s, closed: make(chan bool, 1)}
		v.clients = append(v.clients, c)
		v.servers = append(v.servers, w)
		v.l.Conns = append(v.l.Conns, w)
	}
	dial.Listen(v.l)
	dial.To(func(network, address string) (net.Conn, error) {
		vf.Fail("dials " + address)
		return nil, lib.EOF
	})
	return v
}

func (v *vsNet) client(i int, rawurl string, flags int) *rtmp.Conn {
	u, err := url.Parse(rawurl)
	vf.Assert(err == nil, "url")
	c, err := rtmp.NewClient().FromNetConn(v.clients[i], u, flags)
	vf.Assert(err == nil, "the client is let in")
	return c
}

func vsWrite(c *rtmp.Conn, in []av.Packet) {
	for _, p := range in {
		vf.Assert(c.WritePacket(p) == nil, "written")
	}
}

// vsStream is a stream of one group of pictures.
func vsStream(n int) (in []av.Packet) {
	in = append(in, av.Packet{Type: av.H264DecoderConfig, Data: vf.Bytes("config", 1)})
	for i := 0; i < n; i++ {
		in = append(in, av.Packet{Type: av.H264, IsKeyFrame: i == 0, Time: time.Duration(vf.U16("time")) * time.Millisecond, Data: vf.Bytes("data", 1)})
	}
	return
}

func vsRead(c *rtmp.Conn, in []av.Packet) {
	for _, p := range in {
		got, err := c.ReadPacket()
		vf.Assert(err == nil, "read")
		if p.Type == av.H264DecoderConfig {
			// configurations are sent again, without a time of their own
			vf.Assert(got.Type == p.Type && vf.BytesEq(got.Data, p.Data), "the configuration arrives")
			continue
		}
		vf.Assert(lib.SamePacket(p, got), "the packet arrives")
	}
}

// a relayed stream, and the connections of all who took part
//vf:bound one publisher of a configuration and 1..2 packets with arbitrary bytes and times, and one subscriber of the same path, either first, who leave in either order; goroutines take turns, with at most one deviation (thorough: two)
//vf:preempt 1
//vf:tpreempt 2
//vf:ttime 200
//vf:sched fifo
//vf:hang
//vf:time 60
func VF_Pubsub() {
	v := vsListen(2)
	go doPubsubRtmp(":1")
	in := vsStream(1 + vf.Choose("n", vf.Tier(1, 2)))
	first := vf.Choose("publisher first", 2) == 1
	publish := func(i int) *rtmp.Conn {
		p := v.client(i, "rtmp://h/app/s", rtmp.PrepareWriting)
		vsWrite(p, in)
		return p
	}
	var sub *rtmp.Conn
	if first {
		publish(0)
		sub = v.client(1, "rtmp://h/app/s", rtmp.PrepareReading)
	} else {
		// it is answered when there is something to play
		go publish(1)
		sub = v.client(0, "rtmp://h/app/s", rtmp.PrepareReading)
	}
	vsRead(sub, in)
	k := vf.Choose("leaves first", 2)
	v.clients[k].Close()
	<-v.servers[k].closed
	v.clients[1-k].Close()
	<-v.servers[1-k].closed
	vf.Assert(v.l.Addrs[0] == "tcp :1", "listens where it was told")
	vf.Cover("end")
}

// a stream lasts as long as someone takes part in it
//vf:bound a publisher of a configuration and one packet with arbitrary bytes, a subscriber who watches and leaves, or two who watch and one leaves, and a later subscriber of the same path; goroutines take turns
//vf:preempt 0
//vf:tpreempt 1
//vf:ttime 200
//vf:sched fifo
//vf:hang
//vf:time 30
func VF_Late() {
	v := vsListen(4)
	go doPubsubRtmp(":1")
	in := vsStream(1)
	vsWrite(v.client(0, "rtmp://h/app/s", rtmp.PrepareWriting), in)
	two := vf.Choose("two", 2)
	for i := 0; i <= two; i++ {
		vsRead(v.client(1+i, "rtmp://h/app/s", rtmp.PrepareReading), in)
	}
	v.clients[1].Close()
	<-v.servers[1].closed
	vsRead(v.client(2+two, "rtmp://h/app/s", rtmp.PrepareReading), in)
	vf.Cover("end")
}

// streams of other paths are other streams
//vf:bound two publishers of a configuration and one packet with arbitrary bytes at two paths that differ in the application, in the stream or in a further part, and a subscriber of the second; or a publisher and a subscriber of one path who differ in the query or in the name and port of the server; goroutines take turns
//vf:preempt 0
//vf:sched fifo
//vf:hang
//vf:time 30
func VF_Paths() {
	v := vsListen(3)
	go doPubsubRtmp(":1")
	p := [][2]string{{"/app/s", "/app/t"}, {"/app/s", "/app2/s"}, {"/app/s", "/app/s/1"}, {"/app/s", "/app/s?x=1"}, {"/app/s", "/app/s"}}[vf.Choose("paths", 5)]
	a, b := vsStream(1), vsStream(1)
	vsWrite(v.client(0, "rtmp://h"+p[0], rtmp.PrepareWriting), a)
	if p[1] == p[0] {
		// nor does another name of the server
		vsRead(v.client(1, "rtmp://h2:7"+p[1], rtmp.PrepareReading), a)
		vf.Cover("name")
		return
	}
	if p[1] == "/app/s?x=1" {
		// a query does not make another stream
		vsRead(v.client(1, "rtmp://h"+p[1], rtmp.PrepareReading), a)
		vf.Cover("query")
		return
	}
	vsWrite(v.client(1, "rtmp://h"+p[1], rtmp.PrepareWriting), b)
	vsRead(v.client(2, "rtmp://h"+p[1], rtmp.PrepareReading), b)
	vf.Cover("end")
}

// a publisher who is replaced is let go
//vf:bound a publisher of a configuration and 1 packet, a second one at the same path with arbitrary bytes, then more from the first until its connection ends; goroutines take turns, with at most one deviation (thorough: two)
//vf:preempt 1
//vf:tpreempt 2
//vf:ttime 200
//vf:sched fifo
//vf:hang
//vf:time 60
func VF_Replaced() {
	v := vsListen(2)
	go doPubsubRtmp(":1")
	in := vsStream(1)
	p := v.client(0, "rtmp://h/app/s", rtmp.PrepareWriting)
	vsWrite(p, in)
	q := v.client(1, "rtmp://h/app/s", rtmp.PrepareWriting)
	vsWrite(q, vsStream(1))
	// what the first one sends from here on is read once at most
	p.WritePacket(in[1])
	<-v.servers[0].closed
	vf.Assert(v.servers[1].n == 0, "the second one stays")
	vf.Cover("end")
}

// a forwarded stream, and where it may not go
//vf:bound a publisher of 0..2 packets of any kind with arbitrary bytes; to an RTMP server that takes all of it, or leaves, or is not there; to a file, another scheme, a listener or nowhere; or a player instead of a publisher; goroutines take turns
//vf:preempt 0
//vf:sched fifo
//vf:hang
//vf:time 60
func VF_Forward() {
	fs := vfs.Use()
	v := vsListen(1)
	var got []av.Packet
	var target *vsConn
	done := make(chan bool, 1)
	to := vf.Choose("to", 9)
	fwd := []string{"rtmp://t/x/y", "rtmp://t:7/x/y", "rtmp://t/x/y", "", "/tmp/x.flv", "x.mp4", "file:/x.flv", "@rtmp://:9/x", "gopher://x"}[to]
	n := vf.Choose("n", 3)
	leave := vf.Choose("leave", 2) == 1
	dial.To(func(network, address string) (net.Conn, error) {
		vf.Assert(to < 3 && address == []string{"t:1935", "t:7", "t:1935"}[to], "connects where it was told")
		if to == 2 {
			return nil, lib.EOF
		}
		cc, sc := lib.NewPipe()
		target = &vsConn{Conn: cc, closed: make(chan bool, 1)}
		s := rtmp.NewServer()
		s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
			vf.Assert(c.Publishing && c.URL.Path == "/x/y", "publishes there")
			for !leave || len(got) == 0 {
				p, err := c.ReadPacket()
				if err != nil {
					break
				}
				got = append(got, p)
			}
			nc.Close()
			done <- true
		}
		go s.HandleNetConn(sc)
		return target, nil
	})
	go doForwardRtmp(":1")
	in := []av.Packet{}
	for i := 0; i < n; i++ {
		in = append(in, lib.SymPacket(vf.Choose("kind", 5), 1))
	}
	u := "rtmp://h/app/s"
	if fwd != "" {
		u += "?fwd=" + url.QueryEscape(fwd)
	}
	if vf.Choose("play", 2) == 1 {
		pu, _ := url.Parse(u)
		_, err := rtmp.NewClient().FromNetConn(v.clients[0], pu, rtmp.PrepareReading)
		vf.Assert(err != nil, "a player is not served")
		<-v.servers[0].closed
		vf.Assert(target == nil && len(fs.Asked) == 0, "nothing is opened for a player")
		vf.Cover("player")
		return
	}
	pu, _ := url.Parse(u)
	c, err := rtmp.NewClient().FromNetConn(v.clients[0], pu, rtmp.PrepareWriting)
	vf.Assert(err == nil || to >= 2, "the client is let in")
	for _, p := range in {
		if err != nil {
			break
		}
		if err := c.WritePacket(p); err != nil {
			vf.Assert(to >= 2 || leave, "written")
			break
		}
	}
	v.clients[0].Close()
	<-v.servers[0].closed
	vf.Assert(len(fs.Asked) == 0, "no file is touched")
	vf.Assert(len(v.l.Addrs) == 1, "nothing else is listened to")
	if to < 2 {
		<-target.closed
		<-done
		if leave && n > 0 {
			in = in[:1]
		}
		vf.Assert(len(in) == len(got), "every packet is forwarded")
		for i := range in {
			vf.Assert(lib.SamePacket(in[i], got[i]), "unchanged")
		}
		vf.Cover("forwarded")
		return
	}
	vf.Assert(target == nil && len(got) == 0, "not forwarded")
	vf.Cover("not forwarded")
}

