package h

import (
	"errors"
	"net"
	"net/url"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

type result struct {
	got  []av.Packet
	err  error
	pub  bool
	path string
	raw  string
	host string
	done chan bool
}

// session runs a client and a server over an in-memory connection.
func session(rawurl string, flags int, refuse error, in []av.Packet, wait bool) (srv *result, cli *result) {
	srv, cli = &result{done: make(chan bool, 1)}, &result{}
	cc, sc := lib.NewPipe()
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		srv.pub = c.Publishing
		srv.path, srv.raw, srv.host = c.URL.Path, c.URL.RawQuery, c.URL.Host
		c.PubPlayErr = refuse
		if refuse != nil {
			srv.err = c.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting)
			nc.Close()
			return
		}
		if c.Publishing {
			for {
				p, err := c.ReadPacket()
				if err != nil {
					srv.err = err
					break
				}
				srv.got = append(srv.got, p)
			}
		} else {
			for _, p := range in {
				if err := c.WritePacket(p); err != nil {
					srv.err = err
					break
				}
			}
		}
		nc.Close()
	}
	go func() {
		s.HandleNetConn(sc)
		srv.done <- true
	}()
	u, err := url.Parse(rawurl)
	vf.Assert(err == nil, "url")
	c, err := rtmp.NewClient().FromNetConn(cc, u, flags)
	if err == nil {
		cli.pub = c.Publishing
		if flags == rtmp.PrepareWriting {
			for _, p := range in {
				if err = c.WritePacket(p); err != nil {
					break
				}
			}
			cli.err = err
			cc.Close()
		} else {
			for {
				var p av.Packet
				if p, err = c.ReadPacket(); err != nil {
					cli.err = err
					break
				}
				cli.got = append(cli.got, p)
			}
		}
	} else {
		cli.err = err
		cc.Close()
	}
	<-srv.done
	return
}

func word(name string, n int) string {
	b := vf.Bytes(name, n)
	for _, c := range b {
		vf.Assume(vf.Or(vf.And(c >= 'a', c <= 'z'), c == '_'))
	}
	return string(b)
}

func packets(n int) (in []av.Packet) {
	for i := 0; i < n; i++ {
		in = append(in, lib.SymPacket(vf.Choose("kind", 5), 1))
	}
	return
}

func same(in, got []av.Packet) {
	vf.Assert(len(in) == len(got), "every packet arrives, and no other")
	for i := range in {
		vf.Assert(lib.SamePacket(in[i], got[i]), "packet unchanged")
	}
}

// publishing and playing: both ends agree on the direction, and media arrives as sent
//vf:bound publish and play of 0..2 packets of any kind, times and payload bytes arbitrary (0..1 byte); default goroutine schedule
//vf:time 60
//vf:preempt 0
func VF_Media() {
	flags := []int{rtmp.PrepareReading, rtmp.PrepareWriting}[vf.Choose("dir", 2)]
	n := vf.Choose("n", 3)
	in := packets(n)
	srv, cli := session("rtmp://host/app/stream", flags, nil, in, true)
	vf.Assert(srv.pub == (flags == rtmp.PrepareWriting), "the server knows the direction")
	vf.Assert(cli.pub == srv.pub, "both agree on the direction")
	vf.Assert(srv.path == "/app/stream" && srv.raw == "" && srv.host == "host", "the server sees the client's URL")
	if flags == rtmp.PrepareWriting {
		vf.Assert(cli.err == nil, "publishing succeeds")
		same(in, srv.got)
		vf.Cover("publish")
	} else {
		vf.Assert(srv.err == nil, "playing succeeds")
		same(in, cli.got)
		vf.Cover("play")
	}
}

// the server sees the application, stream and query the client asked for
//vf:bound paths of one to five segments of 1..2 letters, with and without a query of a key and a value, with and without a port, publish and play
//vf:time 60
//vf:preempt 0
func VF_URL() {
	flags := []int{rtmp.PrepareReading, rtmp.PrepareWriting}[vf.Choose("dir", 2)]
	host := []string{"h", "h:19350", "10.0.0.1:1"}[vf.Choose("host", 3)]
	n := 2 + vf.Choose("segs", 4)
	path := ""
	for i := 0; i < n; i++ {
		path += "/" + word("seg", 1+vf.Choose("len", 2)*vf.Tier(0, 1))
	}
	q := ""
	switch vf.Choose("query", 3) {
	case 1:
		q = word("k", 1) + "=" + word("v", 1)
	case 2:
		q = word("k", 1) + "=" + "a/" + word("v", 1) + "&x=%2f"
	}
	u := "rtmp://" + host + path
	if q != "" {
		u += "?" + q
	}
	srv, cli := session(u, flags, nil, nil, true)
	vf.Assert(srv.pub == (flags == rtmp.PrepareWriting) && cli.pub == srv.pub, "both agree on the direction")
	vf.Assert(srv.path == path, "path")
	vf.Assert(srv.raw == q, "query")
	vf.Assert(srv.host == host, "host")
	vf.Cover("done")
}

// a refusal is an error for the client, whatever its text
//vf:bound publish and play refused with a message of 0..2 bytes
//vf:preempt 0
//vf:time 30
func VF_Refuse() {
	flags := []int{rtmp.PrepareReading, rtmp.PrepareWriting}[vf.Choose("dir", 2)]
	srv, cli := session("rtmp://host/app/stream", flags, errors.New(vf.String("msg", vf.Choose("n", 3))), packets(1), true)
	vf.Assert(srv.err == nil, "the server delivers its refusal")
	vf.Assert(cli.err != nil, "the client sees an error")
	vf.Assert(cli.pub == false && len(cli.got) == 0, "nothing is published or played")
	vf.Cover("done")
}

// a session completes under other schedules of the goroutines involved
//vf:bound publish or play of one packet, every schedule with at most two preemptive switches
//vf:preempt 2
//vf:time 60
//vf:ttime 400
func VF_Schedules() {
	flags := []int{rtmp.PrepareReading, rtmp.PrepareWriting}[vf.Choose("dir", 2)]
	in := []av.Packet{{Type: av.AAC, Data: vf.Bytes("d", 2)}}
	srv, cli := session("rtmp://host/app/stream", flags, nil, in, true)
	if flags == rtmp.PrepareWriting {
		vf.Assert(cli.err == nil && srv.pub, "publishing succeeds")
		same(in, srv.got)
	} else {
		vf.Assert(srv.err == nil && !srv.pub, "playing succeeds")
		same(in, cli.got)
	}
	vf.Cover("done")
}

// packets around and beyond the chunk size of a session arrive as sent, and so do the ones after them
//vf:bound publish and play of a video packet with a body of 65535, 65536, 65537, 131072 or 131073 bytes, all zero but for arbitrary ones at both ends and around the end of the first chunk, then an audio packet of 2 arbitrary bytes; times arbitrary (32 bit milliseconds)
//vf:time 60
//vf:preempt 0
func VF_Large() {
	flags := []int{rtmp.PrepareReading, rtmp.PrepareWriting}[vf.Choose("dir", 2)]
	n := []int{65535, 65536, 65537, 131072, 131073}[vf.Choose("size", 5)] - 5 // the tag header counts
	v, a := lib.SymPacket(1, 0), lib.SymPacket(0, 2)
	v.Data = make([]byte, n)
	v.Data[0], v.Data[n-1] = vf.U8("first"), vf.U8("last")
	if n > 65536 {
		v.Data[65530], v.Data[65531] = vf.U8("end"), vf.U8("next")
	}
	in := []av.Packet{v, a}
	srv, cli := session("rtmp://host/app/stream", flags, nil, in, true)
	if flags == rtmp.PrepareWriting {
		vf.Assert(cli.err == nil, "publishing succeeds")
		same(in, srv.got)
	} else {
		vf.Assert(srv.err == nil, "playing succeeds")
		same(in, cli.got)
	}
	vf.Cover("done")
}
