// Package h: opening and creating media by URL.
package h

import (
	"context"
	"errors"
	"io"
	"net"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/mp4"
	"github.com/nareix/joy5/format/rtmp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
	"github.com/nareix/joy5/zzvf/lib/dial"
	"github.com/nareix/joy5/zzvf/lib/vfs"
)

type streams struct {
	list []interface{}
	err  error
}

func (s *streams) Streams() ([]interface{}, error) { return s.list, s.err }

func codec() *aac.Codec {
	c, err := aac.FromMPEG4AudioConfigBytes([]byte{0x11, 0x90})
	vf.Assert(err == nil, "configuration")
	return c
}

func letters(name string, n int) string {
	b := vf.Bytes(name, n)
	for _, c := range b {
		vf.Assume(vf.And(c >= 'a', c <= 'z'))
	}
	return string(b)
}

// nowhere makes every dialled connection fail the test.
func nowhere() {
	dial.To(func(network, address string) (net.Conn, error) {
		vf.Fail("no connection for this")
		return nil, nil
	})
}

// what cannot be served is refused, and nothing is opened, created or truncated
//
//vf:bound extensions of 0..4 letters other than flv and mp4, or none, any of .flv and .mp4 where not supported, under the schemes none, file, http, https, and any other of 1..5 letters that is not supported
//vf:time 60
func VF_Refuse() {
	fs := vfs.Use()
	nowhere()
	create := vf.Choose("create", 2) == 1
	ext := ""
	switch k := vf.Choose("ext", 8); k {
	case 0:
	case 6:
		ext = ".flv"
	case 7:
		ext = ".mp4"
	default:
		ext = "." + letters("ext", k-1)
		vf.Assume(ext != ".flv")
		vf.Assume(ext != ".mp4")
	}
	scheme := []string{"", "file", "http", "https", "?"}[vf.Choose("scheme", 5)]
	url := "/dir/name" + ext
	switch scheme {
	case "":
		if vf.Choose("relative", 2) == 1 {
			url = "name" + ext
		}
		vf.Assume(ext != ".flv")
		vf.Assume(!create || ext != ".mp4")
	case "file":
		url = "file://" + url
		vf.Assume(ext != ".flv")
		vf.Assume(!create || ext != ".mp4")
	case "http", "https":
		url = scheme + "://host" + url
		vf.Assume(create || ext != ".flv")
	default:
		s := letters("scheme", 1+vf.Choose("len", 5))
		for _, known := range []string{"file", "rtmp", "rtmps", "http", "https"} {
			vf.Assume(s != known)
		}
		if !create {
			vf.Assume(s != "rtsp")
		}
		url = s + "://host" + url
	}
	path := "/dir/name" + ext
	old := fs.Put(path, []byte{1, 2, 3})
	short := fs.Put("name"+ext, []byte{1, 2, 3})
	o := &format.URLOpener{}
	if create {
		w, err := o.Create(url, &streams{list: []interface{}{codec()}})
		vf.Assert(err != nil && w == nil, "refused to create")
		vf.Cover("create")
	} else {
		r, err := o.Open(url)
		vf.Assert(err != nil && r == nil, "refused to open")
		vf.Cover("open")
	}
	vf.Assert(len(fs.Files) == 2, "no file created")
	for _, f := range []*vfs.File{old, short} {
		vf.Assert(!f.Truncated && len(f.Data) == 3, "the file is left alone")
		vf.Assert(f.Opened == f.Closed, "and not left open")
	}
	vf.Assert(len(fs.Gets) == 0, "nothing asked of a server")
}

// an MP4 file whose streams are unknown or cannot be stored is refused
//
//vf:bound no streams known, an error instead of them, or a stream of another kind
//vf:time 60
func VF_RefuseMP4() {
	fs := vfs.Use()
	old := fs.Put("/a.mp4", []byte{1, 2, 3})
	var s av.Streamer
	switch vf.Choose("why", 3) {
	case 1:
		s = &streams{err: errors.New("no streams")}
	case 2:
		s = &streams{list: []interface{}{"text"}}
	}
	w, err := (&format.URLOpener{}).Create("/a.mp4", s)
	vf.Assert(err != nil && w == nil, "refused to create")
	vf.Assert(!old.Truncated && len(old.Data) == 3, "the file is left alone")
	vf.Assert(old.Opened == old.Closed, "and not left open")
	vf.Cover("end")
}

// what is written to a file by its name is read back by it
//
//vf:bound an FLV file named with or without a directory or as file:, new or replacing a longer one, 0..2 packets of any kind, times and payload bytes arbitrary
//vf:time 60
func VF_FLV() {
	fs := vfs.Use()
	nowhere()
	path := []string{"/d/a.flv", "a.flv", "/d.mp4/a.flv"}[vf.Choose("name", 3)]
	url := path
	if path[0] == '/' && vf.Choose("file", 2) == 1 {
		url = "file://" + path
	}
	if vf.Choose("old", 2) == 1 {
		fs.Put(path, make([]byte, 300))
	}
	var mux *flv.Muxer
	var demux *flv.Demuxer
	o := &format.URLOpener{
		OnNewFlvMuxer:   func(m *flv.Muxer) { vf.Assert(mux == nil, "told once"); mux = m },
		OnNewFlvDemuxer: func(d *flv.Demuxer) { vf.Assert(demux == nil, "told once"); demux = d },
	}
	w, err := o.Create(url, nil)
	vf.Assert(err == nil && !w.IsRemote, "created")
	vf.Assert(mux != nil && w.PacketWriter == av.PacketWriter(mux), "the caller sees the muxer")
	var in []av.Packet
	for i, n := 0, vf.Choose("n", 3); i < n; i++ {
		p := lib.SymPacket(vf.Choose("kind", 5), 1)
		in = append(in, p)
		vf.Assert(w.WritePacket(p) == nil, "written")
	}
	vf.Assert(w.Close() == nil, "closed")
	f := fs.Files[path]
	vf.Assert(f != nil && f.Opened == 1 && f.Closed == 1, "the file is closed")
	r, err := o.Open(url)
	vf.Assert(err == nil && !r.IsRemote, "opened")
	vf.Assert(demux != nil && r.Flv == demux && r.PacketReader == av.PacketReader(demux), "the caller sees the demuxer")
	for i := range in {
		p, err := r.ReadPacket()
		vf.Assert(err == nil && lib.SamePacket(in[i], p), "the packet is read back")
	}
	_, err = r.ReadPacket()
	vf.Assert(err == io.EOF || len(in) == 0 && err != nil, "then the end")
	vf.Assert(r.Close() == nil && f.Opened == 2 && f.Closed == 2, "the file is closed")
	vf.Assert(len(fs.Asked) == 2 && len(fs.Gets) == 0, "nothing else is touched")
	vf.Cover("end")
}

// an MP4 file is complete once closed, and closed even if it cannot be completed
//
//vf:bound an MP4 file named with or without a directory, one packet with arbitrary bytes, the 1st..6th write failing or none
//vf:time 60
func VF_MP4() {
	fs := vfs.Use()
	nowhere()
	path := []string{"/d/a.mp4", "a.mp4"}[vf.Choose("name", 2)]
	f := fs.Put(path, make([]byte, 5000))
	f.FailWrite = vf.Choose("fail", 7)
	w, err := (&format.URLOpener{}).Create(path, &streams{list: []interface{}{codec()}})
	vf.Assert(err == nil && !w.IsRemote, "created")
	p := av.Packet{Type: av.AAC, Data: vf.Bytes("data", 2)}
	werr := w.WritePacket(p)
	cerr := w.Close()
	vf.Assert(f.Opened == 1 && f.Closed == 1, "the file is closed")
	if werr != nil || cerr != nil {
		vf.Assert(f.FailWrite != 0, "an error has a cause")
		vf.Cover("failed")
		return
	}
	vf.Assert(len(f.Data) < 5000, "nothing of the old file is left")
	d := mp4.NewDemuxer(&reader{b: f.Data})
	got, err := d.ReadPacket()
	vf.Assert(err == nil && got.Type == av.AAC && vf.BytesEq(got.Data, p.Data), "the packet is read back")
	vf.Cover("end")
}

type reader struct {
	b   []byte
	pos int
}

func (r *reader) Read(p []byte) (int, error) {
	if r.pos >= len(r.b) {
		return 0, io.EOF
	}
	n := copy(p, r.b[r.pos:])
	r.pos += n
	return n, nil
}

func (r *reader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += int64(r.pos)
	case 2:
		off += int64(len(r.b))
	}
	r.pos = int(off)
	return off, nil
}

// FLV over HTTP
//
//vf:bound http and https, any status, no answer, 0..1 packets of any kind
//vf:time 60
func VF_HTTP() {
	fs := vfs.Use()
	nowhere()
	url := []string{"http", "https"}[vf.Choose("scheme", 2)] + "://host:8080/live/a.flv?x=a.mp4"
	mw := &lib.Sink{}
	var in []av.Packet
	m := flv.NewMuxer(format.NewStreamsWriteSeeker(&seeker{Sink: mw}, nil))
	for i, n := 0, vf.Choose("n", 2); i < n; i++ {
		in = append(in, lib.SymPacket(vf.Choose("kind", 5), 1))
		vf.Assert(m.WritePacket(in[i]) == nil, "written")
	}
	body := &vfs.Body{Data: mw.B}
	fs.Code = vf.Int("status", 100, 599)
	if vf.Choose("answer", 2) == 1 {
		fs.Body = body
	}
	var demux *flv.Demuxer
	o := &format.URLOpener{OnNewFlvDemuxer: func(d *flv.Demuxer) { vf.Assert(demux == nil, "told once"); demux = d }}
	r, err := o.Open(url)
	vf.Assert(len(fs.Gets) == 1 && fs.Gets[0] == url, "the server is asked for it")
	if fs.Body == nil {
		vf.Assert(err != nil && r == nil, "no connection is an error")
		vf.Cover("refused")
		return
	}
	if fs.Code != 200 {
		if err != nil {
			vf.Assert(r == nil && body.Closed == 1, "not left open")
			vf.Cover("status")
			return
		}
		vf.Assert(fs.Code/100 == 2, "an error of the server is an error")
	}
	vf.Assert(err == nil && r.IsRemote && demux != nil && r.Flv == demux, "opened")
	for i := range in {
		p, err := r.ReadPacket()
		vf.Assert(err == nil && lib.SamePacket(in[i], p), "the packet is read")
	}
	_, err = r.ReadPacket()
	vf.Assert(err != nil, "then the end")
	r.Close()
	vf.Assert(body.Closed == 1, "closed")
	vf.Assert(len(fs.Asked) == 0, "no file is touched")
	vf.Cover("end")
}

type seeker struct{ *lib.Sink }

func (s *seeker) Seek(off int64, whence int) (int64, error) { return 0, errors.New("not a file") }

// conn counts how often it is closed.
type conn struct {
	net.Conn
	closed int
}

func (c *conn) Close() error { c.closed++; return c.Conn.Close() }

// an RTMP server at the other end
type peer struct {
	addr  []string
	local *conn
	got   []av.Packet
	pub   bool
	done  chan bool
}

func (p *peer) connect(address string, send []av.Packet) net.Conn {
	p.addr = append(p.addr, address)
	cc, sc := lib.NewPipe()
	p.done = make(chan bool, 1)
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		p.pub = c.Publishing
		if c.Publishing {
			for {
				pkt, err := c.ReadPacket()
				if err != nil {
					break
				}
				p.got = append(p.got, pkt)
			}
		} else {
			for _, pkt := range send {
				c.WritePacket(pkt)
			}
		}
	}
	go func() {
		s.HandleNetConn(sc)
		sc.Close()
		p.done <- true
	}()
	p.local = &conn{Conn: cc}
	return p.local
}

// RTMP servers are played and published to, by the means the caller chose
//
//vf:bound opening and creating an rtmp URL with and without a port; with and without the caller's own dialler, connection and callbacks; one packet of any kind with arbitrary bytes; default goroutine schedule
//vf:time 60
//vf:preempt 0
func VF_RTMP() {
	fs := vfs.Use()
	create := vf.Choose("create", 2) == 1
	port := vf.Choose("port", 2) == 1
	own := vf.Choose("dialler", 2) == 1
	wrap := vf.Choose("wrap", 2) == 1
	url, want := "rtmp://host/app/stream.mp4", "host:1935"
	if port {
		url, want = "rtmp://host:99/app/stream.flv", "host:99"
	}
	in := lib.SymPacket(vf.Choose("kind", 5), 1)
	p := &peer{}
	var clients, conns int
	var rc *rtmp.Conn
	o := &format.URLOpener{}
	tell := vf.Choose("callbacks", 2) == 1
	if tell {
		o.OnNewRtmpClient = func(*rtmp.Client) { clients++ }
		o.OnNewRtmpConn = func(c *rtmp.Conn) { conns++; rc = c }
	}
	nowhere()
	connect := func(network, address string) (net.Conn, error) {
		vf.Assert(network == "tcp", "network")
		return p.connect(address, []av.Packet{in}), nil
	}
	if own {
		o.NewDialFunc = func() func(context.Context, string, string) (net.Conn, error) {
			return func(_ context.Context, network, address string) (net.Conn, error) { return connect(network, address) }
		}
	} else {
		dial.To(connect)
	}
	var outer *conn
	if wrap {
		o.ReplaceRawConn = func(nc net.Conn) net.Conn {
			vf.Assert(nc == net.Conn(p.local) && outer == nil, "the connection is given once")
			outer = &conn{Conn: nc}
			return outer
		}
	}
	var closer io.Closer
	var nc net.Conn
	var remote bool
	if create {
		w, err := o.Create(url, nil)
		vf.Assert(err == nil, "created")
		vf.Assert(w.WritePacket(in) == nil, "written")
		vf.Assert(w.Rtmp != nil && (!tell || w.Rtmp == rc), "the caller sees the connection")
		closer, nc, remote = w, w.NetConn, w.IsRemote
	} else {
		r, err := o.Open(url)
		vf.Assert(err == nil, "opened")
		got, err := r.ReadPacket()
		vf.Assert(err == nil && lib.SamePacket(in, got), "the packet is read")
		vf.Assert(r.Rtmp != nil && (!tell || r.Rtmp == rc), "the caller sees the connection")
		closer, nc, remote = r, r.NetConn, r.IsRemote
	}
	vf.Assert(remote && (!tell || rc != nil && clients == 1 && conns == 1), "the caller is told of both once")
	if wrap {
		vf.Assert(nc == net.Conn(outer), "the caller's connection is used")
	} else {
		vf.Assert(nc == net.Conn(p.local), "the connection is used")
	}
	closer.Close()
	vf.Assert(p.local.closed == 1, "closed")
	<-p.done
	vf.Assert(p.pub == create, "in the right direction")
	if create {
		vf.Assert(len(p.got) == 1 && lib.SamePacket(in, p.got[0]), "the packet arrives")
	}
	vf.Assert(len(p.addr) == 1 && p.addr[0] == want, "where the URL says")
	vf.Assert(len(fs.Asked) == 0, "no file is touched")
	vf.Cover("end")
}

// a server that refuses or hangs up leaves nothing open
//
//vf:bound opening and creating an rtmp URL when no connection comes about, or it ends after 0..3 bytes
//vf:time 60
//vf:preempt 0
func VF_RTMPFails() {
	fs := vfs.Use()
	var c *conn
	k := vf.Choose("bytes", 5)
	dial.To(func(network, address string) (net.Conn, error) {
		if k == 4 {
			return nil, errors.New("connection refused")
		}
		f := &lib.FakeConn{}
		f.In.B, f.In.K = vf.Bytes("any", k), 1
		c = &conn{Conn: f}
		return c, nil
	})
	o := &format.URLOpener{}
	if vf.Choose("create", 2) == 1 {
		w, err := o.Create("rtmp://host/app/stream", nil)
		vf.Assert(err != nil && w == nil, "an error")
	} else {
		r, err := o.Open("rtmp://host/app/stream")
		vf.Assert(err != nil && r == nil, "an error")
	}
	if c != nil {
		vf.Assert(c.closed == 1, "closed")
		vf.Cover("hung up")
	}
	vf.Assert(len(fs.Asked) == 0, "no file is touched")
}

// waiting for a publisher, or for a player
//
//vf:bound an rtmp URL with @, a client that publishes one packet of any kind with arbitrary bytes; default goroutine schedule
//vf:time 60
//vf:preempt 0
func VF_Server() {
	fs := vfs.Use()
	cc, sc := lib.NewPipe()
	server := &conn{Conn: sc}
	var raw net.Conn
	l := &dial.Listener{Conns: []net.Conn{server}, Block: true}
	dial.Listen(l)
	in := lib.SymPacket(vf.Choose("kind", 5), 1)
	done := make(chan bool, 1)
	dial.To(func(network, address string) (net.Conn, error) { return cc, nil })
	go func() {
		c, nc, err := rtmp.NewClient().Dial("rtmp://host/app/stream", rtmp.PrepareWriting)
		vf.Assert(err == nil, "the client connects")
		vf.Assert(c.WritePacket(in) == nil, "and publishes")
		nc.Close()
		done <- true
	}()
	var conns, servers int
	o := &format.URLOpener{}
	tell := vf.Choose("callbacks", 2) == 1
	if tell {
		o.OnNewRtmpConn = func(*rtmp.Conn) { conns++ }
		o.OnNewRtmpServer = func(*rtmp.Server) { servers++ }
	} else {
		conns, servers = 1, 1
	}
	if vf.Choose("wrap", 2) == 1 {
		o.ReplaceRawConn = func(nc net.Conn) net.Conn {
			vf.Assert(nc == net.Conn(server) && raw == nil, "the connection is given once")
			raw = &conn{Conn: nc}
			return raw
		}
	} else {
		raw = server
	}
	r, err := o.Open("@rtmp://:99/app")
	vf.Assert(err == nil && r.IsRemote, "opened")
	vf.Assert(len(l.Addrs) == 1 && l.Addrs[0] == "tcp :99", "listening where the URL says")
	got, err := r.ReadPacket()
	vf.Assert(err == nil && lib.SamePacket(in, got), "the packet is read")
	_, err = r.ReadPacket()
	vf.Assert(err != nil, "then the end")
	vf.Assert(conns == 1 && servers == 1 && r.Rtmp != nil && r.NetConn == raw, "the caller is told")
	r.Close()
	vf.Assert(server.closed >= 1, "closed")
	<-done
	vf.Assert(len(fs.Asked) == 0, "no file is touched")
	vf.Cover("end")
}

const sdp = "v=0\r\nm=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/48000/2\r\na=fmtp:97 config=1190\r\na=control:track2\r\n"

// RTSP servers are played
//
//vf:bound an rtsp URL with and without a port, an audio packet of any 2 bytes; or no connection
//vf:time 60
func VF_RTSP() {
	fs := vfs.Use()
	url, want := "rtsp://cam/live.flv", "cam:554"
	if vf.Choose("port", 2) == 1 {
		url, want = "rtsp://cam:99/live.flv", "cam:99"
	}
	s := &lib.RTSPServer{}
	s.Response("200 OK", nil, sdp)
	s.Response("200 OK", []string{"Session: 1"}, "")
	s.Response("200 OK", nil, "")
	au := vf.Bytes("au", 2)
	s.Block(0, append([]byte{0x80, 0xe1, 0, 1, 0, 0, 0, 1, 1, 2, 3, 4, 0, 16, 0, 16}, au...))
	f := &lib.FakeConn{}
	f.In.B, f.In.K = s.B, 1<<20
	refuse := vf.Choose("refuse", 2) == 1
	dial.To(func(network, address string) (net.Conn, error) {
		vf.Assert(network == "tcp" && address == want, "where the URL says")
		if refuse {
			return nil, errors.New("connection refused")
		}
		return f, nil
	})
	r, err := (&format.URLOpener{}).Open(url)
	if refuse {
		vf.Assert(err != nil && r == nil, "an error")
		return
	}
	vf.Assert(err == nil && r.IsRemote, "opened")
	p, err := r.ReadPacket()
	if err == nil && p.Type != av.AAC {
		p, err = r.ReadPacket()
	}
	vf.Assert(err == nil && p.Type == av.AAC && vf.BytesEq(p.Data, au), "the packet is read")
	r.Close()
	vf.Assert(f.Closed, "closed")
	vf.Assert(len(fs.Asked) == 0, "no file is touched")
	vf.Cover("end")
}
