// Package h: what fails underneath is never taken for success.
package h

import (
	"bytes"
	"errors"
	"io"
	"net"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/mp4"
	"github.com/nareix/joy5/format/rtmp"
	"github.com/nareix/joy5/format/rtsp"
	"github.com/nareix/joy5/utils/bits"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
	"github.com/nareix/joy5/zzvf/lib/dial"
)

var errFault = errors.New("fault")

// fault decides which of the operations on something fails.
type fault struct {
	at     int // number of the operation that fails
	sticky bool
	n      int
	failed bool
}

func newFault(max int) *fault {
	f := &fault{at: vf.Choose("fails at", max)}
	f.sticky = vf.Choose("for good", 2) == 1
	return f
}

func (f *fault) op() bool {
	bad := f.n == f.at || f.sticky && f.n > f.at
	f.n++
	f.failed = f.failed || bad
	return bad
}

// file is a file some operation on which fails.
type file struct {
	*fault
	b       []byte
	pos     int64
	streams []interface{}
	closed  int
	part    bool
}

func (o *file) Write(p []byte) (int, error) {
	var err error
	if o.op() {
		err = errFault
		if o.part {
			p = p[:len(p)/2]
		} else {
			p = nil
		}
	}
	for n := o.pos + int64(len(p)); int64(len(o.b)) < n; {
		o.b = append(o.b, 0)
	}
	copy(o.b[o.pos:], p)
	o.pos += int64(len(p))
	return len(p), err
}

func (o *file) Read(p []byte) (int, error) {
	if o.op() {
		return 0, errFault
	}
	if o.pos >= int64(len(o.b)) {
		return 0, io.EOF
	}
	n := copy(p, o.b[o.pos:])
	o.pos += int64(n)
	return n, nil
}

func (o *file) Seek(off int64, whence int) (int64, error) {
	if o.op() {
		return 0, errFault
	}
	switch whence {
	case 1:
		off += o.pos
	case 2:
		off += int64(len(o.b))
	}
	if off < 0 {
		return 0, errors.New("seek")
	}
	o.pos = off
	return off, nil
}

func (o *file) Close() error {
	o.closed++
	if o.op() {
		return errFault
	}
	return nil
}

func (o *file) Streams() ([]interface{}, error) { return o.streams, nil }

func newFile(max int) *file {
	return &file{fault: newFault(max), part: vf.Choose("in part", 2) == 1}
}

// FLV files
//vf:bound 2 packets of any kind with payloads of 0..2 arbitrary bytes to a destination any one write to which fails, once or from then on, having taken nothing or a half
//vf:time 60
func VF_WriteFlv() {
	f := newFile(8)
	m := flv.NewMuxer(f)
	for i := 0; i < 2; i++ {
		err := m.WritePacket(lib.SymPacket(vf.Choose("kind", 5), 2))
		vf.Assert((err != nil) == f.failed, "the write that failed is reported")
		if err != nil {
			vf.Cover("failed")
			return
		}
	}
	vf.Cover("written")
}

// tags
//vf:bound a video, audio or script tag of 0..2 arbitrary bytes to a destination any one write to which fails
//vf:time 60
func VF_WriteTag() {
	f := newFile(4)
	t := flvio.Tag{Type: []uint8{flvio.TAG_VIDEO, flvio.TAG_AUDIO, flvio.TAG_AMF0}[vf.Choose("type", 3)], Data: vf.Bytes("data", vf.Choose("len", 3))}
	err := flvio.WriteTag(f, t, make([]byte, 64))
	vf.Assert((err != nil) == f.failed, "the write that failed is reported")
	vf.Cover("end")
}

var (
	avcc = []byte{1, 66, 0, 30, 0xff, 0xe1, 0, 8, 0x67, 66, 0, 30, 0xf4, 0x0b, 0x04, 0xb2, 1, 0, 4, 0x68, 0xce, 0x38, 0x80}
	asc  = []byte{0x12, 0x10}
)

func codecs() []interface{} {
	v, err := h264.FromDecoderConfig(avcc)
	vf.Assert(err == nil, "video configuration")
	a, err := aac.FromMPEG4AudioConfigBytes(asc)
	vf.Assert(err == nil, "audio configuration")
	return []interface{}{v, a}
}

func mixed(n int) (ps []av.Packet) {
	for i := 0; i < n; i++ {
		p := av.Packet{Type: av.AAC, Time: time.Duration(i) * time.Second, Data: vf.Bytes("data", 2)}
		if vf.Choose("video", 2) == 1 {
			p.Type = av.H264
			p.IsKeyFrame = true
		}
		ps = append(ps, p)
	}
	return
}

// MP4 files
//vf:bound 1..2 (thorough 3) packets of 2 arbitrary bytes of either stream and the trailer to a destination any one write, seek or close of which fails, once or from then on, through the muxer or the writer that closes the file
//vf:time 60
//vf:ttime 200
func VF_WriteMp4() {
	f := newFile(16)
	f.streams = codecs()
	bad := false
	m, err := mp4.NewMuxer(f)
	vf.Assert(err == nil, "muxer")
	ps := mixed(1 + vf.Choose("n", vf.Tier(2, 3)))
	for _, p := range ps {
		bad = m.WritePacket(p) != nil || bad
	}
	// what happens in closing is told by the closing
	before := f.failed
	w := format.Mp4WriterCloser{Closer: f, Muxer: m}
	err = w.Close()
	vf.Assert(f.closed == 1, "the file is closed")
	if !before {
		vf.Assert((err != nil) == f.failed, "what fails in closing is reported")
		vf.Assert(!bad, "no failure without cause")
	} else {
		vf.Assert(bad || err != nil, "the failure is reported")
	}
	if f.failed {
		vf.Cover("failed")
		return
	}
	d := mp4.NewDemuxer(bytes.NewReader(f.b))
	for range ps {
		_, err := d.ReadPacket()
		vf.Assert(err == nil, "written")
	}
	_, err = d.ReadPacket()
	vf.Assert(err == io.EOF, "all of it")
	vf.Cover("written")
}

// packets an MP4 file cannot hold
//vf:bound 3 packets of 1 byte of one stream with arbitrary times up to 2^30 microseconds in any order
//vf:time 60
func VF_BackMp4() {
	f := &file{fault: &fault{at: -1}, streams: codecs()}
	m, err := mp4.NewMuxer(f)
	vf.Assert(err == nil, "muxer")
	typ := []int{av.AAC, av.H264}[vf.Choose("video", 2)]
	bad := false
	var ts []time.Duration
	for i := 0; i < 3; i++ {
		t := time.Duration(vf.U32("time")&0x3fffffff) * time.Microsecond
		bad = m.WritePacket(av.Packet{Type: typ, Time: t, Data: []byte{byte(i)}, IsKeyFrame: true}) != nil || bad
		ts = append(ts, t)
	}
	bad = m.WriteTrailer() != nil || bad
	vf.Assert(bad == !vf.And(ts[0] <= ts[1], ts[1] <= ts[2]), "a packet that is not recorded is refused")
	vf.Cover("end")
}

// bit streams
//vf:bound 3 fields of 1..64 bits of arbitrary value, or 9 bytes, to a destination any one write to which fails, then flushed
//vf:time 60
func VF_WriteBits() {
	f := newFile(4)
	w := &bits.Writer{W: f}
	bad := false
	if vf.Choose("bytes", 2) == 1 {
		_, err := w.Write(vf.Bytes("b", 9))
		bad = err != nil
	} else {
		for i := 0; i < 3 && !bad; i++ {
			bad = w.WriteBits64(0, []int{1, 8, 13, 56, 64}[vf.Choose("bits", 5)]) != nil
		}
	}
	if !bad {
		bad = w.FlushBits() != nil
	}
	vf.Assert(bad == f.failed, "the write that failed is reported")
	vf.Cover("end")
}

// audio configurations
//vf:bound an audio configuration of arbitrary object type, rate and channels to a destination the write to which fails
//vf:time 60
func VF_WriteConfig() {
	f := newFile(2)
	err := aac.WriteMPEG4AudioConfig(f, aac.MPEG4AudioConfig{
		ObjectType:      uint(vf.U8("object")) & 63,
		SampleRateIndex: uint(vf.U8("index")) & 15,
		SampleRate:      int(vf.U32("rate") & 0xffffff),
		ChannelConfig:   uint(vf.U8("channels")) & 15,
	})
	vf.Assert((err != nil) == f.failed, "the write that failed is reported")
	vf.Cover("end")
}

// bit readers
//vf:bound bits, bytes and Exp-Golomb codes read from 0..5 arbitrary bytes after which the source fails
//vf:time 60
func VF_ReadBits() {
	n := vf.Choose("n", 6)
	src := &broken{b: vf.Bytes("b", n)}
	var err error
	switch vf.Choose("how", 6) {
	case 0:
		_, err = (&bits.Reader{R: src}).ReadBits64(33)
		vf.Assert((err != nil) == (n < 5), "bits")
	case 1:
		r := &bits.Reader{R: src}
		_, err = r.ReadBits(3)
		if err == nil {
			_, err = r.ReadBits64(62)
		}
		vf.Assert(err != nil, "more bits than there are")
	case 2:
		_, err = (&bits.Reader{R: src}).Read(make([]byte, 5))
		vf.Assert((err != nil) == (n < 5), "bytes")
	case 3:
		_, err = (&bits.GolombBitReader{R: src}).ReadBits(17)
		vf.Assert((err != nil) == (n < 3), "bits one by one")
	case 4:
		_, err = (&bits.GolombBitReader{R: src}).ReadExponentialGolombCode()
		vf.Assert((err != nil) == src.failed, "code")
	case 5:
		_, err = (&bits.GolombBitReader{R: src}).ReadSE()
		vf.Assert((err != nil) == src.failed, "signed code")
	}
	vf.Assert((err != nil) == src.failed, "a failure of the source is reported")
	if err != nil {
		vf.Assert(err == errFault || n > 0 && err == io.ErrUnexpectedEOF, "as what it is")
		vf.Cover("failed")
		return
	}
	vf.Cover("read")
}

// broken is a source that fails after some bytes.
type broken struct {
	b      []byte
	k      int
	failed bool
}

func (r *broken) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		r.failed = true
		return 0, errFault
	}
	n := len(r.b)
	if r.k > 0 && r.k < n {
		n = r.k
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

// FLV sources
//vf:bound 2 packets of any kind with payloads of 0..1 arbitrary bytes from a source that fails after any number of bytes, in pieces of 1 or 64 bytes
//vf:time 60
func VF_ReadFlv() {
	w := &file{fault: &fault{at: -1}}
	m := flv.NewMuxer(w)
	var ends []int
	for i := 0; i < 2; i++ {
		vf.Assert(m.WritePacket(lib.SymPacket(vf.Choose("kind", 4), 1)) == nil, "write")
		ends = append(ends, len(w.b))
	}
	cut := vf.Choose("cut", len(w.b)+1)
	d := flv.NewDemuxer(&broken{b: w.b[:cut], k: []int{1, 64}[vf.Choose("pieces", 2)]})
	for i := 0; i < 3; i++ {
		_, err := d.ReadPacket()
		if i < 2 && cut >= ends[i] {
			vf.Assert(err == nil, "what came is delivered")
			continue
		}
		vf.Assert(err != nil && err != io.EOF, "a failure is no end")
		vf.Cover("failed")
		return
	}
}

// MP4 files that cannot be read
//vf:bound a file of 2 packets of 2 arbitrary bytes of either stream any one read or seek of which fails, once or from then on
//vf:time 60
//vf:ttime 200
func VF_ReadMp4() {
	w := &file{fault: &fault{at: -1}, streams: codecs()}
	m, err := mp4.NewMuxer(w)
	vf.Assert(err == nil, "muxer")
	ps := mixed(2)
	for _, p := range ps {
		vf.Assert(m.WritePacket(p) == nil, "write")
	}
	vf.Assert(m.WriteTrailer() == nil, "trailer")
	f := newFile(40)
	f.b = w.b
	d := mp4.NewDemuxer(f)
	if vf.Choose("seek", 2) == 1 {
		err := d.SeekToTime(0)
		vf.Assert((err != nil) == f.failed, "the failure is reported")
		if err != nil {
			vf.Assert(err != io.EOF, "a failure is no end")
			vf.Cover("seek failed")
			return
		}
	}
	for i := 0; i < 2; i++ {
		p, err := d.ReadPacket()
		vf.Assert((err != nil) == f.failed, "the failure is reported")
		if err != nil {
			vf.Assert(err != io.EOF, "a failure is no end")
			vf.Cover("failed")
			return
		}
		vf.Assert(len(p.Data) == 2, "payload")
	}
	_, err = d.ReadPacket()
	vf.Assert(err == io.EOF, "the end")
	vf.Cover("read")
}

// wire is a connection some write to which fails, or some read from which.
type wire struct {
	net.Conn
	w, r *fault
}

func (c *wire) Write(b []byte) (int, error) {
	if c.w.op() {
		return 0, errFault
	}
	return c.Conn.Write(b)
}

func (c *wire) Read(b []byte) (int, error) {
	if c.r.op() {
		return 0, errFault
	}
	return c.Conn.Read(b)
}

func newWire(c net.Conn, max int) *wire {
	w := &wire{Conn: c, w: &fault{at: -1}, r: &fault{at: -1}}
	f := newFault(max)
	if vf.Choose("reads", 2) == 1 {
		w.r = f
	} else {
		w.w = f
	}
	return w
}

// an RTMP client whose connection fails
//vf:bound a client that publishes or plays 2 packets of 2 arbitrary bytes over a connection any one write or read of which fails, once or from then on; goroutines take turns
//vf:preempt 0
//vf:sched fifo
//vf:hang
//vf:time 60
func VF_RtmpClient() {
	cc, sc := lib.NewPipe()
	play := vf.Choose("play", 2) == 1
	ps := []av.Packet{
		{Type: av.H264DecoderConfig, Data: vf.Bytes("data", 2)},
		{Type: av.H264, IsKeyFrame: true, Data: vf.Bytes("data", 2)},
	}
	s := rtmp.NewServer()
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		for i := range ps {
			if play {
				if c.WritePacket(ps[i]) != nil {
					break
				}
			} else if _, err := c.ReadPacket(); err != nil {
				break
			}
		}
		nc.Close()
	}
	go s.HandleNetConn(sc)
	w := newWire(cc, 24)
	u, _ := url.Parse("rtmp://h/app/s")
	flags := rtmp.PrepareWriting
	if play {
		flags = rtmp.PrepareReading
	}
	c, err := rtmp.NewClient().FromNetConn(w, u, flags)
	failed := func() bool { return w.w.failed || w.r.failed }
	if err != nil {
		vf.Assert(failed(), "no failure without cause")
		vf.Assert(err != io.EOF, "a failure is no end")
		cc.Close()
		vf.Cover("refused")
		return
	}
	vf.Assert(!w.w.failed, "a failed write is reported")
	for i := range ps {
		if play {
			p, err := c.ReadPacket()
			if err != nil {
				vf.Assert(failed() && err != io.EOF, "a failure is no end")
				cc.Close()
				vf.Cover("failed")
				return
			}
			vf.Assert(lib.SamePacket(ps[i], p), "the packet")
		} else {
			err := c.WritePacket(ps[i])
			vf.Assert((err != nil) == w.w.failed, "a failed write is reported")
			if err != nil {
				cc.Close()
				vf.Cover("failed")
				return
			}
		}
	}
	vf.Assert(play || !w.w.failed, "no failure is left")
	vf.Cover("end")
}

// an RTMP server whose connection fails
//vf:bound a server that receives or sends 2 packets of 2 arbitrary bytes over a connection any one write or read of which fails, once or from then on; goroutines take turns
//vf:preempt 0
//vf:sched fifo
//vf:hang
//vf:time 60
func VF_RtmpServer() {
	cc, sc := lib.NewPipe()
	play := vf.Choose("play", 2) == 1
	ps := []av.Packet{
		{Type: av.H264DecoderConfig, Data: vf.Bytes("data", 2)},
		{Type: av.H264, IsKeyFrame: true, Data: vf.Bytes("data", 2)},
	}
	w := newWire(sc, 24)
	s := rtmp.NewServer()
	failed := func() bool { return w.w.failed || w.r.failed }
	done := make(chan bool, 1)
	told, handled := false, false
	s.LogEvent = func(c *rtmp.Conn, nc net.Conn, e int) {
		if e == rtmp.EventHandshakeFailed {
			vf.Assert(failed(), "no failure without cause")
			told = true
		}
	}
	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		handled = true
		defer nc.Close()
		vf.Assert(!failed(), "what fails in the handshake ends it")
		for i := range ps {
			if play {
				err := c.WritePacket(ps[i])
				vf.Assert(err != nil || !w.w.failed, "a failed write is reported")
				if err != nil {
					vf.Assert(failed(), "no failure without cause")
					vf.Cover("failed write")
					return
				}
			} else {
				p, err := c.ReadPacket()
				if err != nil {
					vf.Assert(failed() && err != io.EOF, "a failure is no end")
					vf.Cover("failed read")
					return
				}
				vf.Assert(lib.SamePacket(ps[i], p), "the packet")
				vf.Assert(!failed(), "nothing comes after a failure")
			}
		}
	}
	go func() {
		s.HandleNetConn(w)
		done <- true
	}()
	u, _ := url.Parse("rtmp://h/app/s")
	flags := rtmp.PrepareWriting
	if play {
		flags = rtmp.PrepareReading
	}
	c, err := rtmp.NewClient().FromNetConn(cc, u, flags)
	for i := 0; err == nil && i < len(ps); i++ {
		if play {
			_, err = c.ReadPacket()
		} else {
			err = c.WritePacket(ps[i])
		}
	}
	<-done
	vf.Assert(handled != told, "handled, or told that it failed")
	vf.Cover("end")
}

// camera is an RTSP server that is spoken to over a connection that fails.
type camera struct {
	lib.FakeConn
	w, r *fault
	part string
	n    int
}

func (s *camera) Read(b []byte) (int, error) {
	if s.r.op() {
		return 0, errFault
	}
	return s.FakeConn.Read(b)
}

func (s *camera) Write(b []byte) (int, error) {
	if s.w.op() {
		return 0, errFault
	}
	s.part += string(b)
	if !strings.HasSuffix(s.part, "\r\n\r\n") {
		return len(b), nil
	}
	req := s.part
	s.part = ""
	s.n++
	var out lib.RTSPServer
	seq := strconv.Itoa(s.n)
	switch {
	case strings.HasPrefix(req, "DESCRIBE"):
		out.ResponseTo(seq, "200 OK", nil, "v=0\r\nm=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/48000/2\r\na=fmtp:97 config=1190\r\na=control:t\r\n")
	case strings.HasPrefix(req, "PLAY"):
		out.ResponseTo(seq, "200 OK", nil, "")
		for i := 0; i < 2; i++ {
			p := lib.RTP{Marker: true, PT: 97, Seq: uint16(i), TS: 1024 * uint32(i), SSRC: 7, Payload: []byte{0, 16, 0, 16, byte(i), 7}}
			out.Block(0, p.Bytes())
		}
	default:
		out.ResponseTo(seq, "200 OK", []string{"Session: s"}, "")
	}
	s.In.B = append(s.In.B, out.B...)
	return len(b), nil
}

// an RTSP client whose connection fails
//vf:bound a session of description, setup, play, 2 packets and teardown over a connection any one write or read of which fails, once or from then on, with answers in pieces of 50 or any number of bytes
//vf:hang
//vf:time 60
func VF_Rtsp() {
	s := &camera{w: &fault{at: -1}, r: &fault{at: -1}}
	s.In.K = 1 << 20
	if vf.Choose("reads", 2) == 1 {
		s.In.K = []int{50, 1 << 20}[vf.Choose("pieces", 2)]
		s.r = newFault(16)
	} else {
		s.w = newFault(6)
	}
	dial.To(func(network, address string) (net.Conn, error) { return s, nil })
	failed := func() bool { return s.w.failed || s.r.failed }
	c, err := rtsp.DialTimeout("rtsp://cam/live", 0)
	vf.Assert(err == nil, "dial")
	step := func(what string, err error) bool {
		vf.Assert((err != nil) == failed(), what+": the failure is reported")
		if err != nil {
			vf.Assert(err != io.EOF, what+": a failure is no end")
			vf.Cover("failed " + what)
		}
		return err != nil
	}
	_, err = c.Streams()
	if step("streams", err) {
		return
	}
	for i := 0; i < 2; i++ {
		_, err := c.ReadPacket()
		if err != nil || s.w.failed {
			step("packet", err)
			return
		}
	}
	vf.Cover("end")
}
