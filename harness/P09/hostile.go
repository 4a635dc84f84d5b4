package h

import (
	"github.com/nareix/joy5/format/rtmp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

func reader(b []byte) (*rtmp.Conn, *lib.Duplex) {
	d := &lib.Duplex{In: lib.Chunked{B: b, K: 4096}}
	c := rtmp.NewConn(d)
	c.Stage = rtmp.StageDataStart
	c.BypassMsgtypeid = []uint8{99}
	return c, d
}

// any bytes from the peer
//vf:bound every byte string of 0, 1, 3, 9, 12, 13, 14, 16, 20, 24 (thorough also 28, 32) bytes read to its end
//vf:hang
//vf:time 60
//vf:ttime 400
func VF_Any() {
	n := []int{0, 1, 3, 9, 12, 13, 14, 16, 20, 24, 28, 32}[vf.Choose("n", vf.Tier(10, 12))]
	b := vf.Bytes("b", n)
	c, _ := reader(b)
	vf.AllocLimit(5<<20 + 1<<16)
	got := 0
	for i := 0; ; i++ {
		t, err := c.ReadTag()
		if err != nil {
			vf.Cover("error")
			return
		}
		got += len(t.Data)
		vf.Assert(got <= n, "no more payload than bytes")
		vf.Assert(i < n, "no more messages than bytes")
		vf.Cover("message")
	}
}

// any control message in the middle of a stream
//vf:bound one message of any type and length 0..11 with any payload, then a data message
//vf:hang
//vf:time 40
//vf:ttime 200
func VF_Control() {
	m := lib.Msg{Csid: 3, Type: vf.U8("type"), Time: vf.U32("t"), Sid: vf.U32("sid"), Data: vf.Bytes("d", vf.Choose("n", 12))}
	b := lib.ChunkMsg(m, 128)
	b = append(b, lib.ChunkMsg(lib.Msg{Csid: 4, Type: 99, Data: []byte{1, 2, 3}}, 128)...)
	c, d := reader(b)
	vf.AllocLimit(1 << 16)
	for i := 0; ; i++ {
		_, err := c.ReadTag()
		if err != nil {
			break
		}
		vf.Assert(i < 8, "no more messages than bytes")
	}
	out, ok := lib.RefDechunk(d.Out, 128)
	vf.Assert(ok, "whole messages are written")
	for _, o := range out {
		vf.Assert(o.Type == 4 || o.Type == 3, "only ping responses and acknowledgements are sent")
	}
	vf.Cover("done")
}

// hostile aggregate
//vf:bound aggregate bodies of every content of 0..17 (thorough 0..20) bytes
//vf:hang
//vf:time 40
//vf:ttime 200
func VF_Aggregate() {
	n := []int{0, 3, 11, 14, 15, 16, 17, 18, 20}[vf.Choose("n", vf.Tier(7, 9))]
	m := lib.Msg{Csid: 3, Type: 22, Time: vf.U32("t"), Data: vf.Bytes("d", n)}
	b := lib.ChunkMsg(m, 128)
	b = append(b, lib.ChunkMsg(lib.Msg{Csid: 4, Type: 99, Data: []byte{1, 2, 3}}, 128)...)
	c, _ := reader(b)
	vf.AllocLimit(1 << 17)
	for i := 0; ; i++ {
		_, err := c.ReadTag()
		if err != nil {
			break
		}
		vf.Assert(i < 4, "no more messages than bytes")
		vf.Cover("message")
	}
}

// ping requests are answered with their timestamp, at once
//vf:bound any ping timestamp, any other user control event type is not answered
func VF_Ping() {
	ev := vf.U16("event")
	ts := vf.U32("ts")
	m := lib.Msg{Csid: 2, Type: 4, Data: []byte{byte(ev >> 8), byte(ev), byte(ts >> 24), byte(ts >> 16), byte(ts >> 8), byte(ts)}}
	c, d := reader(lib.ChunkMsg(m, 128))
	_, err := c.ReadTag()
	vf.Assert(err == lib.EOF, "end")
	out, ok := lib.RefDechunk(d.Out, 128)
	vf.Assert(ok, "whole messages")
	if ev == 6 {
		vf.Assert(len(out) == 1 && out[0].Type == 4 && out[0].Sid == 0, "one response")
		vf.Assert(vf.BytesEq(out[0].Data, []byte{0, 7, byte(ts >> 24), byte(ts >> 16), byte(ts >> 8), byte(ts)}), "response carries the timestamp")
		vf.Cover("pong")
	} else {
		vf.Assert(len(out) == 0, "nothing is sent")
	}
}

// acknowledgements follow the agreed window
//vf:bound any window 1..2^32-1 set by the peer, 4 messages of 0..3 bytes (plus one of 100 bytes), bytes counted from the start of the stream
func VF_Ack() {
	win := vf.U32("win")
	vf.Assume(win != 0)
	b := lib.ChunkMsg(lib.Msg{Csid: 2, Type: 5, Data: []byte{byte(win >> 24), byte(win >> 16), byte(win >> 8), byte(win)}}, 128)
	ends := []int{len(b)}
	n := vf.Tier(3, 4)
	for i := 0; i < n; i++ {
		l := vf.Choose("l", 3)
		if i == 1 {
			l = 100
		}
		b = append(b, lib.ChunkMsg(lib.Msg{Csid: 4, Type: 99, Data: vf.Bytes("d", l)}, 128)...)
		ends = append(ends, len(b))
	}
	c, d := reader(b)
	for i := 0; i < n; i++ {
		_, err := c.ReadTag()
		vf.Assert(err == nil, "read")
	}
	// the window message itself counts under the default window
	last := uint32(0)
	var want []uint32
	for _, e := range ends[1:] {
		if uint32(e)-last >= win {
			want = append(want, uint32(e))
			last = uint32(e)
		}
	}
	out, ok := lib.RefDechunk(d.Out, 128)
	vf.Assert(ok && len(out) == len(want), "one acknowledgement per window")
	for i, o := range out {
		vf.Assert(o.Type == 3 && len(o.Data) == 4, "acknowledgement")
		vf.Assert(uint32(o.Data[0])<<24|uint32(o.Data[1])<<16|uint32(o.Data[2])<<8|uint32(o.Data[3]) == want[i], "bytes received so far")
	}
	if len(want) > 0 {
		vf.Cover("ack")
	}
}

// chunk sizes that are not in the valid range do not crash or confuse the reader
//vf:bound every 32-bit chunk size, then a message of 0..3 bytes
//vf:hang
func VF_BadChunkSize() {
	n := vf.U32("size")
	b := lib.ChunkMsg(lib.Msg{Csid: 2, Type: 1, Data: []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}}, 128)
	m := lib.Msg{Csid: 4, Type: 99, Time: 7, Data: vf.Bytes("d", vf.Choose("l", 4))}
	b = append(b, lib.ChunkMsg(m, 3)...)
	c, _ := reader(b)
	t, err := c.ReadTag()
	if n >= 3 && n < 1<<31 {
		vf.Assert(err == nil && vf.BytesEq(t.Data, m.Data), "message under the new size")
		vf.Cover("valid")
	}
	if err == nil {
		vf.Assert(len(t.Data) <= 3, "no more than was sent")
	}
}
