package h

import (
	"github.com/nareix/joy5/format/rtmp"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

const bypass = 99 // a message type the reader hands over as it is

func reader(b []byte, k int) (*rtmp.Conn, *lib.Duplex) {
	d := &lib.Duplex{In: lib.Chunked{B: b, K: k}}
	c := rtmp.NewConn(d)
	c.Stage = rtmp.StageDataStart
	c.BypassMsgtypeid = []uint8{bypass}
	return c, d
}

type stream struct {
	id      uint32
	form    int
	nmsg    int
	i, left int // message number, bytes still to send
	cur     lib.Msg
	delta   uint32
	ext     []byte
	fmt     byte
}

// next appends the next chunk of the stream; chooses a header format a
// conforming peer may use.
func (s *stream) next(b []byte, chunk, maxlen int) []byte {
	f := byte(3)
	if s.left == 0 {
		if s.i > 0 {
			f = byte(vf.Choose("fmt", 4))
		} else {
			f = 0
		}
		t := vf.U32("time")
		switch f {
		case 0:
			s.cur.Time = t
			s.cur.Sid = vf.U32("sid")
		case 1, 2:
			s.cur.Time += t
		case 3:
			t = s.delta
			if s.fmt == 0 && s.ext != nil && vf.Choose("own time", 2) == 1 {
				// a repeated absolute header whose extended timestamp moves on
				t = vf.U32("ext")
				s.ext = []byte{byte(t >> 24), byte(t >> 16), byte(t >> 8), byte(t)}
				s.cur.Time = t
			}
			if s.fmt != 0 {
				s.cur.Time += t
			}
		}
		if f < 2 {
			s.cur.Data = vf.Bytes("data", vf.Choose("len", maxlen+1))
		} else {
			s.cur.Data = vf.Bytes("data", len(s.cur.Data))
		}
		s.delta = t
		b = append(b, lib.BasicHeader(f, s.id, s.form)...)
		n := len(s.cur.Data)
		if f < 3 {
			s.fmt = f
			h := t
			s.ext = nil
			if t >= 0xffffff {
				h = 0xffffff
				s.ext = []byte{byte(t >> 24), byte(t >> 16), byte(t >> 8), byte(t)}
			}
			b = append(b, byte(h>>16), byte(h>>8), byte(h))
		}
		if f < 2 {
			b = append(b, byte(n>>16), byte(n>>8), byte(n), bypass)
		}
		if f == 0 {
			x := s.cur.Sid
			b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
		}
		s.left = n
		s.i++
	} else {
		b = append(b, lib.BasicHeader(3, s.id, s.form)...)
	}
	b = append(b, s.ext...)
	k := s.left
	if k > chunk {
		k = chunk
	}
	off := len(s.cur.Data) - s.left
	b = append(b, s.cur.Data[off:off+k]...)
	s.left -= k
	return b
}

func setChunk(n uint32) []byte {
	return lib.ChunkMsg(lib.Msg{Csid: 2, Type: 1, Data: []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}}, 128)
}

var ids = [][2]struct {
	id   uint32
	form int
}{
	{{3, 1}, {4, 1}},
	{{63, 1}, {64, 2}},
	{{69, 2}, {1344, 3}}, // same digits, swapped
	{{319, 2}, {320, 3}},
	{{65599, 3}, {255, 2}},
	{{69, 3}, {5, 1}},
}

// interleaved chunk streams of every header format are reassembled exactly
//vf:bound two chunk streams with ids in the 1-, 2- and 3-byte forms, 1..2 messages each of 0..4 bytes in chunks of 2 bytes, all header formats, every 32-bit timestamp and delta, every interleaving
//vf:time 60
//vf:ttime 400
func VF_Interleave() {
	p := ids[vf.Choose("ids", len(ids))]
	s := [2]*stream{{id: p[0].id, form: p[0].form, nmsg: 2}, {id: p[1].id, form: p[1].form, nmsg: vf.Tier(1, 2)}}
	const chunk = 2
	b := setChunk(chunk)
	var want []lib.Msg
	for {
		var cand []*stream
		for _, x := range s {
			if x.i < x.nmsg || x.left > 0 {
				cand = append(cand, x)
			}
		}
		if len(cand) == 0 {
			break
		}
		x := cand[vf.Choose("who", len(cand))]
		b = x.next(b, chunk, vf.Tier(3, 4))
		if x.left == 0 {
			want = append(want, x.cur)
		}
	}
	c, _ := reader(b, 7)
	for _, m := range want {
		t, err := c.ReadTag()
		vf.Assert(err == nil, "read")
		vf.Assert(t.Type == bypass, "type")
		vf.Assert(t.Time == m.Time, "timestamp")
		vf.Assert(vf.BytesEq(t.Data, m.Data), "payload")
	}
	_, err := c.ReadTag()
	vf.Assert(err == lib.EOF, "then the end")
	vf.Cover("done")
}

// a chain of messages on one chunk stream accumulates its deltas
//vf:bound 4 (thorough 5) messages on one chunk stream, every header format each, every 32-bit time and delta, 1 byte payloads
//vf:time 40
func VF_Deltas() {
	n := vf.Tier(4, 5)
	s := &stream{id: 5, form: 1, nmsg: n}
	var b []byte
	var want []lib.Msg
	for i := 0; i < n; i++ {
		b = s.next(b, 128, 0)
		want = append(want, s.cur)
	}
	c, _ := reader(b, 4096)
	for _, m := range want {
		t, err := c.ReadTag()
		vf.Assert(err == nil && t.Time == m.Time, "absolute time")
	}
	vf.Cover("done")
}

// aborting a message discards it and only it
//vf:bound a message of 3 bytes aborted after 1..2 chunks, another stream's message of 3 bytes in progress at any point, then a new message with any header on the aborted stream
func VF_Abort() {
	a := &stream{id: 4, form: 1, nmsg: 2}
	o := &stream{id: 6, form: 1, nmsg: 1}
	b := setChunk(1)
	a.cur.Data = nil
	var want []lib.Msg
	oth := func() {
		for vf.Bool("other") && (o.i == 0 || o.left > 0) {
			b = o.next(b, 1, 2)
			if o.left == 0 {
				want = append(want, o.cur)
			}
		}
	}
	oth()
	b = a.next(b, 1, 3)
	vf.Assume(a.left > 0)
	oth()
	if a.left > 1 && vf.Bool("two") {
		b = a.next(b, 1, 3)
		oth()
	}
	ab := lib.ChunkMsg(lib.Msg{Csid: 2, Type: 2, Data: []byte{0, 0, 0, 4}}, 1)
	b = append(b, ab...)
	a.left = 0
	oth()
	for i := 0; i == 0 || a.left > 0; i++ {
		if i == 0 {
			// the new message has any header, its time relative to the aborted one
			a.i = vf.Choose("header", 2)
		}
		b = a.next(b, 1, 2)
		oth()
		if a.left == 0 {
			want = append(want, a.cur)
		}
	}
	for o.i == 0 || o.left > 0 {
		b = o.next(b, 1, 2)
		if o.left == 0 {
			want = append(want, o.cur)
		}
	}
	c, _ := reader(b, 4096)
	got := 0
	for range want {
		t, err := c.ReadTag()
		vf.Assert(err == nil, "read")
		ok := false
		for _, m := range want {
			ok = vf.Or(ok, len(m.Data) == len(t.Data) && vf.And(t.Time == m.Time, vf.BytesEq(m.Data, t.Data)))
		}
		vf.Assert(ok, "a message that was completed")
		got++
	}
	_, err := c.ReadTag()
	vf.Assert(err == lib.EOF, "the aborted message is gone")
	vf.Cover("done")
}

// aggregate messages are delivered as the messages they contain
//vf:bound aggregates of 0..2 parts of 1..2 bytes, every time and part time, trailing back pointers of any value
func VF_Aggregate() {
	t0 := vf.U32("aggtime")
	n := vf.Choose("n", 3)
	var body []byte
	var times []uint32
	var datas [][]byte
	for i := 0; i < n; i++ {
		t := vf.U32("t")
		d := vf.Bytes("d", 1+vf.Choose("l", 2))
		times = append(times, t)
		datas = append(datas, d)
		body = append(body, 18, 0, 0, byte(len(d)), byte(t>>16), byte(t>>8), byte(t), byte(t>>24), 0, 0, 0)
		body = append(body, d...)
		body = append(body, vf.Bytes("back", 4)...)
	}
	b := lib.ChunkMsg(lib.Msg{Csid: 4, Type: 22, Time: t0, Data: body}, 128)
	last := lib.Msg{Csid: 4, Type: 18, Time: vf.U32("lt"), Data: vf.Bytes("ld", 2)}
	b = append(b, lib.ChunkMsg(last, 128)...)
	c, _ := reader(b, 4096)
	for i := 0; i < n; i++ {
		g, err := c.ReadTag()
		vf.Assert(err == nil && g.Type == 18, "part")
		vf.Assert(g.Time == t0+times[i]-times[0], "part time is relative to the first part")
		vf.Assert(vf.BytesEq(g.Data, datas[i]), "part payload")
	}
	g, err := c.ReadTag()
	vf.Assert(err == nil && g.Time == last.Time && vf.BytesEq(g.Data, last.Data), "the message after the aggregate")
	vf.Cover("done")
}

// chunk streams are told apart by their whole id
//vf:bound every pair of different ids in any form (1-byte 3..63, 2-byte 64..319, 3-byte 64..65599), a message of two chunks on each, interleaved
func VF_Ids() {
	hdr := func(name string) (uint32, func(f byte) []byte) {
		v := vf.U16(name)
		switch vf.Choose(name+" form", 3) {
		case 0:
			vf.Assume(vf.And(v >= 3, v < 64))
			return uint32(v), func(f byte) []byte { return []byte{f<<6 | byte(v)} }
		case 1:
			vf.Assume(v < 256)
			return uint32(v) + 64, func(f byte) []byte { return []byte{f << 6, byte(v)} }
		}
		return uint32(v) + 64, func(f byte) []byte { return []byte{f<<6 | 1, byte(v), byte(v >> 8)} }
	}
	x, xh := hdr("x")
	y, yh := hdr("y")
	vf.Assume(x != y)
	b := setChunk(1)
	b = append(append(b, xh(0)...), 0, 0, 1, 0, 0, 2, bypass, 0, 0, 0, 0, 11)
	b = append(append(b, yh(0)...), 0, 0, 2, 0, 0, 2, bypass, 0, 0, 0, 0, 21)
	b = append(append(b, xh(3)...), 12)
	b = append(append(b, yh(3)...), 22)
	b = append(append(b, xh(2)...), 0, 0, 3, 13)
	b = append(append(b, xh(3)...), 14)
	c, _ := reader(b, 4096)
	for i, w := range [][]byte{{11, 12}, {21, 22}, {13, 14}} {
		t, err := c.ReadTag()
		vf.Assert(err == nil, "read")
		vf.Assert(len(t.Data) == 2 && t.Data[0] == w[0] && t.Data[1] == w[1], "the message of its stream")
		vf.Assert(t.Time == []uint32{1, 2, 4}[i], "time")
	}
	vf.Cover("done")
}
