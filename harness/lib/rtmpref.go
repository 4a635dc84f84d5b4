package lib

// Msg is one RTMP message.
type Msg struct {
	Csid uint32
	Type uint8
	Sid  uint32
	Time uint32
	Data []byte
}

// Duplex is one end of a connection: what is read comes from In, what is
// written collects in a buffer and reaches Out only when flushed.
type Duplex struct {
	In      Chunked
	buf     []byte
	Out     []byte
	Flushes int
}

func (d *Duplex) Read(p []byte) (int, error)  { return d.In.Read(p) }
func (d *Duplex) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *Duplex) Flush() error {
	d.Out = append(d.Out, d.buf...)
	d.buf = nil
	d.Flushes++
	return nil
}

type refCs struct {
	m     Msg
	delta uint32
	ext   bool
	left  int
	fmt   byte
	ok    bool
}

// RefDechunk decodes a whole RTMP chunk stream as the specification says.
// It follows SetChunkSize messages. ok is false when the stream is malformed
// or ends inside a message.
func RefDechunk(b []byte, chunk int) (out []Msg, ok bool) {
	css := map[uint32]*refCs{}
	p := 0
	open := 0
	for p < len(b) {
		f := b[p] >> 6
		id := uint32(b[p] & 63)
		p++
		if id == 0 {
			if p+1 > len(b) {
				return out, false
			}
			id = uint32(b[p]) + 64
			p++
		} else if id == 1 {
			if p+2 > len(b) {
				return out, false
			}
			id = uint32(b[p+1])*256 + uint32(b[p]) + 64
			p += 2
		}
		cs := css[id]
		if cs == nil {
			cs = &refCs{}
			css[id] = cs
		}
		if !cs.ok && f != 0 {
			return out, false
		}
		start := cs.left == 0
		if !start && f != 3 {
			return out, false
		}
		n := []int{11, 7, 3, 0}[f]
		if p+n > len(b) {
			return out, false
		}
		h := b[p : p+n]
		p += n
		var t uint32
		if f < 3 {
			t = uint32(h[0])<<16 | uint32(h[1])<<8 | uint32(h[2])
			cs.ext = t == 0xffffff
			cs.fmt = f
		} else {
			t = cs.delta
		}
		if cs.ext {
			if p+4 > len(b) {
				return out, false
			}
			x := uint32(b[p])<<24 | uint32(b[p+1])<<16 | uint32(b[p+2])<<8 | uint32(b[p+3])
			p += 4
			if start {
				t = x
			}
		}
		if f < 2 {
			cs.m.Data = nil
			cs.left = int(h[3])<<16 | int(h[4])<<8 | int(h[5])
			cs.m.Type = h[6]
			cs.m.Csid = id
			cs.ok = true
		}
		if f == 0 {
			cs.m.Sid = uint32(h[7]) | uint32(h[8])<<8 | uint32(h[9])<<16 | uint32(h[10])<<24
		}
		if f >= 2 && start {
			cs.left = len(cs.m.Data)
		}
		if start {
			total := cs.left
			cs.m.Data = make([]byte, 0, total)
			open += total
			switch cs.fmt {
			case 0:
				cs.m.Time = t
			default:
				cs.m.Time += t
			}
			cs.delta = t
		}
		sz := cs.left
		if sz > chunk {
			sz = chunk
		}
		if p+sz > len(b) {
			return out, false
		}
		cs.m.Data = append(cs.m.Data, b[p:p+sz]...)
		p += sz
		cs.left -= sz
		open -= sz
		if cs.left == 0 {
			m := cs.m
			out = append(out, m)
			if m.Type == 1 && len(m.Data) >= 4 {
				chunk = int(uint32(m.Data[0])<<24 | uint32(m.Data[1])<<16 | uint32(m.Data[2])<<8 | uint32(m.Data[3]))
			}
		}
	}
	return out, open == 0
}

// BasicHeader is a chunk basic header in the given form (1, 2 or 3 bytes).
func BasicHeader(f byte, csid uint32, form int) []byte {
	switch form {
	case 1:
		return []byte{f<<6 | byte(csid)}
	case 2:
		return []byte{f << 6, byte(csid - 64)}
	}
	return []byte{f<<6 | 1, byte(csid - 64), byte((csid - 64) >> 8)}
}

// ChunkMsg frames a message as one type-0 chunk and type-3 chunks.
func ChunkMsg(m Msg, chunk int) []byte {
	t := m.Time
	if m.Time >= 0xffffff {
		t = 0xffffff
	}
	n := len(m.Data)
	b := append(BasicHeader(0, m.Csid, 1), byte(t>>16), byte(t>>8), byte(t), byte(n>>16), byte(n>>8), byte(n), m.Type,
		byte(m.Sid), byte(m.Sid>>8), byte(m.Sid>>16), byte(m.Sid>>24))
	ext := []byte{byte(m.Time >> 24), byte(m.Time >> 16), byte(m.Time >> 8), byte(m.Time)}
	if m.Time >= 0xffffff {
		b = append(b, ext...)
	}
	for i := 0; ; {
		k := n - i
		if k > chunk {
			k = chunk
		}
		b = append(b, m.Data[i:i+k]...)
		i += k
		if i == n {
			return b
		}
		b = append(b, BasicHeader(3, m.Csid, 1)...)
		if m.Time >= 0xffffff {
			b = append(b, ext...)
		}
	}
}
