package lib

import "strconv"

// RTSPServer is what a server of RTSP sends, in order.
type RTSPServer struct {
	B []byte
}

func (s *RTSPServer) Response(status string, header []string, body string) {
	s.ResponseTo("1", status, header, body)
}

// ResponseTo answers the request with that number.
func (s *RTSPServer) ResponseTo(cseq, status string, header []string, body string) {
	t := "RTSP/1.0 " + status + "\r\nCSeq: " + cseq + "\r\n"
	for _, h := range header {
		t += h + "\r\n"
	}
	if body != "" {
		t += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
	}
	s.B = append(s.B, t+"\r\n"+body...)
}

// Block is an interleaved block.
func (s *RTSPServer) Block(ch byte, b []byte) {
	s.B = append(s.B, '$', ch, byte(len(b)>>8), byte(len(b)))
	s.B = append(s.B, b...)
}

// RTP is a packet.
type RTP struct {
	Marker  bool
	PT      byte
	Seq     uint16
	TS      uint32
	SSRC    uint32
	CSRC    []uint32
	Ext     []byte // a multiple of 4, with the 4 bytes of its header, or nil
	Payload []byte
	Pad     int // 1..255 with the length byte, or 0
}

func (p *RTP) Bytes() []byte {
	b := []byte{0x80 | byte(len(p.CSRC)), p.PT, byte(p.Seq >> 8), byte(p.Seq)}
	if p.Marker {
		b[1] |= 0x80
	}
	u32 := func(v uint32) { b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	u32(p.TS)
	u32(p.SSRC)
	for _, c := range p.CSRC {
		u32(c)
	}
	if p.Ext != nil {
		b[0] |= 0x10
		b = append(b, p.Ext...)
	}
	b = append(b, p.Payload...)
	if p.Pad > 0 {
		b[0] |= 0x20
		for i := 1; i < p.Pad; i++ {
			b = append(b, 0)
		}
		b = append(b, byte(p.Pad))
	}
	return b
}
