package h

import (
	"time"

	"github.com/nareix/joy5/utils/bits/pio"
	vf "github.com/nareix/joy5/zzvf"
)

// be is the reference big-endian value of b.
func be(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return
}

func sext(v uint64, n int) int64 { return int64(v<<uint(64-8*n)) >> uint(64-8*n) }

// getters decode exactly the documented big- or little-endian two's complement field
//vf:bound every value of every field width (8..64 bits), buffers longer than the field
func VF_Get() {
	b := vf.Bytes("b", 10)
	vf.Assert(pio.U8(b) == b[0], "U8")
	vf.Assert(uint64(pio.U16BE(b)) == be(b[:2]), "U16BE")
	vf.Assert(int64(pio.I16BE(b)) == sext(be(b[:2]), 2), "I16BE")
	vf.Assert(uint64(pio.U24BE(b)) == be(b[:3]), "U24BE")
	vf.Assert(int64(pio.I24BE(b)) == sext(be(b[:3]), 3), "I24BE")
	vf.Assert(uint64(pio.U32BE(b)) == be(b[:4]), "U32BE")
	vf.Assert(int64(pio.I32BE(b)) == sext(be(b[:4]), 4), "I32BE")
	vf.Assert(uint64(pio.U32LE(b)) == be([]byte{b[3], b[2], b[1], b[0]}), "U32LE")
	vf.Assert(pio.U40BE(b) == be(b[:5]), "U40BE")
	vf.Assert(pio.U48BE(b) == be(b[:6]), "U48BE")
	vf.Assert(pio.U64BE(b) == be(b[:8]), "U64BE")
	vf.Assert(pio.I64BE(b) == int64(be(b[:8])), "I64BE")
	vf.Cover("done")
}

// putters write exactly the field's bytes and nothing else
//vf:bound every value of every width, field at every offset 0..2 of a 12 byte buffer with arbitrary contents
func VF_Put() {
	v := vf.U64("v")
	off := vf.Choose("off", 3)
	old := vf.Bytes("old", 12)
	type put struct {
		n  int
		le bool
		f  func(b []byte)
	}
	puts := []put{
		{1, false, func(b []byte) { pio.PutU8(b, uint8(v)) }},
		{2, false, func(b []byte) { pio.PutI16BE(b, int16(v)) }},
		{2, false, func(b []byte) { pio.PutU16BE(b, uint16(v)) }},
		{3, false, func(b []byte) { pio.PutI24BE(b, int32(v)) }},
		{3, false, func(b []byte) { pio.PutU24BE(b, uint32(v)) }},
		{4, false, func(b []byte) { pio.PutI32BE(b, int32(v)) }},
		{4, false, func(b []byte) { pio.PutU32BE(b, uint32(v)) }},
		{4, true, func(b []byte) { pio.PutU32LE(b, uint32(v)) }},
		{5, false, func(b []byte) { pio.PutU40BE(b, v) }},
		{6, false, func(b []byte) { pio.PutU48BE(b, v) }},
		{8, false, func(b []byte) { pio.PutU64BE(b, v) }},
		{8, false, func(b []byte) { pio.PutI64BE(b, int64(v)) }},
	}
	p := puts[vf.Choose("op", len(puts))]
	b := append([]byte(nil), old...)
	p.f(b[off:])
	for i := range b {
		if i < off || i >= off+p.n {
			vf.Assert(b[i] == old[i], "bytes outside the field are untouched")
			continue
		}
		sh := uint(8 * (p.n - 1 - (i - off)))
		if p.le {
			sh = uint(8 * (i - off))
		}
		vf.Assert(b[i] == byte(v>>sh), "field bytes in the documented order")
	}
	vf.ObsBytes("b", b)
	vf.Cover("done")
}

// cursor writers: advance by the field size, write the same bytes as the putters, and only measure when the buffer is nil
//vf:bound every value and width, starting offset 0..3, strings/bytes up to 4
func VF_Write() {
	v := vf.U64("v")
	off := vf.Choose("off", 4)
	str := vf.Bytes("s", vf.Choose("sl", 5))
	type wr struct {
		n  int
		le bool
		f  func(b []byte, n *int)
	}
	ws := []wr{
		{1, false, func(b []byte, n *int) { pio.WriteU8(b, n, uint8(v)) }},
		{2, false, func(b []byte, n *int) { pio.WriteU16BE(b, n, uint16(v)) }},
		{3, false, func(b []byte, n *int) { pio.WriteU24BE(b, n, uint32(v)) }},
		{3, false, func(b []byte, n *int) { pio.WriteI24BE(b, n, int32(v)) }},
		{4, false, func(b []byte, n *int) { pio.WriteU32BE(b, n, uint32(v)) }},
		{4, false, func(b []byte, n *int) { pio.WriteI32BE(b, n, int32(v)) }},
		{4, true, func(b []byte, n *int) { pio.WriteU32LE(b, n, uint32(v)) }},
		{8, false, func(b []byte, n *int) { pio.WriteU64BE(b, n, v) }},
		{8, false, func(b []byte, n *int) { pio.WriteI64BE(b, n, int64(v)) }},
		{-1, false, func(b []byte, n *int) { pio.WriteString(b, n, string(str)) }},
		{-1, false, func(b []byte, n *int) { pio.WriteBytes(b, n, str) }},
	}
	w := ws[vf.Choose("op", len(ws))]
	size := w.n
	if size < 0 {
		size = len(str)
	}
	b := make([]byte, 16)
	n := off
	w.f(b, &n)
	vf.Assert(n == off+size, "cursor advances by the field size")
	m := off
	w.f(nil, &m)
	vf.Assert(m == n, "measuring with a nil buffer advances equally")
	for i := range b {
		var want byte
		if i >= off && i < n {
			sh := uint(8 * (size - 1 - (i - off)))
			if w.le {
				sh = uint(8 * (i - off))
			}
			want = byte(v >> sh)
			if w.n < 0 {
				want = str[i-off]
			}
		}
		vf.Assert(b[i] == want, "only the field is written")
	}
	vf.Cover("done")
}

// cursor readers: never read outside the buffer, fail without moving the cursor, decode and advance otherwise
//vf:bound buffers of 0..9 bytes, cursor 0..10, lengths 0..10, every byte value
func VF_Read() {
	L := vf.Choose("len", 10)
	off := vf.Choose("off", 11)
	b := vf.Bytes("b", L)
	k := vf.Choose("k", 11)
	n := off
	var err error
	var got []byte
	var val uint64
	size := 0
	num := true
	switch vf.Choose("op", 10) {
	case 0:
		x, e := pio.ReadU8(b, &n)
		val, err, size = uint64(x), e, 1
	case 1:
		x, e := pio.ReadU16BE(b, &n)
		val, err, size = uint64(x), e, 2
	case 2:
		x, e := pio.ReadI24BE(b, &n)
		val, err, size = uint64(x)&0xffffff, e, 3
		if e == nil {
			vf.Assert(int64(x) == sext(be(b[off:off+3]), 3), "signed 24 bit value")
		}
	case 3:
		x, e := pio.ReadU24BE(b, &n)
		val, err, size = uint64(x), e, 3
	case 4:
		x, e := pio.ReadU32BE(b, &n)
		val, err, size = uint64(x), e, 4
	case 5:
		x, e := pio.ReadI32BE(b, &n)
		val, err, size = uint64(uint32(x)), e, 4
	case 6:
		x, e := pio.ReadU64BE(b, &n)
		val, err, size = x, e, 8
	case 7:
		x, e := pio.ReadI64BE(b, &n)
		val, err, size = uint64(x), e, 8
	case 8:
		got, err = pio.ReadBytes(b, &n, k)
		size, num = k, false
	case 9:
		s, e := pio.ReadString(b, &n, k)
		got, err, size, num = []byte(s), e, k, false
	}
	if off+size > L {
		vf.Assert(err != nil, "a field beyond the buffer is an error")
		vf.Assert(n == off, "a failed read leaves the cursor alone")
		vf.Cover("rejected")
		return
	}
	vf.Assert(err == nil, "a field inside the buffer is readable")
	vf.Assert(n == off+size, "cursor advances by the field size")
	if num {
		vf.Assert(val == be(b[off:off+size]), "value")
	} else {
		vf.Assert(vf.BytesEq(got, b[off:off+size]), "bytes")
	}
	vf.Cover("read")
}

// a time value survives the 64 bit field
//vf:bound 65536 consecutive nanosecond counts around each of 0, 1 s, -1 s, -3.5 s, today, and the ends of the 64 bit range
func VF_Time64() {
	base := []int64{0, 1e9, -1e9, -3500000000, 1790000000999990000, 9223372036854740000, -9223372036854740000}[vf.Choose("base", 7)]
	v := base + int64(int16(vf.U16("v")))
	b := make([]byte, 8)
	pio.PutI64BE(b, v)
	t := pio.Time64(b)
	c := make([]byte, 8)
	pio.PutTime64(c, t)
	if v == 0 {
		vf.Assert(t.IsZero(), "0 is the zero time")
	} else {
		vf.Assert(t.UnixNano() == v, "instant")
	}
	vf.Assert(vf.BytesEq(b, c), "time field survives")
	pio.PutTime64(c, time.Time{})
	vf.Assert(be(c) == 0, "zero time is 0")
	vf.Cover("done")
}

// a slice of a vector is the slice of the concatenation
//vf:bound up to 3 (thorough 4) segments of 0..3 bytes, every start and every end (including -1 = to the end)
func VF_VecSlice() {
	nseg := vf.Choose("nseg", vf.Tier(4, 5))
	var in [][]byte
	var all []byte
	for i := 0; i < nseg; i++ {
		s := vf.Bytes("s", vf.Choose("l", 4))
		in = append(in, s)
		all = append(all, s...)
	}
	vf.Assert(pio.VecLen(in) == len(all), "VecLen")
	s := vf.Choose("s0", len(all)+1)
	e := s + vf.Choose("e0", len(all)-s+2)
	if e > len(all) {
		e = -1
	}
	out := make([][]byte, nseg)
	n := pio.VecSliceTo(in, out, s, e)
	var got []byte
	for _, o := range out[:n] {
		got = append(got, o...)
	}
	end := e
	if e < 0 {
		end = len(all)
	}
	vf.Assert(len(got) == end-s, "length of the slice")
	vf.Assert(vf.BytesEq(got, all[s:end]), "contents of the slice")
	vf.Cover("done")
}

// an out of range vector slice is refused, never answered with wrong data
//vf:bound up to 3 segments of 0..2 bytes, start/end up to 3 beyond the end, start > end
func VF_VecSliceRange() {
	nseg := vf.Choose("nseg", 4)
	var in [][]byte
	tot := 0
	for i := 0; i < nseg; i++ {
		l := vf.Choose("l", 3)
		in = append(in, make([]byte, l))
		tot += l
	}
	s := vf.Choose("s0", tot+4)
	e := vf.Choose("e0", tot+4)
	vf.Assume(e < s || e > tot)
	out := make([][]byte, nseg+1)
	defer func() {
		vf.Assert(recover() != nil, "out of range slice is refused")
		vf.Cover("refused")
	}()
	pio.VecSliceTo(in, out, s, e)
}
