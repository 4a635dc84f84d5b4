package h

import (
	"bytes"
	"errors"
	"io"

	"github.com/nareix/joy5/utils/bits"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

func field(name string, n int) uint64 {
	v := vf.U64(name)
	if n < 64 {
		v &= 1<<uint(n) - 1
	}
	return v
}

// writer: any two fields of any widths come out MSB first, zero padded
//vf:bound widths 1..64 each, two fields, then flush (the first write reaches every accumulator state, so this is also the step from an arbitrary state)
func VF_WriterTwo() {
	n1 := 1 + vf.Choose("n1", 64)
	n2 := 1 + vf.Choose("n2", 64)
	v1, v2 := field("v1", n1), field("v2", n2)
	s := &lib.Sink{}
	w := &bits.Writer{W: s}
	vf.Assert(w.WriteBits64(v1, n1) == nil, "write 1 succeeds")
	vf.Assert(w.WriteBits64(v2, n2) == nil, "write 2 succeeds")
	vf.Assert(w.FlushBits() == nil, "flush succeeds")
	vf.Assert(len(s.B) == (n1+n2+7)/8, "bytes written = ceil(bits/8)")
	ok := true
	for i := 0; i < len(s.B)*8; i++ {
		var want uint64
		if i < n1 {
			want = v1 >> uint(n1-1-i) & 1
		} else if i < n1+n2 {
			want = v2 >> uint(n2-1-(i-n1)) & 1
		}
		ok = vf.And(ok, lib.Bit(s.B, i) == want)
	}
	vf.Assert(ok, "bit stream is the fields in order, MSB first, zero padded")
	vf.ObsBytes("out", s.B)
	vf.Cover("written")
}

// writer: an unaligned field, then whole bytes, then a flush, then reuse
//vf:bound prefix 1..64 bits, 0..10 bytes through Write, flush, 1 more field of 1..16 bits, flush; WriteBits for the last
func VF_WriterBytes() {
	n1 := 1 + vf.Choose("n1", 64)
	k := vf.Choose("k", 11)
	v1 := field("v1", n1)
	p := vf.Bytes("p", k)
	n3 := 1 + vf.Choose("n3", vf.Tier(2, 16))
	v3 := field("v3", n3)
	s := &lib.Sink{}
	w := &bits.Writer{W: s}
	vf.Assert(w.WriteBits64(v1, n1) == nil, "write succeeds")
	n, err := w.Write(p)
	vf.Assert(n == k && err == nil, "Write accepts every byte")
	vf.Assert(w.FlushBits() == nil, "flush succeeds")
	want := (n1 + 8*k + 7) / 8
	vf.Assert(len(s.B) == want, "byte count")
	ok := true
	for i := 0; i < n1; i++ {
		ok = vf.And(ok, lib.Bit(s.B, i) == v1>>uint(n1-1-i)&1)
	}
	for i := 0; i < 8*k; i++ {
		ok = vf.And(ok, lib.Bit(s.B, n1+i) == lib.Bit(p, i))
	}
	vf.Assert(ok, "prefix then bytes in order")
	vf.Assert(w.FlushBits() == nil && len(s.B) == want, "flushing twice writes nothing more")
	vf.Assert(w.WriteBits(uint(v3), n3) == nil && w.FlushBits() == nil, "write after flush")
	vf.Assert(len(s.B) == want+(n3+7)/8, "byte count after reuse")
	ok = true
	for i := 0; i < n3; i++ {
		ok = vf.And(ok, lib.Bit(s.B, want*8+i) == v3>>uint(n3-1-i)&1)
	}
	vf.Assert(ok, "a flushed writer starts at a byte boundary")
	vf.Cover("done")
}

// reader: any two fields of any widths are the corresponding bits of the input
//vf:bound widths 0..64 each, two fields, source delivering at most k bytes per read, k in {1,3,8}; the first read reaches every leftover state
func VF_ReaderTwo() {
	n1 := vf.Choose("n1", 65)
	n2 := vf.Choose("n2", 65)
	b := vf.Bytes("b", 17)
	k := []int{17, 1, 3}[vf.Choose("k", vf.Tier(2, 3))]
	r := &bits.Reader{R: &lib.Chunked{B: b, K: k}}
	g1, e1 := r.ReadBits64(n1)
	g2, e2 := r.ReadBits64(n2)
	vf.Assert(e1 == nil, "read 1 succeeds")
	vf.Assert(e2 == nil, "read 2 succeeds")
	var w1, w2 uint64
	for i := 0; i < n1; i++ {
		w1 = w1<<1 | lib.Bit(b, i)
	}
	for i := 0; i < n2; i++ {
		w2 = w2<<1 | lib.Bit(b, n1+i)
	}
	vf.Assert(g1 == w1, "first field")
	vf.Assert(g2 == w2, "second field")
	vf.Cover("read")
}

// reader: bytes read through Read after an unaligned field; end of input is an error, never invented bits
//vf:bound prefix 0..15 bits, 0..18 bytes through Read, input of 0..16 bytes
func VF_ReaderBytes() {
	n1 := vf.Choose("n1", 16)
	k := vf.Choose("k", 19)
	L := vf.Choose("len", 17)
	b := vf.Bytes("b", L)
	r := &bits.Reader{R: bytes.NewReader(b)}
	g1, e1 := r.ReadBits(n1)
	if n1 > 8*L {
		vf.Assert(e1 != nil, "reading past the end is an error")
		return
	}
	vf.Assert(e1 == nil, "prefix available")
	var w1 uint64
	for i := 0; i < n1; i++ {
		w1 = w1<<1 | lib.Bit(b, i)
	}
	vf.Assert(uint64(g1) == w1, "prefix bits")
	p := make([]byte, k)
	n, err := r.Read(p)
	if n1+8*k <= 8*L {
		vf.Assert(err == nil && n == k, "all bytes delivered")
		vf.Cover("delivered")
	} else {
		vf.Assert(err != nil && n < k && n1+8*n <= 8*L, "a short input is an error")
		vf.Cover("short")
	}
	ok := true
	for i := 0; i < 8*n; i++ {
		ok = vf.And(ok, lib.Bit(p, i) == lib.Bit(b, n1+i))
	}
	vf.Assert(ok, "bytes are the next bits")
}

type failAfter struct {
	n   int
	err error
}

func (f *failAfter) Write(p []byte) (int, error) {
	if f.n == 0 {
		return 0, f.err
	}
	f.n--
	return len(p), nil
}

// writer: a sink error is reported by the call that hits it
//vf:bound two fields of 1..64 bits, sink failing on its k-th write, k in 0..1
func VF_WriterError() {
	n1 := 1 + vf.Choose("n1", 64)
	n2 := 1 + vf.Choose("n2", 64)
	f := &failAfter{n: vf.Choose("k", 2), err: errors.New("sink")}
	k := f.n
	w := &bits.Writer{W: f}
	var errs int
	for _, e := range []error{w.WriteBits64(0, n1), w.WriteBits64(0, n2), w.FlushBits()} {
		if e != nil {
			errs++
		}
	}
	writes := 1
	if n1+n2 > 64 {
		writes = 2
	}
	vf.Assert((errs > 0) == (k < writes), "sink errors are reported")
	vf.Cover("checked")
}

// exp-golomb and plain reads of the bit reader used for SPS parsing
//vf:bound skip 0..9 bits, then one ue(v)/se(v) code in an input of 3 or 10 bytes (codes of up to 32 leading zeros), then the following bit
//vf:time 60
func VF_Golomb() {
	skip := vf.Choose("skip", 10)
	L := []int{10, 3}[vf.Choose("len", 2)]
	b := vf.Bytes("b", L)
	signed := vf.Bool("signed")
	r := &bits.GolombBitReader{R: bytes.NewReader(b)}
	g, err := r.ReadBits(skip)
	var w uint
	for i := 0; i < skip; i++ {
		w = w<<1 | uint(lib.Bit(b, i))
	}
	vf.Assert(err == nil && g == w, "plain bits")
	pos := skip
	z := 0
	for pos < 8*L && z < 32 && lib.Bit(b, pos) == 0 {
		z++
		pos++
	}
	pos++ // the marker bit
	var val uint
	if signed {
		val, err = r.ReadSE()
	} else {
		val, err = r.ReadExponentialGolombCode()
	}
	if pos+z > 8*L {
		vf.Assert(err != nil, "a code cut off by the end of input is an error")
		vf.Cover("cut")
		return
	}
	vf.Assert(err == nil, "code readable")
	var suf uint
	for i := 0; i < z; i++ {
		suf = suf<<1 | uint(lib.Bit(b, pos+i))
	}
	pos += z
	k := uint(1)<<uint(z) - 1 + suf
	if signed {
		want := -int(k >> 1)
		if k&1 == 1 {
			want = int(k>>1) + 1
		}
		vf.Assert(int(val) == want, "se(v) = (-1)^(k+1) ceil(k/2)")
		vf.Cover("signed")
	} else {
		vf.Assert(val == k, "ue(v) value")
		vf.Cover("unsigned")
	}
	if pos < 8*L {
		bit, err := r.ReadBit()
		vf.Assert(err == nil && uint64(bit) == lib.Bit(b, pos), "the next bit follows the code")
	} else {
		_, err := r.ReadBit()
		vf.Assert(err != nil, "end of input")
	}
}

var _ io.Reader
