package h

import (
	"math"
	"time"

	"github.com/nareix/joy5/format/flv/flvio"
	vf "github.com/nareix/joy5/zzvf"
)

// any bytes as AMF0
//vf:bound every byte string of 0..9 (thorough 0..12) bytes at cursor 0..1; allocation limit 64 bytes per input byte + 16 kB
//vf:time 60
//vf:ttime 500
//vf:hang
func VF_AMF0Any() {
	L := vf.Choose("len", vf.Tier(10, 13))
	b := vf.Bytes("b", L)
	n := vf.Choose("at", 2)
	vf.Assume(n <= L)
	at := n
	vf.AllocLimit(64*L + 16384)
	v, err := flvio.ParseAMF0Val(b, &n)
	vf.Assert(n <= L, "never consumes more than the input")
	vf.Assert(n >= at, "never goes backwards")
	if err == nil {
		vf.Assert(n > at, "a value takes at least one byte")
		switch v.(type) {
		case nil, float64, bool, string, time.Time, flvio.AMFMap, flvio.AMFArray:
		default:
			vf.Fail("unexpected kind of value")
		}
		vf.Cover("value")
	} else {
		vf.Cover("error")
	}
}

// any bytes as a list of values in either mode
//vf:bound every byte string of 0..6 (thorough 0..8) bytes, AMF0 and AMF3 mode
//vf:time 60
//vf:ttime 500
//vf:hang
func VF_ValsAny() {
	L := vf.Choose("len", vf.Tier(7, 9))
	b := vf.Bytes("b", L)
	amf3 := vf.Bool("amf3")
	vf.AllocLimit(64*L + 16384)
	vals, err := flvio.ParseAMFVals(b, amf3)
	if err == nil {
		vf.Assert(len(vals) <= L, "no more values than bytes")
		vf.Cover("values")
	} else {
		vf.Cover("error")
	}
}

// any bytes as AMF3
//vf:bound every byte string of 0..7 (thorough 0..10) bytes; allocation limit 64 bytes per input byte + 16 kB
//vf:time 60
//vf:ttime 500
//vf:hang
func VF_AMF3Any() {
	L := vf.Choose("len", vf.Tier(8, 11))
	b := vf.Bytes("b", L)
	n := 0
	vf.AllocLimit(64*L + 16384)
	_, err := flvio.ParseAMF3Val(b, &n)
	vf.Assert(n <= L && n >= 0, "never consumes more than the input")
	if err == nil {
		vf.Assert(n > 0, "a value takes at least one byte")
		vf.Cover("value")
	} else {
		vf.Cover("error")
	}
}

func u29(b []byte) (v int, n int) {
	for n < 3 {
		c := b[n]
		n++
		v = v<<7 | int(c&0x7f)
		if c < 0x80 {
			return
		}
	}
	return v<<8 | int(b[3]), 4
}

// well-formed AMF3 primitives decode to their values and are consumed exactly
//vf:bound every null, boolean, 28-bit integer, double, string, XML document and byte array of up to 3 bytes, date around 1970, each followed by another value
//vf:time 60
func VF_AMF3Prim() {
	b := vf.Bytes("b", 12)
	k := vf.Choose("kind", 11)
	size := 1
	var check func(v interface{}) bool
	switch k {
	case 0, 1:
		check = func(v interface{}) bool { return v == nil }
	case 2, 3:
		check = func(v interface{}) bool { x, ok := v.(bool); return ok && x == (k == 3) }
	case 4:
		want, n := u29(b[1:])
		// above, the repository's tests want what the format does not
		vf.Assume(want < 1<<28)
		size += n
		check = func(v interface{}) bool { x, ok := v.(int); return ok && x == want }
	case 5:
		size += 8
		var w uint64
		for _, x := range b[1:9] {
			w = w<<8 | uint64(x)
		}
		check = func(v interface{}) bool { x, ok := v.(float64); return ok && math.Float64bits(x) == w }
	case 6, 7, 9, 10:
		l := vf.Choose("sl", 4)
		b[1] = byte(l<<1 | 1)
		size += 1 + l
		body := b[2 : 2+l]
		if k != 7 {
			check = func(v interface{}) bool { x, ok := v.(string); return ok && len(x) == l && vf.BytesEq([]byte(x), body) }
		} else {
			check = func(v interface{}) bool { x, ok := v.([]byte); return ok && len(x) == l && vf.BytesEq(x, body) }
		}
	case 8:
		ms := int64(vf.Choose("ms", 16))*1000 - 5
		b[1] = 1
		u := math.Float64bits(float64(ms))
		for i := 0; i < 8; i++ {
			b[2+i] = byte(u >> uint(56-8*i))
		}
		size += 9
		check = func(v interface{}) bool { x, ok := v.(time.Time); return ok && x.UnixNano() == ms*1000000 }
	}
	b[0] = []byte{0, 1, 2, 3, 4, 5, 6, 12, 8, 7, 11}[k]
	n := 0
	v, err := flvio.ParseAMF3Val(b, &n)
	vf.Assert(err == nil, "well-formed primitive decodes")
	vf.Assert(n == size, "consumed exactly")
	vf.Assert(check(v), "value")
	// the following value starts right after: an AMF3 list of two
	l := append(append([]byte{}, b[:size]...), 3)
	if k != 0 {
		vals, err := flvio.ParseAMFVals(l, true)
		vf.Assert(err == nil && len(vals) == 2, "two values")
		x, ok := vals[1].(bool)
		vf.Assert(ok && x && check(vals[0]), "both values")
	}
	vf.Cover("done")
}

// objects and arrays of AMF3 integers
//vf:bound dynamic and sealed objects and arrays with 0..2 named members (1 byte names) and 0..2 dense elements, every 7-bit integer value
func VF_AMF3Compound() {
	n := vf.Choose("n", 3)
	names := []byte{0x61 | vf.U8("k0")&2, 0x70 | vf.U8("k1")&3}
	vals := []byte{vf.U8("v0") & 0x7f, vf.U8("v1") & 0x7f}
	var b []byte
	dense := 0
	kind := vf.Choose("kind", 3)
	switch kind {
	case 0: // dynamic
		b = append(b, 10, 0x0b, 1)
		for i := 0; i < n; i++ {
			b = append(b, 3, names[i], 4, vals[i])
		}
		b = append(b, 1)
	case 1: // sealed
		b = append(b, 10, byte(n<<4|3), 3, 'C')
		for i := 0; i < n; i++ {
			b = append(b, 3, names[i])
		}
		for i := 0; i < n; i++ {
			b = append(b, 4, vals[i])
		}
	case 2: // array
		dense = vf.Choose("dense", 3)
		b = append(b, 9, byte(dense<<1|1))
		for i := 0; i < n; i++ {
			b = append(b, 3, names[i], 4, vals[i])
		}
		b = append(b, 1)
		for i := 0; i < dense; i++ {
			b = append(b, 4, vals[i])
		}
	}
	k := 0
	v, err := flvio.ParseAMF3Val(append(append([]byte{}, b...), 0xff), &k)
	vf.Assert(err == nil && k == len(b), "consumed exactly")
	m, ok := v.(flvio.AMFMap)
	vf.Assert(ok && len(m) == n+dense, "every member present")
	for i := 0; i < n; i++ {
		x, ok := m.GetV(string(names[i : i+1]))
		y, yok := x.(int)
		vf.Assert(ok && yok && y == int(vals[i]), "named member")
	}
	for i := 0; i < dense; i++ {
		y, yok := m[n+i].V.(int)
		vf.Assert(yok && y == int(vals[i]), "array element")
	}
	vf.Cover("done")
}

// values nested without limit are refused instead of exhausting the stack
//vf:bound 20000 nested strict arrays, ECMA arrays or objects, or AMF3 arrays with dense or named elements, or dynamic or sealed objects, with arbitrary last byte
//vf:steps 20000000
func VF_Nesting() {
	N := 20000
	var unit []byte
	kind := vf.Choose("kind", 7)
	switch kind {
	case 0:
		unit = []byte{10, 0, 0, 0, 1}
	case 1:
		unit = []byte{3, 0, 1, 'a'}
	case 2:
		unit = []byte{9, 3, 1}
	case 3:
		unit = []byte{10, 0x0b, 1, 3, 'a'}
	case 4:
		unit = []byte{9, 1, 3, 'a'}
	case 5:
		unit = []byte{10, 0x13, 1, 3, 'a'}
	case 6:
		unit = []byte{8, 0, 0, 0, 1, 0, 1, 'a'}
	}
	b := make([]byte, 0, N*8+1)
	for i := 0; i < N; i++ {
		b = append(b, unit...)
	}
	b = append(b, vf.U8("last"))
	n := 0
	var err error
	if kind < 2 || kind == 6 {
		_, err = flvio.ParseAMF0Val(b, &n)
	} else {
		_, err = flvio.ParseAMF3Val(b, &n)
	}
	vf.Assert(err != nil && n < len(b), "unbounded nesting is refused")
	vf.Cover("done")
}

// nested arrays that claim many elements need memory in proportion to the message only
//vf:bound 40 nested strict arrays each claiming as many elements as the message has bytes; 3 nested AMF3 objects claiming any number of members
func VF_Claims() {
	var b []byte
	n := 0
	if vf.Bool("amf3") {
		for i := 0; i < 3; i++ {
			b = append(b, 10, vf.U8("t0")|0x80, vf.U8("t1")|0x80, vf.U8("t2")|0x80, vf.U8("t3"), 1)
		}
		vf.AllocLimit(64*len(b) + 16384)
		_, err := flvio.ParseAMF3Val(b, &n)
		_ = err
		vf.Cover("amf3")
		return
	}
	for i := 0; i < 40; i++ {
		b = append(b, 10, 0, 0, 0, 200)
	}
	vf.AllocLimit(64*len(b) + 16384)
	_, err := flvio.ParseAMF0Val(b, &n)
	vf.Assert(err != nil, "missing elements are an error")
	vf.Cover("amf0")
}
