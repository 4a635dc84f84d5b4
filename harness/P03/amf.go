package h

import (
	"math"
	"time"

	"github.com/nareix/joy5/format/flv/flvio"
	vf "github.com/nareix/joy5/zzvf"
)

// ---- reference encoder

func u16(b []byte, v int) []byte { return append(b, byte(v>>8), byte(v)) }
func u32(b []byte, v int) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

func number(b []byte, f float64) []byte {
	b = append(b, 0)
	u := math.Float64bits(f)
	for i := 7; i >= 0; i-- {
		b = append(b, byte(u>>uint(8*i)))
	}
	return b
}

func props(b []byte, kv []flvio.AMFKv) []byte {
	for _, p := range kv {
		b = u16(b, len(p.K))
		b = append(b, p.K...)
		b = ref(b, p.V)
	}
	return append(b, 0, 0, 9)
}

func ref(b []byte, v interface{}) []byte {
	switch x := v.(type) {
	case float64:
		return number(b, x)
	case int:
		return number(b, float64(x))
	case bool:
		if x {
			return append(b, 1, 1)
		}
		return append(b, 1, 0)
	case string:
		if len(x) < 65536 {
			b = u16(append(b, 2), len(x))
		} else {
			b = u32(append(b, 12), len(x))
		}
		return append(b, x...)
	case nil:
		return append(b, 5)
	case flvio.AMFMap:
		return props(append(b, 3), x)
	case flvio.AMFECMAArray:
		return props(u32(append(b, 8), len(x)), x)
	case flvio.AMFArray:
		b = u32(append(b, 10), len(x))
		for _, y := range x {
			b = ref(b, y)
		}
		return b
	}
	panic("ref")
}

// same compares a decoded value with the encoded one.
func same(want, got interface{}) bool {
	switch x := want.(type) {
	case float64:
		g, ok := got.(float64)
		return ok && math.Float64bits(g) == math.Float64bits(x)
	case int:
		g, ok := got.(float64)
		return ok && g == float64(x)
	case bool:
		g, ok := got.(bool)
		return ok && g == x
	case string:
		g, ok := got.(string)
		return ok && len(g) == len(x) && vf.BytesEq([]byte(g), []byte(x))
	case nil:
		return got == nil
	case flvio.AMFMap:
		return sameProps(x, got)
	case flvio.AMFECMAArray:
		return sameProps(x, got)
	case flvio.AMFArray:
		g, ok := got.(flvio.AMFArray)
		if !ok || len(g) != len(x) {
			return false
		}
		r := true
		for i := range x {
			r = vf.And(r, same(x[i], g[i]))
		}
		return r
	}
	return false
}

func sameProps(x []flvio.AMFKv, got interface{}) bool {
	var g []flvio.AMFKv
	switch y := got.(type) {
	case flvio.AMFMap:
		g = y
	case flvio.AMFECMAArray:
		g = y
	default:
		return false
	}
	if len(g) != len(x) {
		return false
	}
	r := true
	for i := range x {
		r = vf.And(r, vf.And(len(x[i].K) == len(g[i].K), vf.BytesEq([]byte(x[i].K), []byte(g[i].K))))
		r = vf.And(r, same(x[i].V, g[i].V))
	}
	return r
}

func leaf() interface{} {
	switch vf.Choose("leaf", 5) {
	case 0:
		return math.Float64frombits(vf.U64("f"))
	case 1:
		return vf.Bool("b")
	case 2:
		return vf.String("s", vf.Choose("sl", 4))
	case 3:
		return nil
	}
	return int(int8(vf.U8("i")))
}

// keys[i] are pairwise distinct by their first byte
func key(i int) string {
	b := vf.Bytes("k", 1+vf.Choose("kl", 2))
	b[0] = b[0]&0x3f | byte(i)<<6
	return string(b)
}

func gen(depth int, fan int) interface{} {
	k := 0
	if depth > 0 {
		k = vf.Choose("kind", 4)
	}
	if k == 0 {
		return leaf()
	}
	n := vf.Choose("n", fan+1)
	var kv []flvio.AMFKv
	arr := flvio.AMFArray{}
	for i := 0; i < n; i++ {
		d := 0
		if i == 0 {
			d = depth - 1
		}
		v := gen(d, 1)
		arr = append(arr, v)
		if k < 3 {
			kv = append(kv, flvio.AMFKv{K: key(i), V: v})
		}
	}
	switch k {
	case 1:
		return flvio.AMFMap(kv)
	case 2:
		return flvio.AMFECMAArray(kv)
	}
	return arr
}

func check(vals []interface{}) {
	want := []byte{}
	for _, v := range vals {
		want = ref(want, v)
	}
	n := flvio.FillAMF0Vals(nil, vals)
	vf.Assert(n == len(want), "announced length is the AMF0 length")
	b := make([]byte, n)
	m := flvio.FillAMF0Vals(b, vals)
	vf.Assert(m == n, "written length is the announced length")
	vf.Assert(vf.BytesEq(b, want), "AMF0 wire bytes")
	got, err := flvio.ParseAMFVals(b, false)
	vf.Assert(err == nil, "encoded values decode")
	vf.Assert(len(got) == len(vals), "one decoded value per encoded value")
	for i := range vals {
		vf.Assert(same(vals[i], got[i]), "decoded value equals the encoded one")
	}
	vf.ObsBytes("b", b)
	vf.Cover("round trip")
}

// one value of any kind, nested
//vf:bound one value tree: 5 leaf kinds, object / associative array / strict array with up to 2 entries at the top and 1 below, depth 2 (thorough 3); strings up to 3 bytes, keys 1..2 bytes, every byte and every 64 bit float
//vf:time 60
func VF_Tree() {
	check([]interface{}{gen(vf.Tier(2, 3), 2)})
}

// sequences of values
//vf:bound 0..3 values, the last possibly a container with one leaf
//vf:time 60
func VF_Seq() {
	n := vf.Choose("count", 4)
	var vals []interface{}
	for i := 0; i < n; i++ {
		if i == n-1 {
			vals = append(vals, gen(1, 1))
		} else {
			vals = append(vals, leaf())
		}
	}
	check(vals)
	if n == 1 {
		b := flvio.FillAMF0ValMalloc(vals[0])
		k := 0
		v, err := flvio.ParseAMF0Val(b, &k)
		vf.Assert(err == nil && k == len(b), "single value consumed exactly")
		vf.Assert(same(vals[0], v), "single value")
		vf.Assert(vf.BytesEq(b, flvio.FillAMF0ValsMalloc(vals)), "list of one equals the value")
	}
}

// preencoded bytes are passed through between values
//vf:bound one raw chunk of 0..3 bytes between two leaves
func VF_Raw() {
	a, c := leaf(), leaf()
	raw := vf.Bytes("raw", vf.Choose("rl", 4))
	vals := []interface{}{a, raw, c}
	want := ref(append(ref(nil, a), raw...), c)
	vf.Assert(flvio.FillAMF0Vals(nil, vals) == len(want), "length")
	vf.Assert(vf.BytesEq(flvio.FillAMF0ValsMalloc(vals), want), "bytes")
	vf.Cover("done")
}

// string lengths around the short string limit
//vf:bound lengths 255, 256, 65535, 65536, 65537 with arbitrary first and last byte
//vf:novalidate
func VF_LongString() {
	L := []int{255, 256, 65535, 65536, 65537}[vf.Choose("len", 5)]
	s := make([]byte, L)
	s[0], s[L-1] = vf.U8("first"), vf.U8("last")
	b := flvio.FillAMF0ValMalloc(string(s))
	hdr := 3
	if L >= 65536 {
		hdr = 5
		vf.Assert(b[0] == 12, "long string marker")
	} else {
		vf.Assert(b[0] == 2, "string marker")
	}
	vf.Assert(len(b) == hdr+L, "length")
	n := 0
	v, err := flvio.ParseAMF0Val(b, &n)
	g, ok := v.(string)
	vf.Assert(err == nil && ok && n == len(b) && len(g) == L, "decodes")
	vf.Assert(g[0] == s[0] && g[L-1] == s[L-1], "contents")
	vf.Cover("done")
}

// every Go number kind is the same number on the wire
//vf:bound every value of 8, 16 and 32 bit kinds; 64 bit kinds and float32 for 16 bit values
func VF_Numbers() {
	u := vf.U32("u")
	var v interface{}
	var want float64
	switch vf.Choose("kind", 12) {
	case 0:
		v, want = int8(u), float64(int8(u))
	case 1:
		v, want = int16(u), float64(int16(u))
	case 2:
		v, want = int32(u), float64(int32(u))
	case 3:
		v, want = int64(int16(u)), float64(int16(u))
	case 4:
		v, want = int(int16(u)), float64(int16(u))
	case 5:
		v, want = uint8(u), float64(uint8(u))
	case 6:
		v, want = uint16(u), float64(uint16(u))
	case 7:
		v, want = u, float64(u)
	case 8:
		v, want = uint64(uint16(u)), float64(uint16(u))
	case 9:
		v, want = uint(uint16(u)), float64(uint16(u))
	case 10:
		v, want = float32(uint16(u)), float64(uint16(u))
	case 11:
		v, want = float64(u), float64(u)
	}
	b := flvio.FillAMF0ValMalloc(v)
	vf.Assert(vf.BytesEq(b, number(nil, want)), "number bytes")
	n := 0
	g, err := flvio.ParseAMF0Val(b, &n)
	f, ok := g.(float64)
	vf.Assert(err == nil && ok && n == 9 && f == want, "number decodes")
	vf.Cover("done")
}

// dates keep millisecond precision
//vf:bound selected (thorough 64 consecutive) milliseconds around 1970, 1969, 2033 and 1900, with five fractions of a millisecond
func VF_Date() {
	base := []int64{0, -86400000, 2000000000000, -2208988800000}[vf.Choose("base", 4)]
	ms := base
	if vf.Tier(0, 1) == 1 {
		ms += int64(vf.U8("ms") & 63)
	} else {
		ms += []int64{0, 1, 7, 999, 1000, -1}[vf.Choose("ms", 6)]
	}
	frac := []int64{0, 1, 499999, 500000, 999999}[vf.Choose("fraction", 5)]
	t := time.Unix(0, ms*1000000+frac)
	b := flvio.FillAMF0ValMalloc(t)
	vf.Assert(len(b) == 11 && b[0] == 11, "date marker and size")
	n := 0
	v, err := flvio.ParseAMF0Val(b, &n)
	g, ok := v.(time.Time)
	vf.Assert(err == nil && ok && n == 11, "date decodes")
	d := g.UnixNano() - (ms*1000000 + frac)
	vf.Assert(g.UnixNano()%1000000 == 0 && d > -1000000 && d < 1000000, "same instant, in whole milliseconds")
	if frac == 0 {
		vf.Assert(d == 0, "same instant")
	}
	vf.Assert(vf.BytesEq(flvio.FillAMF0ValMalloc(g), b), "the decoded date encodes to the same bytes")
	vf.Cover("done")
}

// object accessors return what was set last, and only that
//vf:bound up to 2 distinct entries set in order, one overwritten, one deleted; keys of 1..2 arbitrary bytes
func VF_MapOps() {
	m := flvio.AMFMap{}
	k0, k1 := key(0), key(1)
	v0, v1, v2 := leaf(), leaf(), vf.U32("v2")
	m = m.Set(k0, v0)
	m = m.Set(k1, v1)
	m = m.Set(k0, float64(v2))
	vf.Assert(len(m) == 2 && m[0].K == k0 && m[1].K == k1, "set keeps one entry per key in order")
	f, ok := m.GetFloat64(k0)
	vf.Assert(ok && f == float64(v2), "get number")
	g, ok := m.GetV(k1)
	if iv, is := v1.(int); is {
		gi, gok := g.(int)
		vf.Assert(ok && gok && gi == iv, "get value")
	} else {
		vf.Assert(ok && same(v1, g), "get value")
	}
	s, sok := m.GetString(k1)
	if ws, is := v1.(string); is {
		vf.Assert(sok && s == ws, "get string")
	} else {
		vf.Assert(!sok && s == "", "get string of another type")
	}
	bo, bok := m.GetBool(k1)
	if wb, is := v1.(bool); is {
		vf.Assert(bok && bo == wb, "get bool")
	} else {
		vf.Assert(!bok && !bo, "get bool of another type")
	}
	d := m.Del(k0)
	_, ok = d.GetV(k0)
	vf.Assert(!ok && len(d) == 1 && d[0].K == k1, "deleted")
	vf.Assert(d.Get(k0) == nil && m.Get(k1) != nil, "get entry")
	vf.Cover("done")
}
