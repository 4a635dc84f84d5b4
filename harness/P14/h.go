package h

import (
	"github.com/nareix/joy5/codec/h264"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

type pset struct {
	id int
	b  []byte
}

// spsNALU is a baseline SPS with the given id class
func spsNALU(id uint64) pset { return sps(id, vf.U8("compat"), vf.U8("level"), vf.U8("w"), vf.U8("h")) }

func sps(id uint64, compat, level, width, height byte) pset {
	w := &lib.BitBuf{}
	w.Put(0x67, 8)
	w.Put(66, 8)
	w.Put(uint64(compat)|4, 8)
	w.Put(uint64(level)|1, 8)
	w.UE(id)
	w.UE(0)
	w.UE(2)
	w.UE(1)
	w.Put(0, 1)
	w.UEk(4, uint64(width&15))
	w.UEk(4, uint64(height&15))
	w.Put(1, 1)
	w.Put(1, 1)
	w.Put(0, 2)
	return pset{int(id), lib.Escape(w.Bytes())}
}

func ppsNALU(id uint64) pset { return pps(id, vf.U8("pps"), vf.U8("ppst")) }

func pps(id uint64, x, y byte) pset {
	w := &lib.BitBuf{}
	w.Put(0x68, 8)
	w.UE(id)
	w.UE(0)
	w.Put(uint64(x)|1, 8)
	for i := int(id & 1); i > 0; i-- {
		w.Put(uint64(y)|1, 8)
	}
	return pset{int(id), w.Bytes()}
}

// pick gives n parameter sets with distinct ids, in an order that need not be ascending
func pick(name string, n int, mk func(uint64) pset) (ps []pset) {
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		id := []uint64{0, 5, 9}[vf.Choose(name, 3)]
		vf.Assume(!used[int(id)])
		used[int(id)] = true
		ps = append(ps, mk(id))
	}
	return
}

func sorted(ps []pset) []pset {
	out := append([]pset(nil), ps...)
	for i := range out {
		for j := i; j > 0 && out[j].id < out[j-1].id; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func refRecord(sps, pps []pset) (b []byte) {
	s, p := sorted(sps), sorted(pps)
	b = append(b, 1, s[0].b[1], s[0].b[2], s[0].b[3], 0xff, 0xe0|byte(len(s)))
	for _, x := range s {
		b = append(append(b, byte(len(x.b)>>8), byte(len(x.b))), x.b...)
	}
	b = append(b, byte(len(p)))
	for _, x := range p {
		b = append(append(b, byte(len(x.b)>>8), byte(len(x.b))), x.b...)
	}
	return
}

func holds(c *h264.Codec, sps, pps []pset, what string) {
	vf.Assert(len(c.SPS) == len(sps), what+": number of SPS")
	vf.Assert(len(c.PPS) == len(pps), what+": number of PPS")
	for _, x := range sps {
		vf.Assert(len(c.SPS[x.id]) == len(x.b) && vf.BytesEq(c.SPS[x.id], x.b), what+": SPS")
	}
	for _, x := range pps {
		vf.Assert(len(c.PPS[x.id]) == len(x.b) && vf.BytesEq(c.PPS[x.id], x.b), what+": PPS")
	}
	arr := h264.Map2arr(c.PPS)
	for i, x := range sorted(pps) {
		vf.Assert(vf.BytesEq(arr[i], x.b), what+": order of PPS")
	}
}

// collected parameter sets, their record, and the parameter sets in it
//vf:bound 1..2 SPS (thorough 3) with ids out of 0,5,9 in any order and almost arbitrary compatibility and level, arbitrary size, 0..2 PPS with ids likewise and arbitrary contents, added in any interleaving of kinds; every iteration order of the maps while collecting, or while writing, or while decoding
//vf:time 100
//vf:ttime 800
func VF_Record() {
	phase := vf.Choose("phase", 3)
	sps := pick("spsid", 1+vf.Choose("nsps", vf.Tier(2, 3)), spsNALU)
	pps := pick("ppsid", vf.Choose("npps", vf.Tier(3, 3)), ppsNALU)
	vf.MapOrder(phase == 0 && len(sps)+len(pps) < 4)
	c := h264.NewCodec()
	if vf.Choose("pps first", 2) == 0 {
		for _, x := range sps {
			c.AddSPSPPS(x.b)
		}
		for _, x := range pps {
			c.AddSPSPPS(x.b)
		}
	} else {
		for _, x := range pps {
			c.AddSPSPPS(x.b)
		}
		for _, x := range sps {
			c.AddSPSPPS(x.b)
		}
	}
	// the codec keeps its own copy of what it was given
	var ks, kp []pset
	for _, x := range sps {
		ks = append(ks, pset{x.id, append([]byte(nil), x.b...)})
		x.b[len(x.b)-1] ^= 0x55
	}
	for _, x := range pps {
		kp = append(kp, pset{x.id, append([]byte(nil), x.b...)})
		x.b[len(x.b)-1] ^= 0x55
	}
	vf.MapOrder(phase == 1)
	holds(c, ks, kp, "collected")
	c.ToConfig()
	want := refRecord(ks, kp)
	vf.Assert(c.Len() == len(want), "announced length")
	vf.Assert(len(c.ConfigBytes) == len(want), "record length")
	vf.Assert(vf.BytesEq(c.ConfigBytes, want), "record")
	vf.MapOrder(phase == 2 && len(sps)+len(pps) < 4)
	d, err := h264.FromDecoderConfig(c.ConfigBytes)
	vf.Assert(err == nil, "own record is accepted")
	holds(d, ks, kp, "recovered")
	vf.Assert(d.Equal(*c) && c.Equal(*d), "equal to the original")
	vf.MapOrder(false)
	if len(sps) == 1 {
		vf.Assert(vf.And(d.W == c.W, d.H == c.H), "picture size")
	}
	d.ToConfig()
	vf.Assert(vf.BytesEq(d.ConfigBytes, want), "same record again")
	vf.Cover("done")
}

// a parameter set sent again replaces the one with its id
//vf:bound an SPS and a PPS, each replaced by one with the same id and arbitrary contents
func VF_Replace() {
	vf.MapOrder(true)
	id := []uint64{0, 3}[vf.Choose("id", 2)]
	s1, s2, p1, p2 := spsNALU(id), spsNALU(id), ppsNALU(id), ppsNALU(id)
	c, once := h264.NewCodec(), h264.NewCodec()
	for _, x := range []pset{s1, p1, s2, p2} {
		c.AddSPSPPS(x.b)
	}
	once.AddSPSPPS(s2.b)
	once.AddSPSPPS(p2.b)
	holds(c, []pset{s2}, []pset{p2}, "replaced")
	vf.Assert(vf.And(c.W == once.W, c.H == once.H), "picture size")
	vf.Assert(c.Equal(*once), "equal to one that saw only the last")
	c.ToConfig()
	vf.Assert(vf.BytesEq(c.ConfigBytes, refRecord([]pset{s2}, []pset{p2})), "record")
	vf.Cover("done")
}

// records of other encoders
//vf:bound version, profile, compatibility, level, length size and reserved bits arbitrary; 0..2 SPS (thorough 3) and 0..2 PPS in any order of ids, then 0..4 arbitrary extension bytes; and every proper prefix of such a record is refused
//vf:time 100
func VF_Foreign() {
	sps := pick("spsid", vf.Choose("nsps", vf.Tier(3, 4)), spsNALU)
	pps := pick("ppsid", vf.Choose("npps", 3), ppsNALU)
	vf.MapOrder(len(sps)+len(pps) < 4)
	b := vf.Bytes("head", 5)
	b = append(b, vf.U8("reserved")&0xe0|byte(len(sps)))
	for _, x := range sps {
		b = append(append(b, byte(len(x.b)>>8), byte(len(x.b))), x.b...)
	}
	b = append(b, byte(len(pps)))
	for _, x := range pps {
		b = append(append(b, byte(len(x.b)>>8), byte(len(x.b))), x.b...)
	}
	if len(sps) < 3 && len(pps) < 2 && vf.Choose("cut", 2) == 1 {
		n := vf.Choose("at", len(b))
		_, err := h264.FromDecoderConfig(b[:n])
		vf.Assert(err != nil, "truncated record is refused")
		vf.Cover("truncated")
		return
	}
	b = append(b, vf.Bytes("ext", vf.Choose("ext", 2)*4)...)
	c, err := h264.FromDecoderConfig(b)
	vf.Assert(err == nil, "record is accepted")
	holds(c, sps, pps, "decoded")
	vf.Cover("done")
}

// records with as many parameter sets as the format can count
//vf:bound a record of another encoder with 1, 15, 16, 17 or 31 SPS and 0, 1, 32, 127, 128 or 255 PPS with ids of their own, contents of the last ones arbitrary; and what is written for them
//vf:time 60
//vf:steps 20000000
func VF_Many() {
	ns := []int{1, 15, 16, 17, 31}[vf.Choose("nsps", 5)]
	np := []int{0, 1, 32, 127, 128, 255}[vf.Choose("npps", 6)]
	var ss, pp []pset
	for i := 0; i < ns; i++ {
		if i < ns-1 {
			ss = append(ss, sps(uint64(i), 4, 31, byte(i), 3))
		} else {
			ss = append(ss, spsNALU(uint64(i)))
		}
	}
	for i := 0; i < np; i++ {
		if i < np-1 {
			pp = append(pp, pps(uint64(i), byte(i), 7))
		} else {
			pp = append(pp, ppsNALU(uint64(i)))
		}
	}
	want := refRecord(ss, pp)
	c, err := h264.FromDecoderConfig(want)
	vf.Assert(err == nil, "record is accepted")
	holds(c, ss, pp, "decoded")
	c.ToConfig()
	vf.Assert(vf.BytesEq(c.ConfigBytes, want), "same record again")
	vf.Cover("done")
}
