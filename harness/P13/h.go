package h

import (
	"github.com/nareix/joy5/codec/h264"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

var high = []uint{100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

// sps is a sequence parameter set under construction, with the values the
// standard derives from it
type sps struct {
	lib.BitBuf
	want   h264.SPSInfo
	chroma uint64
	sep    bool
}

// begin writes everything up to the scaling matrix flag
func (s *sps) begin(profile uint, chroma uint64) {
	s.Put(0x67, 8)
	s.Put(uint64(profile), 8)
	cons := vf.U8("constraints")
	level := vf.U8("level")
	s.Put(uint64(cons), 8)
	s.Put(uint64(level), 8)
	s.want.ProfileIdc = profile
	s.want.ConstraintSetFlag = uint(cons >> 2)
	s.want.LevelIdc = uint(level)
	s.chroma = chroma
}

func isHigh(p uint) bool {
	for _, h := range high {
		if h == p {
			return true
		}
	}
	return false
}

func (s *sps) highFields() {
	s.UE(s.chroma)
	if s.chroma == 3 {
		b := vf.Choose("separate", 2)
		s.sep = b == 1
		s.Put(uint64(b), 1)
	}
	s.UE(uint64(vf.Choose("depth", 2) * 6))
	s.UE(0)
	s.Put(uint64(vf.U8("bypass")&1), 1)
}

func (s *sps) cropUnits() (x, y uint) {
	x, y = 2, 2
	switch {
	case s.sep || s.chroma == 0 || s.chroma == 3:
		x, y = 1, 1
	case s.chroma == 2:
		y = 1
	}
	return
}

// size writes the picture size and cropping
func (s *sps) size(w, h uint64, frames int, crop [4]uint64) {
	fm := 2 - uint(frames)
	x, y := s.cropUnits()
	s.want.MbWidth = uint(w)
	s.want.MbHeight = uint(h)
	s.want.CropLeft, s.want.CropRight, s.want.CropTop, s.want.CropBottom = uint(crop[0]), uint(crop[1]), uint(crop[2]), uint(crop[3])
	s.want.Width = uint(w)*16 - x*uint(crop[0]+crop[1])
	s.want.Height = fm*uint(h)*16 - fm*y*uint(crop[2]+crop[3])
	vf.Assume(x*uint(crop[0]+crop[1]) < uint(w)*16)
	vf.Assume(fm*y*uint(crop[2]+crop[3]) < fm*uint(h)*16)
}

func check(s *sps, nalu []byte) {
	keep := append([]byte(nil), nalu...)
	got, err := h264.ParseSPS(nalu)
	vf.Assert(err == nil, "valid SPS is accepted")
	vf.Assert(got.Id == s.want.Id, "id")
	vf.Assert(got.ProfileIdc == s.want.ProfileIdc, "profile")
	vf.Assert(got.LevelIdc == s.want.LevelIdc, "level")
	vf.Assert(got.ConstraintSetFlag == s.want.ConstraintSetFlag, "constraint flags")
	vf.Assert(got.MbWidth == s.want.MbWidth, "width in macroblocks")
	vf.Assert(got.MbHeight == s.want.MbHeight, "height in map units")
	vf.Assert(vf.And(vf.And(got.CropLeft == s.want.CropLeft, got.CropRight == s.want.CropRight), vf.And(got.CropTop == s.want.CropTop, got.CropBottom == s.want.CropBottom)), "cropping")
	vf.Assert(got.Width == s.want.Width, "width")
	vf.Assert(got.Height == s.want.Height, "height")
	vf.Assert(got.FPS == s.want.FPS, "frame rate")
	id, err := h264.ParseSPSId(nalu)
	vf.Assert(err == nil && id == s.want.Id, "ParseSPSId")
	vf.Assert(vf.BytesEq(nalu, keep), "input is left alone")
	vf.Cover("done")
}

// identity, chroma format, interlacing and cropping
//vf:bound every profile with extended fields and four without, every chroma format and plane mode, frame or field coding, every constraint and level byte; id, width and height in exp-Golomb classes of 0, 2 or 5..7 bits with arbitrary suffix; no cropping or four arbitrary offsets of one class (0 or 2 bits)
//vf:time 60
func VF_Geometry() {
	s := &sps{}
	profiles := append([]uint{66, 77, 88, 0}, high...)
	p := profiles[vf.Choose("profile", len(profiles))]
	// chroma variants for the first two extended profiles, 4:2:0 for the rest
	ch := uint64(1)
	if p == 100 || p == 244 || p == 118 {
		ch = uint64(vf.Choose("chroma", 4))
	}
	s.begin(p, ch)
	k := []int{0, 4}[vf.Choose("idk", 2)]
	s.want.Id = uint(s.UEk(k, uint64(vf.U8("id"))&(1<<uint(k)-1)))
	if isHigh(p) {
		s.highFields()
		s.Put(0, 1) // no scaling matrix
	}
	s.tail()
	check(s, lib.Escape(s.Bytes()))
}

// tail writes order count type 0, size and cropping, no VUI
func (s *sps) tail() {
	s.UE(uint64(vf.Choose("frame_num", 2) * 12))
	s.UE(0)
	s.UE(4)
	s.UE(2)
	s.Put(uint64(vf.U8("gaps")&1), 1)
	k := []int{2, 6}[vf.Choose("size.k", 2)]
	w := 1 + s.UEk(k, uint64(vf.U8("w"))&(1<<uint(k)-1))
	h := 1 + s.UEk(k, uint64(vf.U8("h"))&(1<<uint(k)-1))
	frames := vf.Choose("frames only", 2)
	s.Put(uint64(frames), 1)
	if frames == 0 {
		s.Put(uint64(vf.U8("mbaff")&1), 1)
	}
	s.Put(uint64(vf.U8("direct")&1), 1)
	var crop [4]uint64
	switch c := vf.Choose("crop", 3); c {
	case 0:
		s.Put(0, 1)
	default:
		s.Put(1, 1)
		for i := range crop {
			k := 2
			if c == 1 && i%2 == 0 {
				k = 0
			}
			crop[i] = s.UEk(k, uint64(vf.U8("crop"))&(1<<uint(k)-1))
		}
	}
	s.size(w, h, frames, crop)
	s.Put(0, 1)
}

// every shape of scaling lists is skipped exactly
//vf:bound each chroma format; one of the 8 (12 for 4:4:4) lists, or all of the first six, sent; the list ends early after 0..2 (thorough 3) deltas of the 2-bit class or runs over its full length (16 or 64) with such a first delta; the fields after it are arbitrary
//vf:time 100
func VF_Scaling() {
	s := &sps{}
	ch := uint64(vf.Choose("chroma", 4))
	s.begin([]uint{100, 244}[vf.Choose("profile", 2)], ch)
	s.UE(0)
	s.UE(ch)
	if ch == 3 {
		s.Put(0, 1)
	}
	s.UE(0)
	s.UE(0)
	s.Put(0, 1)
	s.Put(1, 1)
	lists := 8
	if ch == 3 {
		lists = 12
	}
	sent := vf.Choose("list", lists+1)
	mode := vf.Choose("mode", 5)
	if vf.Tier(0, 1) == 0 && mode == 3 {
		mode = 2
	}
	for i := 0; i < lists; i++ {
		if i != sent && !(sent == lists && i < 6) {
			s.Put(0, 1)
			continue
		}
		s.Put(1, 1)
		n := 16
		if i >= 6 {
			n = 64
		}
		last := int64(8)
		j := 0
		for ; j < mode && j < 3; j++ {
			if mode == 4 && j > 0 || sent == lists && i > 0 {
				s.SE(0)
				continue
			}
			// a delta of class 2: codes 3..6, values 2,-2,3,-3
			code := s.UEk(2, uint64(vf.U8("delta")&3))
			delta := vf.Ite(code&1 == 1, int64(code+1)/2, -int64(code/2))
			next := (last + delta + 256) & 255
			vf.Assume(next != 0)
			last = next
		}
		if mode == 4 {
			for ; j < n; j++ {
				s.SE(0)
			}
			continue
		}
		// a delta that makes the next scale zero ends the list
		c := vf.Conc(int(last))
		if c < 128 {
			s.SE(-int64(c))
		} else {
			s.SE(256 - int64(c))
		}
	}
	s.tail2()
	check(s, lib.Escape(s.Bytes()))
}

// a list whose steps use the whole range they may have
//vf:bound one list of 16 or 64 entries, of which the first two steps are each anything in -127..64 and the others none; the fields after it are arbitrary
//vf:time 60
func VF_ScalingSteps() {
	s := &sps{}
	s.begin(100, 1)
	s.UE(0)
	s.UE(1)
	s.UE(0)
	s.UE(0)
	s.Put(0, 1)
	s.Put(1, 1)
	sent := []int{0, 7}[vf.Choose("list", 2)]
	for i := 0; i < 8; i++ {
		if i != sent {
			s.Put(0, 1)
			continue
		}
		s.Put(1, 1)
		n := 16
		if i >= 6 {
			n = 64
		}
		last := int64(8)
		for j := 0; j < 2; j++ {
			code := s.UEk(7, uint64(vf.U8("delta")&127))
			delta := vf.Ite(code&1 == 1, int64(code+1)/2, -int64(code/2))
			next := (last + delta + 256) & 255
			vf.Assume(next != 0)
			last = next
		}
		for j := 2; j < n; j++ {
			s.SE(0)
		}
	}
	s.tail2()
	check(s, lib.Escape(s.Bytes()))
}

func (s *sps) tail2() {
	s.UE(0)
	s.UE(2)
	s.UE(1)
	s.Put(0, 1)
	w := 1 + s.UEk(4, uint64(vf.U8("w"))&15)
	h := 1 + s.UEk(4, uint64(vf.U8("h"))&15)
	s.Put(1, 1)
	s.Put(1, 1)
	s.Put(0, 1)
	s.size(w, h, 1, [4]uint64{})
	s.Put(0, 1)
}

// every picture order count type is skipped exactly
//vf:bound order count types 0..2; for type 1 offsets in classes of 0, 3 or 8 bits with arbitrary suffix and a cycle of 0..4 arbitrary offsets
func VF_OrderCount() {
	s := &sps{}
	s.begin(66, 1)
	s.want.Id = uint(s.SymUE("id", 4))
	s.UE(uint64(vf.Choose("frame_num", 2) * 7))
	switch t := vf.Choose("type", 3); t {
	case 0:
		s.UE(0)
		s.UE(uint64(vf.Choose("lsb", 13)))
	case 1:
		s.UE(1)
		s.Put(uint64(vf.U8("zero")&1), 1)
		for i := 0; i < 2; i++ {
			k := []int{0, 3, 8}[vf.Choose("off.k", 3)]
			s.UEk(k, uint64(vf.U8("off"))&(1<<uint(k)-1))
		}
		n := vf.Choose("cycle", 5)
		s.UE(uint64(n))
		for i := 0; i < n; i++ {
			k := []int{1, 5}[vf.Choose("ref.k", 2)]
			s.UEk(k, uint64(vf.U8("ref"))&(1<<uint(k)-1))
		}
	case 2:
		s.UE(2)
	}
	s.UE(1)
	s.Put(0, 1)
	w := 1 + s.UEk(4, uint64(vf.U8("w"))&15)
	h := 1 + s.UEk(4, uint64(vf.U8("h"))&15)
	s.Put(1, 1)
	s.Put(1, 1)
	s.Put(0, 1)
	s.size(w, h, 1, [4]uint64{})
	s.Put(0, 1)
	check(s, lib.Escape(s.Bytes()))
}

// the frame rate behind every combination of usability fields
//vf:bound every combination of the optional VUI fields before the timing, with arbitrary contents; no timing, or units and time scale with an arbitrary byte each, or (no other field sent) arbitrary 32-bit units and time scale with units not zero; the SPS needs no emulation prevention (VF_FrameRateEscaped is about those that do)
//vf:time 60
func VF_FrameRate() {
	s := &sps{}
	s.begin(66, 1)
	s.UE(0)
	s.UE(0)
	s.UE(2)
	s.UE(1)
	s.Put(0, 1)
	s.UE(44)
	s.UE(35)
	s.Put(1, 1)
	s.Put(1, 1)
	s.Put(0, 1)
	s.size(45, 36, 1, [4]uint64{})
	s.Put(1, 1)
	plain := len(s.B)
	switch vf.Choose("aspect", 3) {
	case 0:
		s.Put(0, 1)
	case 1:
		s.Put(1, 1)
		idc := vf.U8("idc")
		vf.Assume(idc != 255)
		s.Put(uint64(idc), 8)
	case 2:
		s.Put(1, 1)
		s.Put(255, 8)
		s.Put(uint64(vf.U16("sarw"))|0x1010, 16)
		s.Put(uint64(vf.U16("sarh"))|0x1010, 16)
	}
	if vf.Choose("overscan", 2) == 1 {
		s.Put(1, 1)
		s.Put(uint64(vf.U8("appropriate")&1), 1)
	} else {
		s.Put(0, 1)
	}
	switch vf.Choose("video", 3) {
	case 0:
		s.Put(0, 1)
	case 1:
		s.Put(1, 1)
		s.Put(uint64(vf.U8("format")&7), 3)
		s.Put(uint64(vf.U8("range")&1), 1)
		s.Put(0, 1)
	case 2:
		s.Put(1, 1)
		s.Put(uint64(vf.U8("format")&7), 3)
		s.Put(uint64(vf.U8("range")&1), 1)
		s.Put(1, 1)
		s.Put(uint64(vf.U32("colour")&0xffffff), 24)
	}
	if vf.Choose("chromaloc", 2) == 1 {
		s.Put(1, 1)
		s.UE(uint64(vf.Choose("loc1", 2) * 5))
		s.UE(uint64(vf.Choose("loc2", 2) * 3))
	} else {
		s.Put(0, 1)
	}
	if vf.Choose("timing", 2) == 1 {
		s.Put(1, 1)
		units, scale := uint64(vf.U32("units")), uint64(vf.U32("scale"))
		if len(s.B) > plain+4 {
			units, scale = units&0xff|0xabcd00, scale&0xff00|0xf5fe00fe
		}
		vf.Assume(units != 0)
		s.Put(units, 32)
		s.Put(scale, 32)
		s.Put(uint64(vf.U8("fixed")&1), 1)
		s.want.FPS = uint(scale / (2 * units))
	} else {
		s.Put(0, 1)
	}
	s.Put(0, 3)
	s.Put(0, 1)
	nalu := s.Bytes()
	z := false
	for i := 0; i+2 < len(nalu); i++ {
		z = vf.Or(z, vf.And(vf.And(nalu[i] == 0, nalu[i+1] == 0), nalu[i+2] <= 3))
	}
	vf.Assume(!z)
	check(s, nalu)
}

// timing fields with long runs of zero bits, where emulation prevention is needed
//vf:bound units and time scale each an arbitrary byte in any of the four positions of the 32-bit field, other bytes 0 (units byte not zero)
func VF_FrameRateEscaped() {
	s := &sps{}
	s.begin(66, 1)
	s.UE(0)
	s.UE(0)
	s.UE(2)
	s.UE(1)
	s.Put(0, 1)
	s.UE(44)
	s.UE(35)
	s.Put(1, 1)
	s.Put(1, 1)
	s.Put(0, 1)
	s.size(45, 36, 1, [4]uint64{})
	s.Put(1, 1)
	s.Put(0, 4)
	s.Put(1, 1)
	u, c := uint64(vf.U8("units")), uint64(vf.U8("scale"))
	vf.Assume(u != 0)
	units, scale := u<<uint(8*vf.Choose("ushift", 4)), c<<uint(8*vf.Choose("sshift", 4))
	s.Put(units, 32)
	s.Put(scale, 32)
	s.Put(1, 1)
	s.want.FPS = uint(scale / (2 * units))
	s.Put(0, 4)
	check(s, lib.Escape(s.Bytes()))
}

// emulation prevention bytes are removed exactly
//vf:bound every payload of 0..8 bytes (thorough 0..11), escaped as the standard prescribes
//vf:ttime 600
func VF_Emulation() {
	rbsp := vf.Bytes("rbsp", vf.Choose("len", vf.Tier(9, 12)))
	esc := lib.Escape(rbsp)
	keep := append([]byte(nil), esc...)
	got := h264.RemoveH264orH265EmulationBytes(esc)
	vf.Assert(len(got) == len(rbsp) || len(got) == len(rbsp)+1, "length of the payload")
	// a cabac_zero_word escape at the very end may stay
	vf.Assert(vf.BytesEq(got[:len(rbsp)], rbsp), "payload")
	if len(got) > len(rbsp) {
		vf.Assert(got[len(rbsp)] == 3 && len(rbsp) > 0 && rbsp[len(rbsp)-1] == 0, "only a final escape may stay")
	}
	vf.Assert(vf.BytesEq(esc, keep), "input is left alone")
	vf.Cover("done")
}
