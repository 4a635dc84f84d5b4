// Package h: MP4 boxes survive serialisation with exact sizes. The reference
// lays each box out byte by byte; a box built from the same field values has
// to serialise to those bytes, and those bytes have to parse to a box that
// serialises to them again.
package h

import (
	"github.com/nareix/joy5/format/mp4/mp4io"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

func same(a, fresh mp4io.Atom, ref []byte) {
	if a != nil {
		n := a.Len()
		vf.Assert(n == len(ref), "announced length is the length of the box")
		b := make([]byte, n)
		vf.Assert(a.Marshal(b) == n, "serialises to the announced length")
		vf.Assert(vf.BytesEq(b, ref), "serialises to the fields it has")
	}
	n, err := fresh.Unmarshal(ref, 0)
	vf.Assert(err == nil, "parses")
	if _, ok := fresh.(*mp4io.ElemStreamDesc); !ok {
		// an esds reports the length of its descriptor
		vf.Assert(n == len(ref), "parses to its end")
	}
	m := fresh.Len()
	vf.Assert(m == len(ref), "parsed box announces the length it was read with")
	b := make([]byte, m)
	vf.Assert(fresh.Marshal(b) == m, "parsed box serialises to the announced length")
	vf.Assert(vf.BytesEq(b, ref), "parsed box serialises to what was read")
}

func matrix(w *lib.MP) (m [9]int32) {
	for i := range m {
		m[i] = vf.I32("m")
		w.U32(uint32(m[i]))
	}
	return
}

func i16(name string) int16 { return int16(vf.U16(name)) }

type hdr struct {
	v uint8
	f uint32
}

func full(w *lib.MP) hdr {
	h := hdr{vf.U8("version"), lib.U24("flags")}
	w.Full(h.v, h.f)
	return h
}

//vf:bound every value of every field of mvhd (version 0 layout), times 1904..2040, rate and volume multiples of 2^-16 and 2^-8
func VF_MovieHeader() {
	w := &lib.MP{}
	h := full(w)
	ct, mt, ts, du := vf.U32("ct"), vf.U32("mt"), vf.I32("scale"), vf.I32("dur")
	rate, vol := vf.U32("rate"), vf.U16("vol")
	w.U32(ct).U32(mt).U32(uint32(ts)).U32(uint32(du)).U32(rate).U16(vol).Zero(10)
	m := matrix(w)
	var t [6]uint32
	for i := range t {
		t[i] = vf.U32("t")
		w.U32(t[i])
	}
	id := vf.I32("id")
	w.U32(uint32(id))
	same(&mp4io.MovieHeader{
		Version: h.v, Flags: h.f, CreateTime: lib.T1904(ct), ModifyTime: lib.T1904(mt),
		TimeScale: ts, Duration: du, PreferredRate: lib.F32(rate), PreferredVolume: lib.F16(vol),
		Matrix: m, PreviewTime: lib.T1904(t[0]), PreviewDuration: lib.T1904(t[1]), PosterTime: lib.T1904(t[2]),
		SelectionTime: lib.T1904(t[3]), SelectionDuration: lib.T1904(t[4]), CurrentTime: lib.T1904(t[5]),
		NextTrackId: id,
	}, &mp4io.MovieHeader{}, w.Box("mvhd"))
}

//vf:bound a zero time in any of the time fields of mvhd, tkhd and mdhd
func VF_UnsetTimes() {
	same(&mp4io.MovieHeader{}, &mp4io.MovieHeader{}, (&lib.MP{}).Zero(100).Box("mvhd"))
	same(&mp4io.TrackHeader{}, &mp4io.TrackHeader{}, (&lib.MP{}).Zero(84).Box("tkhd"))
	same(&mp4io.MediaHeader{}, &mp4io.MediaHeader{}, (&lib.MP{}).Zero(24).Box("mdhd"))
}

//vf:bound every value of every field of tkhd (version 0 layout), times 1904..2040, volume and size multiples of 2^-8 and 2^-16
func VF_TrackHeader() {
	w := &lib.MP{}
	h := full(w)
	ct, mt, id, du := vf.U32("ct"), vf.U32("mt"), vf.I32("id"), vf.I32("dur")
	layer, group, vol := i16("layer"), i16("group"), vf.U16("vol")
	w.U32(ct).U32(mt).U32(uint32(id)).Zero(4).U32(uint32(du)).Zero(8)
	w.U16(uint16(layer)).U16(uint16(group)).U16(vol).Zero(2)
	m := matrix(w)
	wd, ht := vf.U32("width"), vf.U32("height")
	w.U32(wd).U32(ht)
	same(&mp4io.TrackHeader{
		Version: h.v, Flags: h.f, CreateTime: lib.T1904(ct), ModifyTime: lib.T1904(mt),
		TrackId: id, Duration: du, Layer: layer, AlternateGroup: group, Volume: lib.F16(vol),
		Matrix: m, TrackWidth: lib.F32(wd), TrackHeight: lib.F32(ht),
	}, &mp4io.TrackHeader{}, w.Box("tkhd"))
}

//vf:bound every value of every field of mdhd (version 0 layout), times 1904..2040
func VF_MediaHeader() {
	w := &lib.MP{}
	h := full(w)
	ct, mt, ts, du := vf.U32("ct"), vf.U32("mt"), vf.I32("scale"), vf.I32("dur")
	la, q := i16("lang"), i16("quality")
	w.U32(ct).U32(mt).U32(uint32(ts)).U32(uint32(du)).U16(uint16(la)).U16(uint16(q))
	same(&mp4io.MediaHeader{
		Version: h.v, Flags: h.f, CreateTime: lib.T1904(ct), ModifyTime: lib.T1904(mt),
		TimeScale: ts, Duration: du, Language: la, Quality: q,
	}, &mp4io.MediaHeader{}, w.Box("mdhd"))
}

//vf:bound every hdlr with a name of 0..6 bytes
func VF_Handler() {
	w := &lib.MP{}
	h := full(w)
	ty, sub, name := vf.Bytes("type", 4), vf.Bytes("sub", 4), vf.Bytes("name", vf.Choose("len", 7))
	w.Raw(ty, sub, name)
	a := &mp4io.HandlerRefer{Version: h.v, Flags: h.f, Name: name}
	copy(a.Type[:], ty)
	copy(a.SubType[:], sub)
	same(a, &mp4io.HandlerRefer{}, w.Box("hdlr"))
}

//vf:bound every value of smhd, vmhd, url, dref with and without url, mfhd and trex
func VF_Small() {
	w := &lib.MP{}
	h := full(w)
	switch vf.Choose("box", 7) {
	case 0:
		bal := i16("bal")
		w.U16(uint16(bal)).Zero(2)
		same(&mp4io.SoundMediaInfo{Version: h.v, Flags: h.f, Balance: bal}, &mp4io.SoundMediaInfo{}, w.Box("smhd"))
	case 1:
		a := &mp4io.VideoMediaInfo{Version: h.v, Flags: h.f, GraphicsMode: i16("mode")}
		w.U16(uint16(a.GraphicsMode))
		for i := range a.Opcolor {
			a.Opcolor[i] = i16("op")
			w.U16(uint16(a.Opcolor[i]))
		}
		same(a, &mp4io.VideoMediaInfo{}, w.Box("vmhd"))
	case 2:
		same(&mp4io.DataReferUrl{Version: h.v, Flags: h.f}, &mp4io.DataReferUrl{}, w.Box("url "))
	case 3:
		u := &lib.MP{}
		g := full(u)
		w.U32(1).Raw(u.Box("url "))
		same(&mp4io.DataRefer{Version: h.v, Flags: h.f, Url: &mp4io.DataReferUrl{Version: g.v, Flags: g.f}}, &mp4io.DataRefer{}, w.Box("dref"))
	case 4:
		w.U32(0)
		same(&mp4io.DataRefer{Version: h.v, Flags: h.f}, &mp4io.DataRefer{}, w.Box("dref"))
	case 5:
		s := vf.U32("seq")
		w.U32(s)
		same(&mp4io.MovieFragHeader{Version: h.v, Flags: h.f, Seqnum: s}, &mp4io.MovieFragHeader{}, w.Box("mfhd"))
	case 6:
		id, d, du, sz, fl := vf.U32("id"), vf.U32("desc"), vf.U32("dur"), vf.U32("size"), vf.U32("fl")
		w.U32(id).U32(d).U32(du).U32(sz).U32(fl)
		same(&mp4io.TrackExtend{Version: h.v, Flags: h.f, TrackId: id, DefaultSampleDescIdx: d, DefaultSampleDuration: du,
			DefaultSampleSize: sz, DefaultSampleFlags: fl}, &mp4io.TrackExtend{}, w.Box("trex"))
	}
}

//vf:bound stts, stsc, ctts, stss and stco with 0..4 (thorough 12) arbitrary entries
func VF_Tables() {
	w := &lib.MP{}
	h := full(w)
	n := vf.Choose("n", vf.Tier(5, 13))
	w.U32(uint32(n))
	u := func() uint32 {
		v := vf.U32("e")
		w.U32(v)
		return v
	}
	switch vf.Choose("box", 5) {
	case 0:
		a := &mp4io.TimeToSample{Version: h.v, Flags: h.f}
		for i := 0; i < n; i++ {
			c, d := u(), u()
			a.Entries = append(a.Entries, mp4io.TimeToSampleEntry{Count: c, Duration: d})
		}
		same(a, &mp4io.TimeToSample{}, w.Box("stts"))
	case 1:
		a := &mp4io.SampleToChunk{Version: h.v, Flags: h.f}
		for i := 0; i < n; i++ {
			f, s, d := u(), u(), u()
			a.Entries = append(a.Entries, mp4io.SampleToChunkEntry{FirstChunk: f, SamplesPerChunk: s, SampleDescId: d})
		}
		same(a, &mp4io.SampleToChunk{}, w.Box("stsc"))
	case 2:
		a := &mp4io.CompositionOffset{Version: h.v, Flags: h.f}
		for i := 0; i < n; i++ {
			c, o := u(), u()
			a.Entries = append(a.Entries, mp4io.CompositionOffsetEntry{Count: c, Offset: o})
		}
		same(a, &mp4io.CompositionOffset{}, w.Box("ctts"))
	case 3:
		a := &mp4io.SyncSample{Version: h.v, Flags: h.f}
		for i := 0; i < n; i++ {
			a.Entries = append(a.Entries, u())
		}
		same(a, &mp4io.SyncSample{}, w.Box("stss"))
	case 4:
		a := &mp4io.ChunkOffset{Version: h.v, Flags: h.f}
		for i := 0; i < n; i++ {
			a.Entries = append(a.Entries, u())
		}
		same(a, &mp4io.ChunkOffset{}, w.Box("stco"))
	}
}

//vf:bound stsz with 0..4 (thorough 12) arbitrary entries, or one size and any count
func VF_SampleSize() {
	w := &lib.MP{}
	h := full(w)
	if vf.Choose("one", 2) == 1 {
		sz, n := vf.U32("size"), vf.U32("count")
		vf.Assume(sz != 0)
		w.U32(sz).U32(n)
		same(&mp4io.SampleSize{Version: h.v, Flags: h.f, SampleSize: sz, Count: n}, &mp4io.SampleSize{}, w.Box("stsz"))
		return
	}
	n := vf.Choose("n", vf.Tier(5, 13))
	w.U32(0).U32(uint32(n))
	a := &mp4io.SampleSize{Version: h.v, Flags: h.f}
	for i := 0; i < n; i++ {
		v := vf.U32("e")
		w.U32(v)
		a.Entries = append(a.Entries, v)
	}
	same(a, &mp4io.SampleSize{}, w.Box("stsz"))
}

//vf:bound trun with every combination of its six field flags, the other 18 flag bits arbitrary, 0..2 (thorough 4) entries
//vf:time 90
func VF_TrackRun() {
	w := &lib.MP{}
	const used = 0x01 | 0x04 | 0xf00
	c := vf.Choose("flags", 64)
	f := uint32(c&1 | c&2<<1 | c>>2<<8)
	f |= lib.U24("other") &^ used
	a := &mp4io.TrackFragRun{Version: vf.U8("version"), Flags: f}
	n := vf.Choose("n", vf.Tier(3, 5))
	w.Full(a.Version, f).U32(uint32(n))
	u := func(on bool) uint32 {
		if !on {
			return 0
		}
		v := vf.U32("v")
		w.U32(v)
		return v
	}
	a.DataOffset = u(c&1 != 0)
	a.FirstSampleFlags = u(c&2 != 0)
	for i := 0; i < n; i++ {
		var e mp4io.TrackFragRunEntry
		e.Duration = u(c&4 != 0)
		e.Size = u(c&8 != 0)
		e.Flags = u(c&16 != 0)
		e.Cts = u(c&32 != 0)
		a.Entries = append(a.Entries, e)
	}
	same(a, &mp4io.TrackFragRun{}, w.Box("trun"))
}

//vf:bound tfhd with every combination of its five field flags (the layout of this package, which has no track id), the other flag bits arbitrary
func VF_TrackFragHeader() {
	w := &lib.MP{}
	const used = 0x01 | 0x02 | 0x08 | 0x10 | 0x20
	c := vf.Choose("flags", 32)
	f := uint32(c&3 | c>>2<<3)
	f |= lib.U24("other") &^ used
	a := &mp4io.TrackFragHeader{Version: vf.U8("version"), Flags: f}
	w.Full(a.Version, f)
	if c&1 != 0 {
		a.BaseDataOffset = vf.U64("base")
		w.U64(a.BaseDataOffset)
	}
	u := func(on bool) uint32 {
		if !on {
			return 0
		}
		v := vf.U32("v")
		w.U32(v)
		return v
	}
	a.StsdId = u(c&2 != 0)
	a.DefaultDuration = u(c&4 != 0)
	a.DefaultSize = u(c&8 != 0)
	a.DefaultFlags = u(c&16 != 0)
	same(a, &mp4io.TrackFragHeader{}, w.Box("tfhd"))
}

//vf:bound tfdt with every 32 bit time (version 0) and every 64 bit time up to 2^62 (other versions)
func VF_TrackFragDecodeTime() {
	w := &lib.MP{}
	f := lib.U24("flags")
	if vf.Choose("long", 2) == 0 {
		t := vf.U32("t")
		w.Full(0, f).U32(t)
		same(&mp4io.TrackFragDecodeTime{Flags: f, Time: lib.T1904(t)}, &mp4io.TrackFragDecodeTime{}, w.Box("tfdt"))
		return
	}
	v := vf.U8("version")
	vf.Assume(v != 0)
	t := vf.I64("t")
	vf.Assume(t >= 0 && t < 1<<62)
	w.Full(v, f).U64(uint64(t))
	same(&mp4io.TrackFragDecodeTime{Version: v, Flags: f, Time: lib.T1904L(t)}, &mp4io.TrackFragDecodeTime{}, w.Box("tfdt"))
}

// esds

func esds(cfg []byte, id uint16) []byte {
	desc := func(tag byte, body []byte) []byte {
		w := &lib.MP{}
		n := len(body)
		w.U8(tag).U8(byte(n>>21)&0x7f | 0x80).U8(byte(n>>14)&0x7f | 0x80).U8(byte(n>>7)&0x7f | 0x80).U8(byte(n) & 0x7f)
		return w.Raw(body).B
	}
	dec := &lib.MP{}
	dec.U8(0x40).U8(0x15).U24(0).U32(200000).U32(0).Raw(desc(5, cfg))
	es := &lib.MP{}
	es.U16(id).U8(0).Raw(desc(4, dec.B), desc(6, []byte{2}))
	w := &lib.MP{}
	return w.U32(0).Raw(desc(3, es.B)).Box("esds")
}

//vf:bound esds with every decoder config of 0..6 bytes, or 0..300 bytes of one repeated arbitrary value, and every track id
func VF_ElemStreamDesc() {
	n := []int{0, 1, 2, 3, 4, 5, 6, 100, 127, 128, 129, 300}[vf.Choose("len", 12)]
	var cfg []byte
	if n <= 6 {
		cfg = vf.Bytes("cfg", n)
	} else {
		v := vf.U8("v")
		for i := 0; i < n; i++ {
			cfg = append(cfg, v)
		}
	}
	id := vf.U16("id")
	ref := esds(cfg, id)
	same(&mp4io.ElemStreamDesc{DecConfig: cfg, TrackId: id}, &mp4io.ElemStreamDesc{}, ref)
	e := &mp4io.ElemStreamDesc{}
	e.Unmarshal(ref, 0)
	vf.Assert(vf.BytesEq(e.DecConfig, cfg), "decoder config")
	vf.Assert(e.TrackId == id, "track id")
}

// containers

// pick makes a choice of presence; small trees are covered exhaustively.
func pick(name string) bool { return vf.Choose(name, 2) == 1 }

// unknown makes 0..2 unknown boxes of 0..3 bytes.
func unknown() (as []mp4io.Atom, b []byte) {
	for n := vf.Choose("unknowns", 3); n > 0; n-- {
		d := lib.Box("zzz"+string(rune('0'+n)), vf.Bytes("unk", vf.Choose("unklen", 3)+n-1))
		as = append(as, &mp4io.Dummy{Data: d, Tag_: mp4io.StringToTag("zzz" + string(rune('0'+n)))})
		b = append(b, d...)
	}
	return
}

func url() (*mp4io.DataReferUrl, []byte) {
	w := &lib.MP{}
	h := full(w)
	return &mp4io.DataReferUrl{Version: h.v, Flags: h.f}, w.Box("url ")
}

//vf:bound dinf with and without dref, with 0..2 unknown boxes of 0..3 bytes
func VF_DataInfo() {
	a := &mp4io.DataInfo{}
	w := &lib.MP{}
	if pick("refer") {
		u, ub := url()
		a.Refer = &mp4io.DataRefer{Url: u}
		w.Raw(lib.Box("dref", []byte{0, 0, 0, 0, 0, 0, 0, 1}, ub))
	}
	us, ub := unknown()
	a.Unknowns = us
	same(a, &mp4io.DataInfo{}, w.Raw(ub).Box("dinf"))
}

func simpleTable(k int) (mp4io.Atom, []byte) {
	w := &lib.MP{}
	h := full(w)
	v := vf.U32("v")
	w.U32(1).U32(v)
	switch k {
	case 0:
		d := vf.U32("d")
		return &mp4io.TimeToSample{Version: h.v, Flags: h.f, Entries: []mp4io.TimeToSampleEntry{{Count: v, Duration: d}}}, w.U32(d).Box("stts")
	case 1:
		d := vf.U32("d")
		return &mp4io.CompositionOffset{Version: h.v, Flags: h.f, Entries: []mp4io.CompositionOffsetEntry{{Count: v, Offset: d}}}, w.U32(d).Box("ctts")
	case 2:
		s, d := vf.U32("s"), vf.U32("d")
		return &mp4io.SampleToChunk{Version: h.v, Flags: h.f, Entries: []mp4io.SampleToChunkEntry{{FirstChunk: v, SamplesPerChunk: s, SampleDescId: d}}}, w.U32(s).U32(d).Box("stsc")
	case 3:
		return &mp4io.SyncSample{Version: h.v, Flags: h.f, Entries: []uint32{v}}, w.Box("stss")
	}
	return &mp4io.ChunkOffset{Version: h.v, Flags: h.f, Entries: []uint32{v}}, w.Box("stco")
}

//vf:bound stbl with every subset of its seven tables, one arbitrary entry each, and an empty sample description
func VF_SampleTable() {
	a := &mp4io.SampleTable{}
	w := &lib.MP{}
	if pick("stsd") {
		a.SampleDesc = &mp4io.SampleDesc{Version: vf.U8("v")}
		w.Raw((&lib.MP{}).U8(a.SampleDesc.Version).Zero(7).Box("stsd"))
	}
	for k := 0; k < 5; k++ {
		if !pick("has") {
			continue
		}
		t, b := simpleTable(k)
		w.Raw(b)
		switch t := t.(type) {
		case *mp4io.TimeToSample:
			a.TimeToSample = t
		case *mp4io.CompositionOffset:
			a.CompositionOffset = t
		case *mp4io.SampleToChunk:
			a.SampleToChunk = t
		case *mp4io.SyncSample:
			a.SyncSample = t
		case *mp4io.ChunkOffset:
			a.ChunkOffset = t
		}
	}
	if pick("stsz") {
		v := vf.U32("v")
		a.SampleSize = &mp4io.SampleSize{Entries: []uint32{v}}
		w.Raw((&lib.MP{}).Zero(8).U32(1).U32(v).Box("stsz"))
	}
	same(a, &mp4io.SampleTable{}, w.Box("stbl"))
}

func avcc() (*mp4io.AVC1Conf, []byte) {
	d := vf.Bytes("avcc", vf.Choose("avcclen", 4))
	return &mp4io.AVC1Conf{Data: d}, lib.Box("avcC", d)
}

func avc1(unk bool) (*mp4io.AVC1Desc, []byte) {
	w := &lib.MP{}
	a := &mp4io.AVC1Desc{
		DataRefIdx: i16("ref"), Version: i16("ver"), Revision: i16("rev"), Vendor: vf.I32("vendor"),
		TemporalQuality: vf.I32("tq"), SpatialQuality: vf.I32("sq"), Width: i16("w"), Height: i16("h"),
		FrameCount: i16("fc"), Depth: i16("depth"), ColorTableId: i16("ct"),
	}
	x, y := vf.U32("x"), vf.U32("y")
	a.HorizontalResolution, a.VorizontalResolution = lib.F32(x), lib.F32(y)
	name := vf.Bytes("name", 32)
	copy(a.CompressorName[:], name)
	w.Zero(6).U16(uint16(a.DataRefIdx)).U16(uint16(a.Version)).U16(uint16(a.Revision)).U32(uint32(a.Vendor))
	w.U32(uint32(a.TemporalQuality)).U32(uint32(a.SpatialQuality)).U16(uint16(a.Width)).U16(uint16(a.Height))
	w.U32(x).U32(y).Zero(4).U16(uint16(a.FrameCount)).Raw(name).U16(uint16(a.Depth)).U16(uint16(a.ColorTableId))
	if pick("conf") {
		c, b := avcc()
		a.Conf = c
		w.Raw(b)
	}
	if unk {
		us, ub := unknown()
		a.Unknowns = us
		w.Raw(ub)
	}
	return a, w.Box("avc1")
}

func mp4a(unk bool) (*mp4io.MP4ADesc, []byte) {
	w := &lib.MP{}
	a := &mp4io.MP4ADesc{
		DataRefIdx: i16("ref"), Version: i16("ver"), RevisionLevel: i16("rev"), Vendor: vf.I32("vendor"),
		NumberOfChannels: i16("ch"), SampleSize: i16("ss"), CompressionId: i16("cid"),
	}
	r := vf.U32("rate")
	a.SampleRate = lib.F32(r)
	w.Zero(6).U16(uint16(a.DataRefIdx)).U16(uint16(a.Version)).U16(uint16(a.RevisionLevel)).U32(uint32(a.Vendor))
	w.U16(uint16(a.NumberOfChannels)).U16(uint16(a.SampleSize)).U16(uint16(a.CompressionId)).Zero(2).U32(r)
	if pick("conf") {
		cfg, id := vf.Bytes("cfg", vf.Choose("cfglen", 3)), vf.U16("id")
		a.Conf = &mp4io.ElemStreamDesc{DecConfig: cfg, TrackId: id}
		w.Raw(esds(cfg, id))
	}
	if unk {
		us, ub := unknown()
		a.Unknowns = us
		w.Raw(ub)
	}
	return a, w.Box("mp4a")
}

//vf:bound avc1 with every field value, with and without avcC of 0..3 bytes, with 0..2 unknown boxes
func VF_AVC1() {
	a, b := avc1(true)
	same(a, &mp4io.AVC1Desc{}, b)
}

//vf:bound mp4a with every field value, with and without esds, with 0..2 unknown boxes
func VF_MP4A() {
	a, b := mp4a(true)
	same(a, &mp4io.MP4ADesc{}, b)
}

//vf:bound stsd with every subset of avc1 and mp4a, each with its config, and unknown boxes
//vf:time 60
func VF_SampleDesc() {
	a := &mp4io.SampleDesc{Version: vf.U8("v")}
	w := &lib.MP{}
	n := uint32(0)
	var x, y []byte
	if pick("avc1") {
		a.AVC1Desc, x = avc1(false)
		n++
	}
	if pick("mp4a") {
		a.MP4ADesc, y = mp4a(false)
		n++
	}
	us, ub := unknown()
	a.Unknowns = us
	w.U8(a.Version).Zero(3).U32(n+uint32(len(us))).Raw(x, y, ub)
	same(a, &mp4io.SampleDesc{}, w.Box("stsd"))
}

func hdlr() (*mp4io.HandlerRefer, []byte) {
	return &mp4io.HandlerRefer{SubType: [4]byte{'v', 'i', 'd', 'e'}, Name: []byte("n")}, lib.Box("hdlr", []byte("\x00\x00\x00\x00\x00\x00\x00\x00viden"))
}

func mdhd() (*mp4io.MediaHeader, []byte) {
	s, d := vf.I32("scale"), vf.I32("dur")
	return &mp4io.MediaHeader{TimeScale: s, Duration: d}, (&lib.MP{}).Zero(12).U32(uint32(s)).U32(uint32(d)).Zero(4).Box("mdhd")
}

func minf() (*mp4io.MediaInfo, []byte) {
	a := &mp4io.MediaInfo{}
	w := &lib.MP{}
	if pick("smhd") {
		bal := i16("bal")
		a.Sound = &mp4io.SoundMediaInfo{Balance: bal}
		w.Raw((&lib.MP{}).Zero(4).U16(uint16(bal)).Zero(2).Box("smhd"))
	}
	if pick("vmhd") {
		m := i16("mode")
		a.Video = &mp4io.VideoMediaInfo{GraphicsMode: m}
		w.Raw((&lib.MP{}).Zero(4).U16(uint16(m)).Zero(6).Box("vmhd"))
	}
	if pick("dinf") {
		a.Data = &mp4io.DataInfo{}
		w.Raw(lib.Box("dinf"))
	}
	if pick("stbl") {
		t, b := simpleTable(0)
		a.Sample = &mp4io.SampleTable{TimeToSample: t.(*mp4io.TimeToSample)}
		w.Raw(lib.Box("stbl", b))
	}
	us, ub := unknown()
	a.Unknowns = us
	return a, w.Raw(ub).Box("minf")
}

//vf:bound minf with every subset of its four children and 0..2 unknown boxes
func VF_MediaInfo() {
	a, b := minf()
	same(a, &mp4io.MediaInfo{}, b)
}

//vf:bound mdia with every subset of its children and 0..2 unknown boxes, trak with every subset of its children and 0..2 unknown boxes
//vf:time 60
func VF_Track() {
	if pick("mdia") {
		a := &mp4io.Media{}
		w := &lib.MP{}
		if pick("mdhd") {
			h, b := mdhd()
			a.Header = h
			w.Raw(b)
		}
		if pick("hdlr") {
			h, b := hdlr()
			a.Handler = h
			w.Raw(b)
		}
		if pick("minf") {
			t, b := simpleTable(4)
			a.Info = &mp4io.MediaInfo{Sample: &mp4io.SampleTable{ChunkOffset: t.(*mp4io.ChunkOffset)}}
			w.Raw(lib.Box("minf", lib.Box("stbl", b)))
		}
		us, ub := unknown()
		a.Unknowns = us
		same(a, &mp4io.Media{}, w.Raw(ub).Box("mdia"))
		return
	}
	a, b := trak(true)
	same(a, &mp4io.Track{}, b)
}

func trak(unk bool) (*mp4io.Track, []byte) {
	a := &mp4io.Track{}
	w := &lib.MP{}
	if pick("tkhd") {
		id := vf.I32("id")
		a.Header = &mp4io.TrackHeader{TrackId: id}
		w.Raw((&lib.MP{}).Zero(12).U32(uint32(id)).Zero(68).Box("tkhd"))
	}
	if pick("mdia") {
		h, b := mdhd()
		a.Media = &mp4io.Media{Header: h}
		w.Raw(lib.Box("mdia", b))
	}
	if unk {
		us, ub := unknown()
		a.Unknowns = us
		w.Raw(ub)
	}
	return a, w.Box("trak")
}

func trex() (*mp4io.TrackExtend, []byte) {
	id := vf.U32("id")
	return &mp4io.TrackExtend{TrackId: id}, (&lib.MP{}).Zero(4).U32(id).Zero(16).Box("trex")
}

//vf:bound moov with and without mvhd, mvex (0..2 trex, 0..2 unknown boxes), 0..2 (thorough 3) tracks and unknown boxes
//vf:time 60
func VF_Movie() {
	a := &mp4io.Movie{}
	w := &lib.MP{}
	if pick("mvhd") {
		id := vf.I32("id")
		a.Header = &mp4io.MovieHeader{NextTrackId: id}
		w.Raw((&lib.MP{}).Zero(96).U32(uint32(id)).Box("mvhd"))
	}
	if pick("mvex") {
		a.MovieExtend = &mp4io.MovieExtend{}
		x := &lib.MP{}
		for n := vf.Choose("trexs", 3); n > 0; n-- {
			t, b := trex()
			a.MovieExtend.Tracks = append(a.MovieExtend.Tracks, t)
			x.Raw(b)
		}
		us, ub := unknown()
		a.MovieExtend.Unknowns = us
		w.Raw(x.Raw(ub).Box("mvex"))
	}
	for n := vf.Choose("traks", vf.Tier(3, 4)); n > 0; n-- {
		if n == 1 {
			t, b := trak(false)
			a.Tracks = append(a.Tracks, t)
			w.Raw(b)
		} else {
			id := vf.I32("id")
			a.Tracks = append(a.Tracks, &mp4io.Track{Header: &mp4io.TrackHeader{TrackId: id}})
			w.Raw(lib.Box("trak", (&lib.MP{}).Zero(12).U32(uint32(id)).Zero(68).Box("tkhd")))
		}
	}
	us, ub := unknown()
	a.Unknowns = us
	same(a, &mp4io.Movie{}, w.Raw(ub).Box("moov"))
}

//vf:bound moof with and without mfhd, 0..2 tracks with every subset of tfhd, tfdt and trun, and unknown boxes
//vf:time 60
func VF_MovieFrag() {
	a := &mp4io.MovieFrag{}
	w := &lib.MP{}
	if pick("mfhd") {
		s := vf.U32("seq")
		a.Header = &mp4io.MovieFragHeader{Seqnum: s}
		w.Raw((&lib.MP{}).Zero(4).U32(s).Box("mfhd"))
	}
	for n := vf.Choose("trafs", 3); n > 0; n-- {
		t := &mp4io.TrackFrag{}
		x := &lib.MP{}
		if pick("tfhd") {
			d := vf.U32("size")
			t.Header = &mp4io.TrackFragHeader{Flags: 0x10, DefaultSize: d}
			x.Raw((&lib.MP{}).Full(0, 0x10).U32(d).Box("tfhd"))
		}
		if pick("tfdt") {
			d := vf.U32("tm")
			t.DecodeTime = &mp4io.TrackFragDecodeTime{Time: lib.T1904(d)}
			x.Raw((&lib.MP{}).Zero(4).U32(d).Box("tfdt"))
		}
		if pick("trun") {
			d := vf.U32("dur")
			t.Run = &mp4io.TrackFragRun{Flags: 0x100, Entries: []mp4io.TrackFragRunEntry{{Duration: d}}}
			x.Raw((&lib.MP{}).Full(0, 0x100).U32(1).U32(d).Box("trun"))
		}
		if n == 1 {
			us, ub := unknown()
			t.Unknowns = us
			x.Raw(ub)
		}
		a.Tracks = append(a.Tracks, t)
		w.Raw(x.Box("traf"))
	}
	us, ub := unknown()
	a.Unknowns = us
	same(a, &mp4io.MovieFrag{}, w.Raw(ub).Box("moof"))
}

// children in any order

//vf:bound trak, mdia and minf with their children in every order, one unknown box of 1 byte among them
func VF_Order() {
	_, hd := mdhd()
	_, hl := hdlr()
	u := lib.Box("zzzz", vf.Bytes("u", 1))
	in := lib.Box("minf", lib.Box("stbl"))
	parts := [][]byte{hd, hl, in, u}
	w := &lib.MP{}
	for len(parts) > 0 {
		i := vf.Choose("next", len(parts))
		w.Raw(parts[i])
		parts = append(parts[:i:i], parts[i+1:]...)
	}
	b := w.Box("mdia")
	m := &mp4io.Media{}
	n, err := m.Unmarshal(b, 0)
	vf.Assert(err == nil && n == len(b), "children parse in any order")
	out := make([]byte, m.Len())
	m.Marshal(out)
	vf.Assert(vf.BytesEq(out, lib.Box("mdia", hd, hl, in, u)), "all children are kept")
}
