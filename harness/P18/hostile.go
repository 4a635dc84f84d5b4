// Package h: hostile MP4 input. Every parser returns, does not crash, and
// allocates in proportion to what it was given.
package h

import (
	"bytes"
	"errors"
	"io"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/mp4"
	"github.com/nareix/joy5/format/mp4/mp4io"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

func limit(n int) { vf.AllocLimit(1<<16 + 64*n) }

// walk visits what a user of the parsed box visits.
func walk(a mp4io.Atom, depth int) {
	vf.Assert(depth < 40, "tree is finite")
	a.Pos()
	a.Tag()
	for _, c := range a.Children() {
		walk(c, depth+1)
	}
}

func parse(a mp4io.Atom, b []byte) {
	full := append(append([]byte(nil), b...), 0xee)
	limit(len(b))
	_, err := a.Unmarshal(full[:len(b):len(b)], 0)
	if err == nil {
		walk(a, 0)
		if t, ok := a.(*mp4io.Track); ok {
			t.GetAVC1Conf()
			t.GetElemStreamDesc()
		}
	}
	vf.Assert(vf.BytesEq(full[:len(b)], b), "input is left alone")
	vf.Cover("done")
}

func box(k int) mp4io.Atom {
	return []func() mp4io.Atom{
		func() mp4io.Atom { return &mp4io.MovieHeader{} },
		func() mp4io.Atom { return &mp4io.TrackHeader{} },
		func() mp4io.Atom { return &mp4io.AVC1Desc{} },
		func() mp4io.Atom { return &mp4io.MP4ADesc{} },
		func() mp4io.Atom { return &mp4io.HandlerRefer{} },
		func() mp4io.Atom { return &mp4io.MediaHeader{} },
		func() mp4io.Atom { return &mp4io.DataRefer{} },
		func() mp4io.Atom { return &mp4io.DataReferUrl{} },
		func() mp4io.Atom { return &mp4io.SoundMediaInfo{} },
		func() mp4io.Atom { return &mp4io.VideoMediaInfo{} },
		func() mp4io.Atom { return &mp4io.SampleDesc{} },
		func() mp4io.Atom { return &mp4io.AVC1Conf{} },
		func() mp4io.Atom { return &mp4io.TimeToSample{} },
		func() mp4io.Atom { return &mp4io.SampleToChunk{} },
		func() mp4io.Atom { return &mp4io.CompositionOffset{} },
		func() mp4io.Atom { return &mp4io.SyncSample{} },
		func() mp4io.Atom { return &mp4io.ChunkOffset{} },
		func() mp4io.Atom { return &mp4io.SampleSize{} },
		func() mp4io.Atom { return &mp4io.MovieFragHeader{} },
		func() mp4io.Atom { return &mp4io.TrackExtend{} },
		func() mp4io.Atom { return &mp4io.TrackFragHeader{} },
		func() mp4io.Atom { return &mp4io.TrackFragDecodeTime{} },
		func() mp4io.Atom { return &mp4io.ElemStreamDesc{} },
		func() mp4io.Atom { return &mp4io.Dummy{} },
		func() mp4io.Atom { return &mp4io.Movie{} },
		func() mp4io.Atom { return &mp4io.Track{} },
		func() mp4io.Atom { return &mp4io.Media{} },
		func() mp4io.Atom { return &mp4io.MediaInfo{} },
		func() mp4io.Atom { return &mp4io.DataInfo{} },
		func() mp4io.Atom { return &mp4io.SampleTable{} },
		func() mp4io.Atom { return &mp4io.MovieFrag{} },
		func() mp4io.Atom { return &mp4io.TrackFrag{} },
		func() mp4io.Atom { return &mp4io.MovieExtend{} },
	}[k]()
}

const (
	leaves = 24
	all    = 33
)

//vf:bound every byte string of 0..20 bytes (thorough 0..32) as each of the 24 boxes without children or with late ones
//vf:hang
//vf:time 60
func VF_Leaf() {
	a := box(vf.Choose("box", leaves))
	parse(a, vf.Bytes("b", vf.Choose("len", vf.Tier(21, 33))))
}

//vf:bound mvhd, tkhd, avc1 and mp4a of every length up to 124 bytes, arbitrary contents
//vf:hang
//vf:time 60
func VF_Long() {
	k := vf.Choose("box", 4)
	max := []int{110, 94, 100, 50}[k]
	n := 21 + vf.Choose("len", max-21)
	parse(box(k), vf.Bytes("b", n))
}

//vf:bound every byte string of 0..20 bytes (thorough 0..24) as each of the nine container boxes
//vf:hang
//vf:time 60
//vf:ttime 800
func VF_Container() {
	a := box(leaves + vf.Choose("box", all-leaves))
	parse(a, vf.Bytes("b", vf.Choose("len", vf.Tier(21, 25))))
}

// nested boxes of the right types with arbitrary sizes
//
//vf:bound paths of nested boxes from moov, trak, mdia, minf, stbl, moof and mvex down to each leaf; at every level the size is right, or arbitrary at one level; the leaf has 0..12 arbitrary bytes
//vf:hang
//vf:time 90
//vf:ttime 800
func VF_Nested() {
	paths := [][]string{
		{"moov", "trak", "mdia", "minf", "stbl", "stsd"},
		{"moov", "trak", "mdia", "minf", "stbl", "stts"},
		{"moov", "trak", "mdia", "minf", "stbl", "stsc"},
		{"moov", "trak", "mdia", "minf", "stbl", "ctts"},
		{"moov", "trak", "mdia", "minf", "stbl", "stss"},
		{"moov", "trak", "mdia", "minf", "stbl", "stco"},
		{"moov", "trak", "mdia", "minf", "stbl", "stsz"},
		{"moov", "trak", "mdia", "minf", "dinf", "dref"},
		{"moov", "trak", "mdia", "minf", "smhd"},
		{"moov", "trak", "mdia", "hdlr"},
		{"moov", "trak", "mdia", "mdhd"},
		{"moov", "mvex", "trex"},
		{"moof", "mfhd"},
		{"moof", "traf", "tfhd"},
		{"moof", "traf", "tfdt"},
		{"moof", "traf", "trun"},
	}
	p := paths[vf.Choose("path", len(paths))]
	b := vf.Bytes("leaf", vf.Choose("len", vf.Tier(9, 13)))
	odd := vf.Choose("odd", len(p))
	if p[len(p)-1] == "trun" && len(b) >= 8 {
		vf.Assume(b[4] != 0 || b[2]&0xf != 0) // see VF_Run
	}
	for i := len(p) - 1; i >= 0; i-- {
		b = lib.Box(p[i], b)
		if i == odd {
			copy(b, vf.Bytes("size", 4))
		}
	}
	switch p[0] {
	case "moov":
		parse(&mp4io.Movie{}, b)
	default:
		parse(&mp4io.MovieFrag{}, b)
	}
}

// descriptors
//
//vf:bound esds of up to 14 (thorough 18) arbitrary bytes behind any of six descriptor prefixes
//vf:hang
//vf:time 60
//vf:ttime 600
func VF_Esds() {
	pre := [][]byte{
		{},
		{3},
		{3, 0x19, 0, 1, 0},
		{3, 0x80, 0x80, 0x80, 0x30, 0, 1, 0, 4},
		{3, 0x20, 0, 1, 0xe0},
		{3, 0x30, 0, 1, 0, 4, 0x12, 0x40, 0x15, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
	}[vf.Choose("prefix", 6)]
	b := append([]byte{0, 0, 0, 0}, pre...)
	b = append(b, vf.Bytes("b", vf.Choose("len", vf.Tier(7, 10)))...)
	parse(&mp4io.ElemStreamDesc{}, lib.Box("esds", b))
}

// runCount keeps the number of entries that take no bytes to a few values:
// the parser makes them one by one.
func runCount(b []byte) {
	const fields = 0xf
	if b[2]&fields == 0 {
		n := uint32(b[4])<<24 | uint32(b[5])<<16 | uint32(b[6])<<8 | uint32(b[7])
		switch vf.Choose("count", 3) {
		case 0:
			vf.Assume(n <= 3)
		case 1:
			v := 1<<16 - 1 + vf.Choose("around", 3)
			copy(b, []byte{b[0], 0, 0, 0, 0, byte(v >> 16), byte(v >> 8), byte(v)})
		case 2:
			vf.Assume(n >= 1<<31)
		}
	}
}

// runs without bytes per entry have a fixed allowance
//
//vf:bound trun of 8..24 bytes with arbitrary version, flags and fields; a count of entries without bytes of 0..3, of 65535..65537 (without flags) or above 2^31
//vf:hang
//vf:time 60
func VF_Run() {
	n := 8 + vf.Choose("len", 17)
	b := vf.Bytes("b", n)
	if n >= 16 {
		runCount(b[8:])
	}
	a := &mp4io.TrackFragRun{}
	vf.AllocLimit(3<<20 + 64*n)
	if _, err := a.Unmarshal(b, 0); err == nil {
		walk(a, 0)
	}
	vf.Cover("done")
}

// the file scanner
//
//vf:bound every file of 0..20 bytes (thorough 0..28), scanned and demuxed
//vf:hang
//vf:time 90
//vf:ttime 800
func VF_File() {
	b := vf.Bytes("b", vf.Choose("len", vf.Tier(21, 29)))
	limit(len(b))
	if vf.Choose("demux", 2) == 0 {
		as, err := mp4io.ReadFileAtoms(bytes.NewReader(b))
		if err == nil {
			for _, a := range as {
				walk(a, 0)
			}
		}
	} else {
		d := mp4.NewDemuxer(bytes.NewReader(b))
		d.Streams()
		d.ReadPacket()
		d.SeekToTime(0)
	}
	vf.Cover("done")
}

// a file with a box of odd size between good ones
//
//vf:bound free box, then a box with arbitrary 32 bit size (and 64 bit size) and one of five types, then 0..12 bytes
//vf:hang
//vf:time 60
func VF_FileSizes() {
	w := &lib.MP{}
	w.Raw(lib.Box("free", []byte{1, 2}))
	w.Raw(vf.Bytes("size", 4))
	w.Raw([]byte([]string{"moov", "moof", "mdat", "ftyp", "\x00\x00\x00\x00"}[vf.Choose("tag", 5)]))
	w.Raw(vf.Bytes("rest", vf.Choose("len", 13)))
	b := w.B
	limit(len(b))
	mp4io.ReadFileAtoms(bytes.NewReader(b))
	vf.Cover("done")
}

func full(parts ...[]byte) []byte {
	w := &lib.MP{}
	return w.Zero(4).Raw(parts...).B
}

// table is a table of n arbitrary 32 bit fields per entry.
func table(name string, tag string, max, per int) []byte {
	n := vf.Choose(name, max+1)
	w := &lib.MP{}
	w.U32(uint32(n))
	return lib.Box(tag, full(w.B, vf.Bytes(tag, 4*per*n)))
}

// file is a file of which only the boxes matter: what is read after them
// has no content, so that its position stays symbolic.
type file struct {
	*bytes.Reader
	size, pos int64
	boxes     bool
}

func (f *file) Seek(off int64, whence int) (int64, error) {
	if f.boxes {
		return f.Reader.Seek(off, whence)
	}
	switch whence {
	case 0:
		f.pos = off
	case 2:
		f.pos = f.size + off
	default:
		f.pos += off
	}
	return f.pos, nil
}

func (f *file) Read(p []byte) (int, error) {
	if f.boxes {
		return f.Reader.Read(p)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= f.size {
		return 0, io.EOF
	}
	if f.pos < 0 || f.pos > f.size-int64(len(p)) {
		return 0, errors.New("short read")
	}
	f.pos += int64(len(p))
	return len(p), nil
}

// open parses the boxes.
func open(b []byte) (*mp4.Demuxer, error) {
	f := &file{Reader: bytes.NewReader(b), size: int64(len(b)), boxes: true}
	d := mp4.NewDemuxer(f)
	_, err := d.Streams()
	f.boxes = false
	return d, err
}

// edge keeps the 32 bit words from b[at:] on to values near 0 and from 300
// on: the file is a little longer, and the code under test handles each
// position in it separately.
func edge(b []byte, at int) []byte {
	for i := at; i+4 <= len(b); i += 4 {
		v := uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
		vf.Assume(vf.Or(v <= 2, v >= 300))
	}
	return b
}

// tables builds a file with one track from arbitrary sample tables.
func tables(scale uint32, stts []byte) []byte {
	parts := [][]byte{lib.Box("stsd", full([]byte{0, 0, 0, 1}, lib.Box("mp4a", make([]byte, 28), esds())))}
	two := vf.Tier(1, 2)
	absent := vf.Choose("absent", 6)
	add := func(i int, b []byte) {
		if i != absent {
			parts = append(parts, b)
		}
	}
	if absent == 5 { // nothing is missing
		add(0, stts)
		add(1, table("nstsc", "stsc", two, 3))
		add(2, table("nstco", "stco", two, 1))
		w := &lib.MP{}
		switch k := vf.Choose("stsz", 6); k {
		case 0:
			add(3, lib.Box("stsz", full(edge(vf.Bytes("one", 8), 0))))
		case 1:
			n := vf.Choose("nstsz", two+1)
			w.U32(0).U32(uint32(n)).Raw(edge(vf.Bytes("sz", 4*n), 0))
			add(3, lib.Box("stsz", full(w.B)))
		default:
			w.U32(1).U32(3)
			add(3, lib.Box("stsz", full(w.B)))
			w = &lib.MP{}
			w.U32(uint32(k % 2))
			if k < 4 {
				parts = append(parts, lib.Box("ctts", full(w.B, vf.Bytes("ctts", 8*(k%2)))))
			} else {
				parts = append(parts, lib.Box("stss", full(w.B, vf.Bytes("stss", 4*(k%2)))))
			}
		}
	} else {
		add(0, lib.Box("stts", full((&lib.MP{}).U32(1).U32(2).U32(10).B)))
		add(1, lib.Box("stsc", full((&lib.MP{}).U32(1).U32(1).U32(1).U32(1).B)))
		add(2, lib.Box("stco", full((&lib.MP{}).U32(1).U32(8).B)))
		add(3, lib.Box("stsz", full((&lib.MP{}).U32(0).U32(1).U32(4).B)))
	}
	var head []byte
	if absent != 4 {
		head = lib.Box("mdhd", full(make([]byte, 8), (&lib.MP{}).U32(scale).B, make([]byte, 8)))
	}
	return lib.Box("moov", lib.Box("trak", lib.Box("mdia", head, lib.Box("minf", lib.Box("stbl", parts...)))))
}

// reading a file whose sample tables are arbitrary
//
//vf:bound one track; one of stts, stsc, stco, stsz and mdhd absent, or all present with 0..1 entries (thorough 0..2) of arbitrary content, sample sizes other than 3..299, stsz with arbitrary sizes or one size, or with three samples of one byte and a ctts or stss with 0..1 arbitrary entries; arbitrary time scale; two (thorough three) packets read
//vf:hang
//vf:time 60
//vf:ttime 850
func VF_TablesRead() {
	b := tables(vf.U32("scale"), table("nstts", "stts", vf.Tier(1, 2), 2))
	limit(len(b))
	d, err := open(b)
	for i := 0; err == nil && i < vf.Tier(2, 3); i++ {
		var p av.Packet
		if p, err = d.ReadPacket(); err != nil {
			break
		}
		vf.Assert(len(p.Data) <= len(b), "a sample is no larger than the file")
	}
	d.CurrentTime()
	vf.Cover("done")
}

//vf:bound the files of VF_TablesRead with sample durations 0 and 3003 (thorough also 1 and 2^32-1) and time scales 1, 90000, 2^31-1 or any that is not positive; a seek to one of -1, the least and the greatest time, 40 h and 33 ms, with scale 90000 also to any time up to 4 s, then a packet read
//vf:hang
//vf:time 60
//vf:ttime 850
func VF_TablesSeek() {
	scale := vf.U32("scale")
	k := vf.Choose("scalekind", 4)
	if k == 0 {
		vf.Assume(int32(scale) <= 0)
	} else {
		scale = []uint32{0, 1, 90000, 1<<31 - 1}[k]
	}
	w := &lib.MP{}
	n := vf.Choose("nstts", vf.Tier(2, 3))
	w.U32(uint32(n))
	for i := 0; i < n; i++ {
		w.U32(vf.U32("count")).U32([]uint32{3003, 0, 1, 1<<32 - 1}[vf.Choose("dur", vf.Tier(2, 4))])
	}
	b := tables(scale, lib.Box("stts", full(w.B)))
	limit(len(b))
	d, err := open(b)
	tms := []int64{-1, -1 << 63, 1<<63 - 1, 40 * 3600e9, 33366666}
	if k == 2 {
		tms = append(tms, int64(vf.U32("tm")))
	}
	tm := tms[vf.Choose("tmkind", len(tms))]
	if err == nil && d.SeekToTime(time.Duration(tm)) == nil {
		d.ReadPacket()
	}
	d.CurrentTime()
	vf.Cover("done")
}

func esds() []byte {
	return lib.Box("esds", full([]byte{3, 0x19, 0, 1, 0, 4, 0x11, 0x40, 0x15, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 2, 0x12, 0x10, 6, 1, 2}))
}
