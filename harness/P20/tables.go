// Package h: the demuxer finds each sample where the sample tables put it,
// and seeks to the right one.
package h

import (
	"bytes"
	"io"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/mp4"
	vf "github.com/nareix/joy5/zzvf"
	"github.com/nareix/joy5/zzvf/lib"
)

// file holds the boxes; the media is elsewhere in it, at symbolic places.
type file struct {
	*bytes.Reader
	boxes bool
	pos   int64
	at    int64 // where the last read began
	n     int   // and how long it was
}

const fileSize = 1 << 40

func (f *file) Seek(off int64, whence int) (int64, error) {
	if f.boxes {
		return f.Reader.Seek(off, whence)
	}
	switch whence {
	case 0:
		f.pos = off
	case 2:
		f.pos = fileSize + off
	default:
		f.pos += off
	}
	return f.pos, nil
}

func (f *file) Read(p []byte) (int, error) {
	if f.boxes {
		return f.Reader.Read(p)
	}
	f.at, f.n = f.pos, len(p)
	for i := range p {
		p[i] = byte(f.pos) + byte(i)*37
	}
	f.pos += int64(len(p))
	return len(p), nil
}

// sample is what the tables say about a sample.
type sample struct {
	off  int64 // position
	size uint32
	dts  uint64 // decode time in ticks
	cts  int64  // composition offset in ticks
	key  bool
}

type track struct {
	video   bool
	scale   uint32
	samples []sample
	box     []byte
}

func full(v byte, parts ...[]byte) []byte {
	w := &lib.MP{}
	return w.U8(v).Zero(3).Raw(parts...).B
}

func esds() []byte {
	return lib.Box("esds", full(0, []byte{3, 0x19, 0, 1, 0, 4, 0x11, 0x40, 0x15, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 2, 0x12, 0x10, 6, 1, 2}))
}

// shape says which parts of the tables vary.
type shape struct {
	n                   int
	times, ctts, chunks bool
	oneSize, keys       bool
	fixed               bool   // sizes of 1, 2, 1, 2, ...
	maxSize             uint32 // of a sample
	maxDur              uint32
	scales              []uint32
}

// runs splits n samples into runs. It returns the length of each.
func runs(name string, n int, vary bool) []int {
	if n == 0 {
		return nil
	}
	if !vary {
		return []int{n}
	}
	m := vf.Choose(name, 1<<(n-1))
	out := []int{1}
	for i := 1; i < n; i++ {
		if m>>(i-1)&1 != 0 {
			out = append(out, 1)
		} else {
			out[len(out)-1]++
		}
	}
	return out
}

// mk makes a track with arbitrary tables of the shape.
func mk(name string, video bool, s shape) track {
	t := track{video: video, samples: make([]sample, s.n)}
	t.scale = s.scales[vf.Choose(name+"scale", len(s.scales))]

	// stts
	w := &lib.MP{}
	rs := runs(name+"stts", s.n, s.times)
	w.U32(uint32(len(rs)))
	i, now := 0, uint64(0)
	for _, r := range rs {
		d := vf.U32(name + "dur")
		vf.Assume(d <= s.maxDur)
		w.U32(uint32(r)).U32(d)
		for ; r > 0; r-- {
			t.samples[i].dts = now
			now += uint64(d)
			i++
		}
	}
	tables := lib.Box("stts", full(0, w.B))

	// ctts
	if s.ctts {
		v := vf.Choose(name+"cttsversion", 3)
		var rs []int // a table of nothing
		if v < 2 {
			rs = runs(name+"ctts", s.n, true)
		} else {
			v = 0
		}
		w := &lib.MP{}
		w.U32(uint32(len(rs)))
		i := 0
		for _, r := range rs {
			c := vf.U32(name + "cts")
			w.U32(uint32(r)).U32(c)
			for ; r > 0; r-- {
				if v == 0 {
					t.samples[i].cts = int64(c)
				} else {
					t.samples[i].cts = int64(int32(c))
				}
				i++
			}
		}
		tables = append(tables, lib.Box("ctts", full(byte(v), w.B))...)
	}

	// stss
	sync := !video
	if s.keys {
		if m := vf.Choose(name+"keys", 1<<s.n+1); m < 1<<s.n {
			w, n := &lib.MP{}, 0
			for i := range t.samples {
				if m>>i&1 != 0 {
					n++
					w.U32(uint32(i + 1))
					t.samples[i].key = true
				}
			}
			tables = append(tables, lib.Box("stss", full(0, (&lib.MP{}).U32(uint32(n)).B, w.B))...)
			sync = true
		}
	}
	if !sync {
		for i := range t.samples {
			t.samples[i].key = true
		}
	}

	// stsz
	w = &lib.MP{}
	one := s.oneSize && vf.Choose(name+"onesize", 2) == 1
	if one {
		z := vf.U32(name + "size")
		vf.Assume(z != 0)
		vf.Assume(z <= s.maxSize)
		w.U32(z).U32(uint32(s.n))
		for i := range t.samples {
			t.samples[i].size = z
		}
	} else {
		w.U32(0).U32(uint32(s.n))
		for i := range t.samples {
			z := uint32(i%2 + 1)
			if !s.fixed {
				z = vf.U32(name + "size")
				vf.Assume(z <= s.maxSize)
			}
			w.U32(z)
			t.samples[i].size = z
		}
	}
	tables = append(tables, lib.Box("stsz", full(0, w.B))...)

	// stsc and stco
	cs := runs(name+"chunks", s.n, s.chunks)
	w = &lib.MP{}
	o := &lib.MP{}
	o.U32(uint32(len(cs)))
	groups, per := 0, 0
	i = 0
	for c, r := range cs {
		// equal neighbours may share an entry
		if r != per || vf.Choose(name+"share", 2) == 0 {
			groups++
			w.U32(uint32(c + 1)).U32(uint32(r)).U32(1)
			per = r
		}
		at := vf.U32(name + "offset")
		o.U32(at)
		pos := int64(at)
		for ; r > 0; r-- {
			t.samples[i].off = pos
			pos += int64(t.samples[i].size)
			i++
		}
	}
	tables = append(tables, lib.Box("stsc", full(0, (&lib.MP{}).U32(uint32(groups)).B, w.B))...)
	tables = append(tables, lib.Box("stco", full(0, o.B))...)

	desc := lib.Box("mp4a", make([]byte, 28), esds())
	if video {
		desc = lib.Box("avc1", make([]byte, 78), lib.Box("avcC", []byte{1, 66, 0, 30, 0xff, 0xe0, 0}))
	}
	tables = append(lib.Box("stsd", full(0, []byte{0, 0, 0, 1}, desc)), tables...)
	head := lib.Box("mdhd", full(0, make([]byte, 8), (&lib.MP{}).U32(t.scale).B, make([]byte, 8)))
	t.box = lib.Box("trak", lib.Box("mdia", head, lib.Box("minf", lib.Box("stbl", tables))))
	return t
}

func open(ts ...track) (*mp4.Demuxer, *file) {
	var b []byte
	for _, t := range ts {
		b = append(b, t.box...)
	}
	f := &file{Reader: bytes.NewReader(lib.Box("moov", b)), boxes: true}
	d := mp4.NewDemuxer(f)
	ss, err := d.Streams()
	vf.Assert(err == nil, "a valid file is opened")
	vf.Assert(len(ss) == len(ts), "every track is a stream")
	f.boxes = false
	return d, f
}

// tick is the time of ts in nanoseconds, rounded towards zero.
func tick(ts int64, scale uint32) time.Duration {
	s := int64(scale)
	return time.Duration(ts/s)*time.Second + time.Duration(ts%s*1e9/s)
}

// is checks a packet against its sample.
func is(p av.Packet, f *file, s sample, t track, what string) {
	vf.Assert(len(p.Data) == int(s.size), what+": size")
	if len(p.Data) > 0 {
		vf.Assert(vf.And(f.at == s.off, f.n == int(s.size)), what+": offset")
		for i, c := range p.Data {
			vf.Assert(c == byte(s.off)+byte(i)*37, what+": contents")
		}
	}
	vf.Assert(p.Time == tick(int64(s.dts), t.scale), what+": decode time")
	vf.Assert(p.CTime == tick(s.cts, t.scale), what+": composition offset")
	vf.Assert(p.IsKeyFrame == s.key, what+": key frame flag")
	if t.video {
		vf.Assert(p.Type == av.H264, what+": type")
	} else {
		vf.Assert(p.Type == av.AAC, what+": type")
	}
}

// rest reads samples from index i to the end.
func rest(d *mp4.Demuxer, f *file, t track, i int) {
	for ; i < len(t.samples); i++ {
		p, err := d.ReadPacket()
		vf.Assert(err == nil, "the next sample is there")
		is(p, f, t.samples[i], t, "sample")
	}
	_, err := d.ReadPacket()
	vf.Assert(err == io.EOF, "the end is reported")
	vf.Cover("end")
}

//vf:bound video with 3 (thorough 4) samples: every run-length coding of the decode times and of the composition offsets, arbitrary durations below 2^28 and offsets, version 0 and 1, a time scale of 90000
//vf:time 60
//vf:ttime 600
func VF_Times() {
	t := mk("", true, shape{n: vf.Tier(3, 4), times: true, ctts: true, maxDur: 1 << 28, scales: []uint32{90000}})
	d, f := open(t)
	rest(d, f, t, 0)
}

//vf:bound audio or video with 4 (thorough 5) samples: every division into chunks and of chunks into table entries, arbitrary chunk offsets, sizes 0..1 each or one size 1..2 for all
//vf:time 60
//vf:ttime 600
func VF_Places() {
	t := mk("", vf.Choose("video", 2) == 1, shape{n: vf.Tier(4, 5), chunks: true, oneSize: true, maxSize: 1, scales: []uint32{1}})
	d, f := open(t)
	rest(d, f, t, 0)
}

//vf:bound video with 4 (thorough 6) samples, every set of key frames or no table of them, sizes 0..1
//vf:time 60
//vf:ttime 600
func VF_Keys() {
	t := mk("", true, shape{n: vf.Tier(4, 6), keys: true, scales: []uint32{1}})
	d, f := open(t)
	rest(d, f, t, 0)
}

// le says whether sample time ts is not after tm.
func le(ts uint64, tm int64, scale uint32) bool {
	return ts*1e9 < uint64(tm+1)*uint64(scale)
}

// landing is the sample a seek to tm lands on.
func landing(t track, tm int64) int {
	at := 0
	for i := 1; i < len(t.samples); i++ {
		if le(t.samples[i].dts, tm, t.scale) {
			at = i
		}
	}
	at = vf.Conc(at)
	if !t.video {
		return at
	}
	for i := at; i >= 0; i-- {
		if t.samples[i].key {
			return i
		}
	}
	return at
}

// anyTime is a time for a seek.
func anyTime(max uint64) int64 {
	tm := vf.U64("tm")
	vf.Assume(tm < max)
	return int64(tm)
}

//vf:bound video or audio with 3 (thorough 4) samples in every run-length coding of durations below 2^28 and every set of key frames; a seek to any time below 2^42 ns with time scale 90000 (thorough also 1, 44100), from the start or after one packet; then everything up to the end
//vf:time 120
//vf:ttime 850
func VF_Seek() {
	scales := []uint32{90000, 44100, 1}[:vf.Tier(1, 3)]
	video := vf.Choose("video", 2) == 1
	t := mk("", video, shape{n: vf.Tier(3, 4), times: true, keys: video, maxDur: 1 << 28, scales: scales})
	d, f := open(t)
	if vf.Choose("before", 2) == 1 {
		d.ReadPacket()
	}
	tm := anyTime(1 << 42)
	vf.Assert(d.SeekToTime(time.Duration(tm)) == nil, "seek")
	i := landing(t, tm)
	vf.Assert(d.CurrentTime() == tick(int64(t.samples[i].dts), t.scale), "current time")
	rest(d, f, t, i)
}

//vf:bound audio or video with 4 (thorough 5) samples: every division into chunks and table entries, arbitrary chunk offsets, arbitrary sizes of the samples before the one the seek lands on, one size for all or not; a seek to any of them, then one packet of up to 2 bytes (thorough also the rest)
//vf:time 60
//vf:ttime 600
func VF_SeekPlaces() {
	n := vf.Tier(4, 5)
	t := mk("", vf.Choose("video", 2) == 1, shape{n: n, chunks: true, oneSize: true, maxSize: 1<<32 - 1, maxDur: 1, scales: []uint32{1}})
	vf.Assume(t.samples[1].dts == 1)
	i := vf.Choose("target", n)
	vf.Assume(t.samples[i].size <= 2)
	d, f := open(t)
	vf.Assert(d.SeekToTime(time.Duration(i)*time.Second) == nil, "seek")
	p, err := d.ReadPacket()
	vf.Assert(err == nil, "the sample is there")
	is(p, f, t.samples[i], t, "sample")
	if i+1 < n {
		vf.Assume(t.samples[i+1].size <= 2)
		p, err := d.ReadPacket()
		vf.Assert(err == nil, "the next sample is there")
		is(p, f, t.samples[i+1], t, "next sample")
	}
	vf.Cover("done")
}

//vf:bound composition offsets after a seek: video with 3 (thorough 4) samples one second apart, every run-length coding of the offsets, a seek to each; then everything up to the end
//vf:time 60
//vf:ttime 600
func VF_SeekCtts() {
	n := vf.Tier(3, 4)
	t := mk("", true, shape{n: n, ctts: true, maxDur: 1, scales: []uint32{1}})
	vf.Assume(t.samples[1].dts == 1)
	d, f := open(t)
	i := vf.Choose("target", n)
	vf.Assert(d.SeekToTime(time.Duration(i)*time.Second) == nil, "seek")
	rest(d, f, t, i)
}

// the tables are walked independently of each other
//
//vf:bound video with 3 samples one tick apart, of 1, 2 and 1 bytes: every run-length coding of the times and of the composition offsets together with every division into chunks and table entries and every set of key frames; from the start or after a seek to any of them
//vf:time 100
//vf:ttime 300
func VF_Together() {
	t := mk("", true, shape{n: 3, times: true, ctts: true, chunks: true, keys: true, fixed: true, maxDur: 1, scales: []uint32{1}})
	vf.Assume(vf.And(t.samples[1].dts == 1, t.samples[2].dts == 2))
	d, f := open(t)
	i := vf.Choose("target", 4)
	if i == 3 {
		rest(d, f, t, 0)
		return
	}
	vf.Assert(d.SeekToTime(time.Duration(i)*time.Second) == nil, "seek")
	j := i
	for j > 0 && !t.samples[j].key {
		j--
	}
	if !t.samples[j].key {
		j = i // no key frame up to there
	}
	rest(d, f, t, j)
}

// a stream without samples has nothing to seek to
//
//vf:bound a track of 3 samples of one arbitrary duration below 2^28 with a track of the other kind or the same that has no samples before or after it; a seek to any time below 2^42 ns, then everything
//vf:time 60
func VF_SeekEmpty() {
	video := vf.Choose("video", 2) == 1
	t := mk("", video, shape{n: 3, keys: video, maxDur: 1 << 28, scales: []uint32{90000}})
	e := mk("", vf.Choose("empty video", 2) == 1, shape{scales: []uint32{90000}})
	var d *mp4.Demuxer
	var f *file
	if vf.Choose("order", 2) == 0 {
		d, f = open(t, e)
	} else {
		d, f = open(e, t)
	}
	tm := anyTime(1 << 42)
	vf.Assert(d.SeekToTime(time.Duration(tm)) == nil, "seek")
	rest(d, f, t, landing(t, tm))
}

//vf:bound a video track of 2 and an audio track of 3 samples (thorough 3 and 3), either one first, arbitrary durations below 2^28, scales 1000 and 8000, every set of key frames; no seek or one to any time below 2^42 ns, then everything; packets come in time order
//vf:time 120
//vf:ttime 850
func VF_SeekBoth() {
	v := mk("v", true, shape{n: vf.Tier(2, 3), times: vf.Tier(0, 1) == 1, keys: true, maxDur: 1 << 28, scales: []uint32{1000}})
	a := mk("a", false, shape{n: 3, maxDur: 1 << 28, scales: []uint32{8000}})
	var d *mp4.Demuxer
	var f *file
	if vf.Choose("order", 2) == 0 {
		d, f = open(v, a)
	} else {
		d, f = open(a, v)
	}
	i, j := 0, 0
	if vf.Choose("seek", 2) == 1 {
		tm := anyTime(1 << 42)
		vf.Assert(d.SeekToTime(time.Duration(tm)) == nil, "seek")
		i = landing(v, tm)
		j = landing(a, int64(tick(int64(v.samples[i].dts), v.scale)))
	}
	for i < len(v.samples) || j < len(a.samples) {
		p, err := d.ReadPacket()
		vf.Assert(err == nil, "the next sample is there")
		if p.Type == av.H264 {
			vf.Assert(i < len(v.samples), "video ends with its last sample")
			is(p, f, v.samples[i], v, "video")
			if j < len(a.samples) {
				vf.Assert(p.Time <= tick(int64(a.samples[j].dts), a.scale), "time order")
			}
			i++
		} else {
			vf.Assert(j < len(a.samples), "audio ends with its last sample")
			is(p, f, a.samples[j], a, "audio")
			if i < len(v.samples) {
				vf.Assert(p.Time <= tick(int64(v.samples[i].dts), v.scale), "time order")
			}
			j++
		}
	}
	_, err := d.ReadPacket()
	vf.Assert(err == io.EOF, "the end is reported")
	vf.Cover("end")
}
