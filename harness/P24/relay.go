// The relay: every subscriber of a stream gets what its publisher sends.
//
//vf:dir cmd/avtool
package main

import (
	"errors"
	"io"
	"sync"
	"time"

	"github.com/nareix/joy5/av"
	vf "github.com/nareix/joy5/zzvf"
)

// What a publisher sends.
const (
	kKey = iota
	kInter
	kAudio
	kVConfig
	kAConfig
	kMeta
	kKinds
)

type vfScript struct {
	kinds []int
	pkts  []av.Packet
	// media[i] is the i-th audio or video packet with what applies to it.
	media []vfMedia
}

type vfMedia struct {
	kind          int
	data          byte
	vc, ac, meta  byte
	hasV, hasA, m bool
}

// vfPublish makes up n packets of the given kinds. The time of a media packet
// is its number.
func vfPublish(from int, kinds []int) *vfScript {
	s := &vfScript{kinds: kinds}
	var cur vfMedia
	for _, k := range kinds {
		d := vf.U8("data")
		p := av.Packet{Data: []byte{d}}
		switch k {
		case kKey, kInter:
			p.Type = av.H264
			p.IsKeyFrame = k == kKey
		case kAudio:
			p.Type = av.AAC
		case kVConfig:
			p.Type = av.H264DecoderConfig
			cur.vc, cur.hasV = d, true
		case kAConfig:
			p.Type = av.AACDecoderConfig
			cur.ac, cur.hasA = d, true
		case kMeta:
			p.Type = av.Metadata
			cur.meta, cur.m = d, true
		}
		if k <= kAudio {
			p.Time = time.Duration(from + len(s.media))
			m := cur
			m.kind, m.data = k, d
			s.media = append(s.media, m)
		}
		s.pkts = append(s.pkts, p)
	}
	return s
}

// vfSource is a publisher's connection.
type vfSource struct {
	pkts []av.Packet
	i    int
	began chan bool // if not nil, told of the first read
	end   chan bool // if not nil, what the end waits for
}

func (s *vfSource) ReadPacket() (av.Packet, error) {
	if s.began != nil {
		s.began <- true
		s.began = nil
	}
	if s.i == len(s.pkts) {
		if s.end != nil {
			<-s.end
		}
		return av.Packet{}, io.EOF
	}
	p := s.pkts[s.i]
	s.i++
	return p, nil
}

// vfSink is a subscriber's connection, which checks what it is sent.
type vfSink struct {
	media []vfMedia // everything published, by time
	last  int       // the time of the last packet of media, or -1
	first int       // the time of the first
	n     int
	fail  int // if not 0, the write that fails

	stall chan bool // if not nil, what the first write waits for

	vc, ac, meta  byte
	hasV, hasA, m bool

	second int  // where a second publisher begins
	target int
	done   chan bool // told when target was sent
}

func vfNewSink(media []vfMedia) *vfSink {
	return &vfSink{media: media, last: -1, first: -1, target: len(media) - 1, done: make(chan bool, 1)}
}

func (s *vfSink) WritePacket(p av.Packet) error {
	s.n++
	if s.stall != nil && s.n == 1 {
		<-s.stall
	}
	if s.n == s.fail {
		return errors.New("subscriber left")
	}
	b := func() byte {
		vf.Assert(len(p.Data) == 1, "packet with its data")
		return p.Data[0]
	}
	switch p.Type {
	case av.H264DecoderConfig:
		s.vc, s.hasV = b(), true
		return nil
	case av.AACDecoderConfig:
		s.ac, s.hasA = b(), true
		return nil
	case av.Metadata:
		s.meta, s.m = b(), true
		return nil
	}
	t := int(p.Time)
	vf.Assert(t >= 0 && t < len(s.media), "a packet that was published")
	vf.Assert(t > s.last, "in the order of publishing, each once")
	m := s.media[t]
	if s.first < 0 {
		s.first = t
	}
	vf.Assert(t == s.last+1 || m.kind == kKey || t == s.second, "no gap but to a key frame or another publisher")
	s.last = t
	vf.Assert(b() == m.data, "with its data")
	vf.Assert((p.Type == av.AAC) == (m.kind == kAudio) && p.IsKeyFrame == (m.kind == kKey), "of its kind")
	if m.m {
		vf.Assert(s.m && s.meta == m.meta, "after its metadata")
	}
	if m.kind == kAudio && m.hasA {
		vf.Assert(s.hasA && s.ac == m.ac, "audio after its configuration")
	}
	if m.kind == kKey && m.hasV {
		vf.Assert(s.hasV && s.vc == m.vc, "a key frame after its configuration")
	}
	if t == s.target {
		s.done <- true
	}
	return nil
}

func vfKinds(n, kinds int) (ks []int) {
	for i := 0; i < n; i++ {
		ks = append(ks, vf.Choose("kind", kinds))
	}
	return
}

// one subscriber, from whenever it comes
//
//vf:bound a publisher of a configuration or not and 1..3 (thorough 1..4) media packets of any kind and one subscriber, every schedule with at most 2 preemptions
//vf:jitter cmd/avtool
//vf:time 60
//vf:ttime 200
func VF_One() {
	ks := append([]int{kVConfig, kAConfig, kMeta}[:3*vf.Choose("config", 2)], vfKinds(1+vf.Choose("n", vf.Tier(3, 4)), 3)...)
	pub := vfPublish(0, ks)
	s := &stream{}
	sink := vfNewSink(pub.media)
	closed := make(chan bool)
	left := make(chan bool)
	go func() {
		s.addSub(closed, sink)
		left <- true
	}()
	s.setPub(&vfSource{pkts: pub.pkts})
	<-sink.done
	close(closed)
	<-left
	vf.Cover("end")
	if sink.first > 0 {
		vf.Cover("late")
	}
}

// two subscribers, one of which fails or stalls
//
//vf:bound a publisher of 1..2 (thorough 1..3) media packets of any kind; two subscribers, one of which keeps up while the other fails at its 1st..3rd write or waits in its first write until the other has everything; every schedule with at most 1 (thorough 2) preemptions
//vf:jitter cmd/avtool
//vf:time 60
//vf:ttime 200
//vf:preempt 1
func VF_Two() {
	ks := append([]int{kVConfig, kAConfig}, vfKinds(1+vf.Choose("n", vf.Tier(2, 3)), 3)...)
	pub := vfPublish(0, ks)
	s := &stream{}
	a, b := vfNewSink(pub.media), vfNewSink(pub.media)
	if vf.Choose("stalls", 2) == 1 {
		b.stall = make(chan bool)
	} else {
		b.fail = 1 + vf.Choose("at", 3)
	}
	closed := make(chan bool)
	left := make(chan bool)
	gone := make(chan bool)
	go func() {
		s.addSub(closed, a)
		left <- true
	}()
	go func() {
		s.addSub(closed, b)
		gone <- true
	}()
	s.setPub(&vfSource{pkts: pub.pkts})
	<-a.done
	if b.stall != nil {
		b.stall <- true
		<-b.done
		vf.Cover("stalled")
	} else {
		vf.Cover("failed")
	}
	close(closed)
	<-left
	<-gone
}

// a publisher takes over from another
//
//vf:bound two publishers in turn, the first ending before or only after the second has begun, with 0..2 (thorough 0..3) and 1..2 media packets of any kind after a video configuration each, and one subscriber, every schedule with at most 1 (thorough 2) preemptions
//vf:jitter cmd/avtool
//vf:time 60
//vf:ttime 200
//vf:preempt 1
func VF_Takeover() {
	p1 := vfPublish(0, append([]int{kVConfig}, vfKinds(vf.Choose("n1", vf.Tier(3, 4)), 3)...))
	p2 := vfPublish(len(p1.media), append([]int{kVConfig}, vfKinds(1+vf.Choose("n2", 2), 3)...))
	s := &stream{}
	all := append(append([]vfMedia(nil), p1.media...), p2.media...)
	sink := vfNewSink(all)
	sink.second = len(p1.media)
	closed := make(chan bool)
	left := make(chan bool)
	go func() {
		s.addSub(closed, sink)
		left <- true
	}()
	end := make(chan bool, 1)
	over := make(chan bool)
	src := &vfSource{pkts: p1.pkts, end: end}
	concurrent := false
	if vf.Choose("overlap", 2) == 1 {
		src.began = make(chan bool, 1)
		began := src.began
		go func() {
			s.setPub(src)
			over <- true
		}()
		<-began
		concurrent = true
	} else {
		end <- true
		s.setPub(src)
	}
	s.setPub(&vfSource{pkts: p2.pkts})
	if concurrent {
		end <- true
		<-over
		if src.i < len(src.pkts) {
			vf.Cover("cut")
		}
	}
	<-sink.done
	close(closed)
	<-left
	vf.Cover("end")
}

// configurations and metadata that change
//
//vf:bound a publisher of 1..4 (thorough 1..5) packets of any kind including configurations and metadata, at least one of them media, and one subscriber, every schedule with at most 1 preemption
//vf:jitter cmd/avtool
//vf:time 60
//vf:ttime 200
//vf:preempt 1
func VF_Changes() {
	ks := vfKinds(1+vf.Choose("n", vf.Tier(4, 5)), kKinds)
	pub := vfPublish(0, ks)
	if len(pub.media) == 0 {
		return
	}
	s := &stream{}
	sink := vfNewSink(pub.media)
	closed := make(chan bool)
	left := make(chan bool)
	go func() {
		s.addSub(closed, sink)
		left <- true
	}()
	s.setPub(&vfSource{pkts: pub.pkts})
	<-sink.done
	close(closed)
	<-left
	vf.Cover("end")
}

// whoever uses a path at the same time shares one stream
//
//vf:bound 1..4 (thorough 1..5) arrivals at two paths and departures in any order
//vf:jitter cmd/avtool
//vf:time 60
func VF_Paths() {
	ss := newStreams()
	type user struct {
		path   string
		s      *stream
		remove func()
	}
	var in []user
	for i, n := 0, 2+vf.Choose("n", vf.Tier(4, 6)); i < n; i++ {
		switch k := vf.Choose("do", 2+len(in)); {
		case k < 2:
			u := user{path: []string{"/a", "/b"}[k]}
			u.s, u.remove = ss.add(u.path)
			vf.Assert(u.s != nil, "a stream")
			for _, o := range in {
				vf.Assert((o.s == u.s) == (o.path == u.path), "the stream of its path")
			}
			in = append(in, u)
		default:
			u := in[k-2]
			in = append(in[:k-2:k-2], in[k-1:]...)
			u.remove()
			vf.Cover("left")
			if len(in) == 0 {
				s, remove := ss.add(u.path)
				vf.Assert(s != u.s, "a path all have left begins anew")
				remove()
			}
		}
	}
	vf.Cover("end")
}

// a path is shared also when users come and go at the same time
//
//vf:bound two users who each come and go twice, every schedule with at most 3 preemptions
//vf:jitter cmd/avtool
//vf:time 60
//vf:preempt 3
func VF_PathsRace() {
	ss := newStreams()
	var l sync.Mutex
	var here [2]*stream
	other := make(chan bool)
	use := func(me int) {
		for i := 0; i < 2; i++ {
			s, remove := ss.add("/a")
			l.Lock()
			here[me] = s
			vf.Assert(here[1-me] == nil || here[1-me] == s, "the stream of its path")
			l.Unlock()
			l.Lock()
			here[me] = nil
			l.Unlock()
			remove()
		}
	}
	go func() {
		use(1)
		other <- true
	}()
	use(0)
	<-other
	a, remove := ss.add("/a")
	remove()
	b, _ := ss.add("/a")
	vf.Assert(a != b, "a path all have left begins anew")
	vf.Cover("end")
}
