// Package h: native-rate pacing releases packets when they are due.
package h

import (
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/av/pktop"
	vf "github.com/nareix/joy5/zzvf"
)

// Times within +-2^50 ns, some 13 days; pauses up to that.
const span = 1 << 50

func pause(name string) {
	d := vf.I64(name)
	vf.Assume(vf.And(d >= 0, d < span))
	vf.Advance(time.Duration(d))
}

func packet() av.Packet {
	t := vf.I64("time")
	vf.Assume(vf.And(t > -span, t < span))
	return av.Packet{Type: vf.Choose("type", 2), Time: time.Duration(t)}
}

// ref says when packets are due.
type ref struct {
	started bool
	mark    time.Duration // the latest time of stream so far
	at      time.Duration // and when it was released
}

// due is how long from now the packet has to wait.
func (r *ref) due(p av.Packet, now time.Duration) (wait time.Duration) {
	if r.started && p.Time <= r.mark {
		return 0
	}
	if r.started {
		if d := (p.Time - r.mark) - (now - r.at); d > 0 {
			wait = d
			vf.Cover("waits")
		} else {
			vf.Cover("is late")
		}
	}
	r.started, r.mark, r.at = true, p.Time, now+wait
	return
}

// one packet at a time
//
//vf:bound 1..4 (thorough 1..6) packets with any times within 13 days of zero, and pauses of up to 13 days before each
//vf:time 60
//vf:ttime 300
//vf:bubble
func VF_Single() {
	base := time.Now()
	l := pktop.NewNativeRateLimiter()
	r := &ref{}
	for i, n := 0, 1+vf.Choose("n", vf.Tier(4, 6)); i < n; i++ {
		pause("pause")
		p := packet()
		now := time.Now().Sub(base)
		wait := r.due(p, now)
		out := l.Do([]av.Packet{p})
		vf.Assert(len(out) == 1 && out[0].Time == p.Time && out[0].Type == p.Type, "the packet comes out")
		got := time.Now().Sub(base) - now
		vf.Assert(got >= wait, "not before it is due")
		vf.Assert(got <= wait, "not after it is due")
	}
	vf.Cover("end")
}

// several at once
//
//vf:bound 2 (thorough 3) batches of 0..2 packets with any times within 13 days of zero, and pauses of up to 13 days before each
//vf:time 60
//vf:ttime 300
//vf:bubble
func VF_Batch() {
	base := time.Now()
	l := pktop.NewNativeRateLimiter()
	r := &ref{}
	for i := 0; i < vf.Tier(2, 3); i++ {
		pause("pause")
		in := make([]av.Packet, vf.Choose("n", 3))
		now := time.Now().Sub(base)
		var wait time.Duration
		for i := range in {
			in[i] = packet()
			wait += r.due(in[i], now+wait)
		}
		out := l.Do(append([]av.Packet(nil), in...))
		vf.Assert(len(out) == len(in), "all packets come out")
		for i := range in {
			vf.Assert(out[i].Time == in[i].Time && out[i].Type == in[i].Type, "in their order")
		}
		got := time.Now().Sub(base) - now
		vf.Assert(got >= wait, "not before they are due")
		vf.Assert(got <= wait, "not after they are due")
	}
	vf.Cover("end")
}
