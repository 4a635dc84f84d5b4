// Package zzvf is the harness API. The symbolic engine intercepts these
// functions; the bodies below are the native versions used for replaying a
// solver model against the real build.
package zzvf

import (
	"bytes"
	"crypto/hmac"
	"crypto/md5"
	"crypto/rand"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"os"
	"runtime"
	"sync/atomic"
	"time"
)

type input struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	Val  uint64 `json:"val"`
	Kind string `json:"kind"`
}

type ReplayFile struct {
	Harness  string  `json:"harness"`
	Kind     string  `json:"kind"`
	Msg      string  `json:"msg"`
	Thorough bool    `json:"thorough"`
	Inputs   []input `json:"inputs"`
	Retry    int     `json:"retry,omitempty"`
	Bubble   bool    `json:"bubble,omitempty"`
	Lax      bool    `json:"lax,omitempty"` // inputs that are not given are zero
}

type Outcome struct {
	Kind   string   `json:"kind"` // ok, assume, assert, panic, hang, alloc, desync
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

var failed = make(chan Outcome, 1)

// Jitter delays goroutines at random when the counterexample of a harness with
// //vf:jitter is replayed. It is called before every statement of the code.
func Jitter() {
	r := atomic.LoadUint32(&jitterRate)
	if r == 0 {
		return
	}
	x := atomic.AddUint64(&jitterState, 0x9e3779b97f4a7c15)
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	x ^= x >> 31
	if uint32(x)%r != 0 {
		return
	}
	if x>>60 < 6 {
		runtime.Gosched()
	} else {
		time.Sleep(time.Duration(x>>40&0xff) * time.Microsecond)
	}
}

var (
	jitterRate  uint32
	jitterState uint64
)

type stop struct{ kind, msg string }

var (
	cur      ReplayFile
	pos      int
	obs      []string
	covers   []string
	allocLim uint64
	allocAt  uint64
	clock    int64
	onSleep  func(time.Duration)
)

var laxed bool // an input was not given

func next(name string, w uint8) uint64 {
	for pos < len(cur.Inputs) {
		x := cur.Inputs[pos]
		pos++
		if x.Kind != "in" {
			continue
		}
		return x.Val
	}
	if cur.Lax {
		laxed = true
		return 0
	}
	panic(stop{"desync", "inputs exhausted at " + name})
}

func U8(name string) uint8   { return uint8(next(name, 8)) }
func U16(name string) uint16 { return uint16(next(name, 16)) }
func U32(name string) uint32 { return uint32(next(name, 32)) }
func U64(name string) uint64 { return next(name, 64) }
func I64(name string) int64  { return int64(next(name, 64)) }
func I32(name string) int32  { return int32(next(name, 32)) }
func Bool(name string) bool  { return next(name, 8)&1 == 1 }

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int { return lo + int(next(name, 64)) }

// Choose is an arbitrary integer in [0,n), one path per value.
func Choose(name string, n int) int { return int(next(name, 16)) }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name, 8))
	}
	return b
}
func String(name string, n int) string { return string(Bytes(name, n)) }

func Assume(c bool) {
	if !c {
		panic(stop{"assume", ""})
	}
}
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

// Fail ends the run, whichever goroutine it is called in.
func Fail(msg string) {
	select {
	case failed <- Outcome{Kind: "assert", Msg: msg}:
	default:
	}
	runtime.Goexit()
}
func Cover(msg string) { covers = append(covers, msg) }

func Tier(quick, thorough int) int {
	if cur.Thorough {
		return thorough
	}
	return quick
}
func Conc(i int) int { return i }

// AllocLimit bounds the bytes the code may allocate from here on.
func AllocLimit(n int) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	allocLim, allocAt = uint64(n), m.TotalAlloc
}
func MapOrder(nondet bool)           {}
func Obs(name string, v int64)       { obs = append(obs, fmt.Sprintf("%s=%x", name, uint64(v))) }
func ObsBytes(name string, b []byte) { obs = append(obs, name+"="+hex.EncodeToString(b)) }
func SetClock(ns int64)              { clock = ns }
func Clock() int64                   { return clock }

// Advance lets time pass. The harness has //vf:bubble, so that replays run by
// a clock of their own.
func Advance(d time.Duration) { time.Sleep(d) }

// Bubble runs a function in a synctest bubble; the replay binary sets it.
var Bubble func(f func())

func OnSleep(f func(time.Duration))  { onSleep = f }

// OnEnd has f called after the run.
func OnEnd(f func()) { onEnd = append(onEnd, f) }

var onEnd []func()

// Rand makes f the source of crypto/rand bytes.
func Rand(f func([]byte)) { rand.Reader = randFunc(f) }

type randFunc func([]byte)

func (f randFunc) Read(b []byte) (int, error) { f(b); return len(b), nil }

func Symbolic() bool                 { return false }
func SetStepLimit(n int)             {}
func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool         { return a && b }
func Or(a, b bool) bool          { return a || b }
func BytesEq(a, b []byte) bool   { return bytes.Equal(a, b) }
func SameObject(a, b []byte) bool { return cap(a) > 0 && cap(b) > 0 && &a[:1][0] == &b[:1][0] }

// Run executes a harness natively under the recorded inputs.
func Run(rf ReplayFile, f func()) (o Outcome) {
	cur, pos, obs, covers, allocLim, clock, onSleep = rf, 0, nil, nil, 0, 0, nil
	laxed = false
	failed = make(chan Outcome, 1)
	fail := failed
	limit := 20 * time.Second
	if rf.Retry > 0 {
		limit = 3 * time.Second
	}
	if rf.Lax {
		limit = 8 * time.Second
	}
	done := make(chan Outcome, 1)
	go func() {
		var o Outcome
		var inner interface{}
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(stop); ok {
					o = Outcome{Kind: s.kind, Msg: s.msg}
				} else {
					o = Outcome{Kind: "panic", Msg: fmt.Sprint(r)}
				}
			} else {
				o = Outcome{Kind: "ok"}
			}
			select {
			case o = <-fail:
			default:
			}
			if allocLim > 0 {
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if d := m.TotalAlloc - allocAt; d > allocLim+(256<<10) && o.Kind != "assert" {
					o = Outcome{Kind: "alloc", Msg: fmt.Sprintf("allocated %d bytes, bound %d", d, allocLim)}
				}
			}
			done <- o
		}()
		if rf.Bubble {
			Bubble(func() {
				end := make(chan interface{})
				go func() {
					var r interface{} = "goexit"
					defer func() {
						if e := recover(); e != nil {
							r = e
						}
						end <- r
					}()
					f()
					r = nil
				}()
				if r := <-end; r != nil && r != "goexit" {
					inner = r
				}
			})
			if inner != nil {
				panic(inner)
			}
			return
		}
		f()
	}()
	select {
	case o = <-done:
	case o = <-fail:
	case <-time.After(limit):
		if laxed {
			return Outcome{Kind: "desync", Msg: "no result"}
		}
		o = Outcome{Kind: "hang", Msg: "no result after " + limit.String()}
	}
	for _, f := range onEnd {
		f()
	}
	onEnd = nil
	o.Obs, o.Covers = obs, covers
	return
}

// Main replays every file named in VF_REPLAY (a JSON list) and writes outcomes.
func Main(reg map[string]func()) {
	p := os.Getenv("VF_REPLAY")
	if p == "" {
		return
	}
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	var rfs []ReplayFile
	if err := json.Unmarshal(b, &rfs); err != nil {
		panic(err)
	}
	var out []Outcome
	for _, rf := range rfs {
		f := reg[rf.Harness]
		if f == nil {
			out = append(out, Outcome{Kind: "desync", Msg: "no harness " + rf.Harness})
		} else {
			o := Run(rf, f)
			// a schedule is not replayed as such: delays are varied until it happens
			for i, t := 1, time.Now(); i < rf.Retry && time.Since(t) < 40*time.Second; i++ {
				if o.Kind == rf.Kind && (o.Kind != "assert" || o.Msg == rf.Msg) || o.Kind == "hang" && rf.Kind == "deadlock" {
					break
				}
				atomic.StoreUint32(&jitterRate, []uint32{3, 10, 30, 100}[i%4])
				o = Run(rf, f)
			}
			atomic.StoreUint32(&jitterRate, 0)
			out = append(out, o)
		}
		ob, _ := json.Marshal(out)
		os.WriteFile(os.Getenv("VF_OUT"), ob, 0644)
	}
}

type wrapErr struct {
	s   string
	err error
}

func (e *wrapErr) Error() string       { return e.s }
func (e *wrapErr) Unwrap() error       { return e.err }
func NewWrapErr(s string, e error) error { return &wrapErr{s, e} }

type fakeHash struct {
	kind string
	key  []byte
	data []byte
}

func NewFakeHash(kind string, key []byte) hash.Hash {
	return &fakeHash{kind: kind, key: append([]byte(nil), key...)}
}
func (h *fakeHash) Write(b []byte) (int, error) { h.data = append(h.data, b...); return len(b), nil }
func (h *fakeHash) Sum(b []byte) []byte         { return append(b, hashUF(h.kind, h.key, h.data)...) }
func (h *fakeHash) Reset()                      { h.data = nil }
func (h *fakeHash) BlockSize() int              { return 64 }
func (h *fakeHash) Size() int {
	switch h.kind {
	case "sha1":
		return 20
	case "md5":
		return 16
	}
	return 32
}

func hashUF(kind string, key, data []byte) []byte {
	var h hash.Hash
	switch kind {
	case "hmac-sha256":
		h = hmac.New(sha256.New, key)
	case "sha256":
		h = sha256.New()
	case "sha1":
		h = sha1.New()
	case "md5":
		h = md5.New()
	}
	h.Write(data)
	return h.Sum(nil)
}
