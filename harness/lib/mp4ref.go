package lib

import (
	"time"

	vf "github.com/nareix/joy5/zzvf"
)

// MP is a big-endian writer for MP4 boxes.
type MP struct{ B []byte }

func (w *MP) U8(v uint8) *MP   { w.B = append(w.B, v); return w }
func (w *MP) U16(v uint16) *MP { return w.U8(uint8(v >> 8)).U8(uint8(v)) }
func (w *MP) U24(v uint32) *MP { return w.U8(uint8(v >> 16)).U16(uint16(v)) }
func (w *MP) U32(v uint32) *MP { return w.U16(uint16(v >> 16)).U16(uint16(v)) }
func (w *MP) U64(v uint64) *MP { return w.U32(uint32(v >> 32)).U32(uint32(v)) }
func (w *MP) Raw(b ...[]byte) *MP {
	for _, c := range b {
		w.B = append(w.B, c...)
	}
	return w
}
func (w *MP) Zero(n int) *MP {
	for i := 0; i < n; i++ {
		w.B = append(w.B, 0)
	}
	return w
}

// Full writes version and flags.
func (w *MP) Full(version uint8, flags uint32) *MP { return w.U8(version).U24(flags) }

// Box is a box around what was written.
func (w *MP) Box(tag string) []byte { return Box(tag, w.B) }

// Box is a box with the given content.
func Box(tag string, parts ...[]byte) []byte {
	n := 8
	for _, p := range parts {
		n += len(p)
	}
	w := &MP{}
	w.U32(uint32(n)).Raw([]byte(tag))
	return w.Raw(parts...).B
}

var epoch1904 = time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC)

// T1904 is the time sec seconds after the beginning of 1904.
func T1904(sec uint32) time.Time { return time.Unix(epoch1904.Unix()+int64(sec), 0).UTC() }

// T1904L is the same for 64 bit times.
func T1904L(sec int64) time.Time { return time.Unix(epoch1904.Unix()+sec, 0).UTC() }

// F32 is the value of a 16.16 number.
func F32(v uint32) float64 { return float64(v>>16) + float64(v&0xffff)/65536 }

// F16 is the value of an 8.8 number.
func F16(v uint16) float64 { return float64(v>>8) + float64(v&0xff)/256 }

// U24 is an arbitrary 24 bit value.
func U24(name string) uint32 { return vf.U32(name) & 0xffffff }
