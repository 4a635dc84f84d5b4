package lib

import vf "github.com/nareix/joy5/zzvf"

// BitBuf is a bit string, one bit per element.
type BitBuf struct{ B []byte }

func (w *BitBuf) Put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		w.B = append(w.B, byte(v>>uint(i))&1)
	}
}

// UE writes the exp-Golomb code of the k-bit class: value 2^k-1+suffix.
func (w *BitBuf) UEk(k int, suffix uint64) uint64 {
	w.Put(0, k)
	w.Put(1, 1)
	w.Put(suffix, k)
	return 1<<uint(k) - 1 + suffix
}

// UE writes v, which must be concrete.
func (w *BitBuf) UE(v uint64) {
	k := 0
	for (v+1)>>uint(k+1) != 0 {
		k++
	}
	w.UEk(k, v+1-1<<uint(k))
}

// SE writes v, which must be concrete.
func (w *BitBuf) SE(v int64) {
	if v > 0 {
		w.UE(uint64(2*v - 1))
	} else {
		w.UE(uint64(-2 * v))
	}
}

// SymUE writes an arbitrary value whose code has up to kmax leading zeros.
func (w *BitBuf) SymUE(name string, kmax int) uint64 {
	k := vf.Choose(name+".k", kmax+1)
	if k == 0 {
		return w.UEk(0, 0)
	}
	return w.UEk(k, uint64(vf.U32(name))&(1<<uint(k)-1))
}

// Bytes ends the payload with the stop bit and packs it.
func (w *BitBuf) Bytes() []byte {
	bs := append(append([]byte(nil), w.B...), 1)
	for len(bs)%8 != 0 {
		bs = append(bs, 0)
	}
	out := make([]byte, len(bs)/8)
	for i := range out {
		v := byte(0)
		for j := 0; j < 8; j++ {
			v |= bs[8*i+j] << uint(7-j)
		}
		out[i] = v
	}
	return out
}

// Escape inserts emulation prevention bytes.
func Escape(rbsp []byte) (out []byte) {
	zeros := 0
	for _, c := range rbsp {
		if zeros >= 2 && c <= 3 {
			out = append(out, 3)
			zeros = 0
		}
		out = append(out, c)
		if c == 0 {
			zeros++
		} else {
			zeros = 0
		}
	}
	if zeros > 0 {
		out = append(out, 3)
	}
	return
}
