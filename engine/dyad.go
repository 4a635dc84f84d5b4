package main

import "math"

// Non-negative floats that are exactly n/2^k with n < 2^53 are kept in one
// form, OFDiv(OFFromU(n), 2^k), so that fixed-point arithmetic on them stays
// integer arithmetic. Every step below is exact in IEEE arithmetic.

const maxDyadK = 200

// dyad returns n and k when the 64 bit float x is exactly n/2^k.
func (tt *TermTab) dyad(x *Term) (n *Term, k uint, ok bool) {
	if x.w != 64 {
		return
	}
	switch x.op {
	case OFFromS:
		if x.a.slo >= 0 && x.a.shi < 1<<53 {
			return tt.SExt(x.a, 64), 0, true
		}
	case OFFromU:
		if x.a.hi < 1<<53 {
			return tt.ZExt(x.a, 64), 0, true
		}
	case OConst:
		f := math.Float64frombits(x.k)
		if math.Signbit(f) || f >= 1<<53 || f != f {
			return
		}
		for k = 0; k < 60; k++ {
			if f == math.Trunc(f) {
				return tt.Const(64, uint64(f)), k, f < 1<<53
			}
			f *= 2
		}
	case OFDiv:
		if x.b.isC() && x.a.op == OFFromU && x.a.a.hi < 1<<53 {
			if e, ok := log2(x.b.k); ok && e >= 0 && e <= maxDyadK {
				return tt.ZExt(x.a.a, 64), uint(e), true
			}
		}
	}
	return nil, 0, false
}

// log2 returns e when the float with these bits is 2^e.
func log2(b uint64) (int, bool) {
	f := math.Float64frombits(b)
	fr, e := math.Frexp(f)
	return e - 1, fr == 0.5 && e > -500 && e < 500
}

func (tt *TermTab) mkDyad(n *Term, k uint) *Term {
	x := tt.FConv(OFFromU, 64, n)
	if k == 0 {
		return x
	}
	if n.isC() {
		return tt.Const(64, math.Float64bits(float64(n.k)/math.Ldexp(1, int(k))))
	}
	return tt.mk(OFDiv, 64, 0, x, tt.Const(64, math.Float64bits(math.Ldexp(1, int(k)))), nil)
}

// align brings two dyads to one denominator.
func (tt *TermTab) align(a *Term, j uint, b *Term, k uint) (x, y *Term, m uint, ok bool) {
	m = max(j, k)
	if m-j > 52 || m-k > 52 || a.hi >= 1<<(53-(m-j)) || b.hi >= 1<<(53-(m-k)) {
		return
	}
	x = tt.bin(OShl, a, tt.Const(64, uint64(m-j)))
	y = tt.bin(OShl, b, tt.Const(64, uint64(m-k)))
	return x, y, m, true
}

// dyadBin does float operation op on a and b when all is exact.
func (tt *TermTab) dyadBin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		return nil
	}
	n, j, ok := tt.dyad(a)
	if !ok {
		return nil
	}
	if op == OFDiv || op == OFMul {
		c := b
		if op == OFMul && a.isC() {
			c = a
			if n, j, ok = tt.dyad(b); !ok {
				return nil
			}
		}
		if !c.isC() {
			return nil
		}
		e, ok := log2(c.k)
		if !ok {
			return nil
		}
		if op == OFMul {
			e = -e
		}
		k := int(j) + e
		switch {
		case k >= 0 && k <= maxDyadK:
			return tt.mkDyad(n, uint(k))
		case k < 0 && k > -53 && n.hi < 1<<uint(53+k):
			return tt.mkDyad(tt.bin(OShl, n, tt.Const(64, uint64(-k))), 0)
		}
		return nil
	}
	m, k, ok := tt.dyad(b)
	if !ok {
		return nil
	}
	x, y, d, ok := tt.align(n, j, m, k)
	if !ok {
		return nil
	}
	switch op {
	case OFAdd:
		if x.hi+y.hi < 1<<53 {
			return tt.mkDyad(tt.bin(OAdd, x, y), d)
		}
	case OFSub:
		if x.lo >= y.hi {
			return tt.mkDyad(tt.bin(OSub, x, y), d)
		}
	case OFLt:
		return tt.Ult(x, y)
	case OFLe:
		return tt.Ule(x, y)
	case OFEq:
		return tt.Eq(x, y)
	}
	return nil
}

// dyadTrunc is x rounded down when x is a dyad.
func (tt *TermTab) dyadTrunc(x *Term) *Term {
	n, k, ok := tt.dyad(x)
	if !ok {
		return nil
	}
	if k >= 53 {
		return tt.Const(64, 0)
	}
	return tt.mkDyad(tt.bin(OLshr, n, tt.Const(64, uint64(k))), 0)
}

// modf splits x in its integer and fractional part.
func (tt *TermTab) modf(x *Term) (i, f *Term) {
	if n, k, ok := tt.dyad(x); ok && k < 53 {
		return tt.dyadTrunc(x), tt.mkDyad(tt.bin(OAnd, n, tt.Const(64, 1<<k-1)), k)
	}
	// Go gives x as fraction for infinities and keeps the sign of zeros;
	// callers use it on finite values, where x - trunc(x) is exact.
	i = tt.FConv(OFTrunc, 64, x)
	return i, tt.bin(OFSub, x, i)
}
