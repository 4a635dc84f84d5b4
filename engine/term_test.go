package main

import (
	"math/rand"
	"testing"
)

// refEval evaluates without any simplification.
type rt struct {
	op   Op
	w    uint8
	k    uint64
	a    []*rt
	term *Term
}

func ev(r *rt, env []uint64) uint64 {
	switch r.op {
	case OConst:
		return r.k
	case OVar:
		return env[r.k]
	}
	x := ev(r.a[0], env)
	switch r.op {
	case OExtract:
		return x >> r.k & mask(r.w)
	case OConcat:
		return x<<r.a[1].w | ev(r.a[1], env)
	case OSExt:
		return uint64(sx(x, r.a[0].w)) & mask(r.w)
	case ONot:
		return ^x & mask(r.w)
	case OBNot:
		return x ^ 1
	case OIte:
		if x == 1 {
			return ev(r.a[1], env)
		}
		return ev(r.a[2], env)
	}
	return evalBin(r.op, r.w, r.a[0].w, x, ev(r.a[1], env))
}

func TestTerms(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for iter := 0; iter < 3000; iter++ {
		tt := NewTermTab()
		widths := []uint8{0, 1, 7, 8, 16, 24, 32, 64}
		var pool = map[uint8][]*rt{}
		add := func(r *rt) { pool[r.w] = append(pool[r.w], r) }
		var vars []*rt
		for i := 0; i < 5; i++ {
			w := []uint8{8, 16, 32, 64, 1}[i]
			r := &rt{op: OVar, w: w, k: uint64(i), term: tt.Var(w, string(rune('a'+i)))}
			vars = append(vars, r)
			add(r)
		}
		consts := []uint64{0, 1, 2, 3, 255, 1000, 1000000, 0x80, 0x7fffffff, 1 << 63, ^uint64(0), 44100, 90000, 24}
		for n := 0; n < 60; n++ {
			pick := func(w uint8) *rt {
				if rnd.Intn(6) == 0 || len(pool[w]) == 0 {
					k := consts[rnd.Intn(len(consts))]
					if rnd.Intn(3) == 0 {
						k = rnd.Uint64()
					}
					k &= mask(w)
					if w == 0 {
						return &rt{op: OConst, w: 0, k: k & 1, term: tt.Bool(k&1 == 1)}
					}
					return &rt{op: OConst, w: w, k: k, term: tt.Const(w, k)}
				}
				return pool[w][rnd.Intn(len(pool[w]))]
			}
			w := widths[1+rnd.Intn(len(widths)-1)]
			var r *rt
			switch rnd.Intn(10) {
			case 8, 9: // scaled values
				w = []uint8{16, 32, 64}[rnd.Intn(3)]
				x := pick(w)
				if s := pool[w/2]; len(s) > 0 && rnd.Intn(4) > 0 {
					y := s[rnd.Intn(len(s))]
					x = &rt{op: OSExt, w: w, a: []*rt{y}, term: tt.SExt(y.term, w)}
				}
				sc := []uint64{3, 6, 24, 12, 100, 10, 1000, 1000000}
				cst := func() *rt {
					k := sc[rnd.Intn(len(sc))] & mask(w)
					return &rt{op: OConst, w: w, k: k, term: tt.Const(w, k)}
				}
				c := cst()
				mu := &rt{op: OMul, w: w, a: []*rt{x, c}, term: tt.bin(OMul, x.term, c.term)}
				add(mu)
				d := cst()
				o := []Op{OSDiv, OSRem, OUDiv, OURem, OSlt, OEq, OSle}[rnd.Intn(7)]
				if o == OSlt || o == OEq || o == OSle {
					y := pick(w)
					d = &rt{op: OMul, w: w, a: []*rt{y, c}, term: tt.bin(OMul, y.term, c.term)}
				}
				r = &rt{op: o, w: resW(o, w), a: []*rt{mu, d}, term: tt.bin(o, mu.term, d.term)}
			case 0, 1, 2:
				ops := []Op{OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OAnd, OOr, OXor, OShl, OLshr, OAshr}
				o := ops[rnd.Intn(len(ops))]
				x, y := pick(w), pick(w)
				r = &rt{op: o, w: w, a: []*rt{x, y}, term: tt.bin(o, x.term, y.term)}
			case 3:
				ops := []Op{OEq, OUlt, OUle, OSlt, OSle}
				o := ops[rnd.Intn(len(ops))]
				x, y := pick(w), pick(w)
				r = &rt{op: o, w: 0, a: []*rt{x, y}, term: tt.bin(o, x.term, y.term)}
			case 4:
				x := pick(w)
				ew := uint8(1 + rnd.Intn(int(w)))
				lo := uint8(rnd.Intn(int(w-ew) + 1))
				r = &rt{op: OExtract, w: ew, k: uint64(lo), a: []*rt{x}, term: tt.Extract(x.term, lo, ew)}
			case 5:
				x := pick(w)
				tw := []uint8{8, 16, 24, 32, 64}[rnd.Intn(5)]
				if tw < w {
					continue
				}
				if rnd.Intn(2) == 0 {
					r = &rt{op: OSExt, w: tw, a: []*rt{x}, term: tt.SExt(x.term, tw)}
				} else if tw > w {
					z := &rt{op: OConst, w: tw - w, term: tt.Const(tw-w, 0)}
					r = &rt{op: OConcat, w: tw, a: []*rt{z, x}, term: tt.ZExt(x.term, tw)}
				} else {
					continue
				}
			case 6:
				x, y := pick(w), pick([]uint8{1, 7, 8, 16, 24}[rnd.Intn(5)])
				if int(x.w)+int(y.w) > 64 {
					continue
				}
				r = &rt{op: OConcat, w: x.w + y.w, a: []*rt{x, y}, term: tt.Concat(x.term, y.term)}
			case 7:
				switch rnd.Intn(4) {
				case 0:
					x := pick(w)
					r = &rt{op: ONot, w: w, a: []*rt{x}, term: tt.Not(x.term)}
				case 1:
					x := pick(0)
					r = &rt{op: OBNot, w: 0, a: []*rt{x}, term: tt.BNot(x.term)}
				case 2:
					x, y := pick(0), pick(0)
					o := []Op{OBAnd, OBOr}[rnd.Intn(2)]
					r = &rt{op: o, w: 0, a: []*rt{x, y}, term: tt.bin(o, x.term, y.term)}
				case 3:
					c, x, y := pick(0), pick(w), pick(w)
					r = &rt{op: OIte, w: w, a: []*rt{c, x, y}, term: tt.Ite(c.term, x.term, y.term)}
				}
			}
			add(r)
		}
		for e := 0; e < 12; e++ {
			env := make([]uint64, 5)
			for i, v := range vars {
				switch rnd.Intn(3) {
				case 0:
					env[i] = consts[rnd.Intn(len(consts))] & mask(v.w)
				default:
					env[i] = rnd.Uint64() & mask(v.w)
				}
			}
			val := func(x *Term) uint64 { return rawEval(x, vars, env) }
			for _, l := range pool {
				for _, r := range l {
					want := ev(r, env)
					got := val(r.term)
					if got != want {
						t.Fatalf("op %v w %d: got %x want %x", r.op, r.w, got, want)
					}
					if got < r.term.lo || got > r.term.hi {
						t.Fatalf("interval of op %v w %d: %x not in [%x,%x]", r.term.op, r.w, got, r.term.lo, r.term.hi)
					}
					if r.w > 0 && (sx(got, r.w) < r.term.slo || sx(got, r.w) > r.term.shi) {
						t.Fatalf("signed interval of op %v w %d: %d not in [%d,%d]", r.term.op, r.w, sx(got, r.w), r.term.slo, r.term.shi)
					}
				}
			}
		}
	}
}

func rawEval(x *Term, vars []*rt, env []uint64) uint64 {
	memo := map[*Term]uint64{}
	var f func(x *Term) uint64
	f = func(x *Term) uint64 {
		if x.op == OConst {
			return x.k
		}
		if v, ok := memo[x]; ok {
			return v
		}
		var r uint64
		switch x.op {
		case OVar:
			for i, v := range vars {
				if v.term == x {
					r = env[i]
				}
			}
		case OExtract:
			r = f(x.a) >> x.k & mask(x.w)
		case OConcat:
			r = f(x.a)<<x.b.w | f(x.b)
		case OSExt:
			r = uint64(sx(f(x.a), x.a.w)) & mask(x.w)
		case ONot:
			r = ^f(x.a) & mask(x.w)
		case OBNot:
			r = f(x.a) ^ 1
		case OIte:
			if f(x.a) == 1 {
				r = f(x.b)
			} else {
				r = f(x.c)
			}
		default:
			r = evalBin(x.op, x.w, x.a.w, f(x.a), f(x.b))
		}
		memo[x] = r
		return r
	}
	return f(x)
}
