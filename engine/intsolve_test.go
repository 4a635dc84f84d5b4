package main

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"
)

// TestInt compares the integer translation with evaluation.
func TestInt(t *testing.T) {
	rnd := rand.New(rand.NewSource(2))
	s := NewSolver(NewTermTab())
	defer s.Close()
	n, skipped := 0, 0
	for iter := 0; iter < 400; iter++ {
		tt := NewTermTab()
		s.tt = tt
		pool := map[uint8][]*Term{}
		var vars []*Term
		for i, w := range []uint8{8, 16, 32, 64, 64} {
			v := tt.Var(w, string(rune('a'+i)))
			vars = append(vars, v)
			pool[w] = append(pool[w], v)
		}
		bounded := rnd.Intn(2) == 0
		signed := !bounded && rnd.Intn(2) == 0
		env := make([]uint64, len(vars))
		var pre []*Term
		for i, v := range vars {
			env[i] = rnd.Uint64() & mask(v.w)
			if bounded {
				env[i] &= 0xfff
				pre = append(pre, tt.Ule(v, tt.Const(v.w, 0xfff&mask(v.w))))
			}
			if signed {
				k := uint64(0x7f)
				if v.w > 8 {
					k = 0xfff
				}
				env[i] &= k
				lo := uint64(0)
				switch rnd.Intn(3) {
				case 0:
					env[i], lo = -env[i], -k
				case 1:
					lo = -(k >> 1)
				}
				env[i] &= mask(v.w)
				pre = append(pre, tt.bin(OSle, v, tt.Const(v.w, k)))
				pre = append(pre, tt.bin(OSle, tt.Const(v.w, lo), v))
				if rnd.Intn(3) == 0 {
					pre = append(pre, tt.Ule(v, tt.Const(v.w, mask(v.w)-uint64(rnd.Intn(2)))))
					if env[i] == mask(v.w) {
						env[i]--
					}
				}
			}
		}
		consts := []uint64{1, 2, 3, 255, 1000, 1000000, 0x7fffffff, ^uint64(0), 90000, 1000000000, 44100, 0xff00, ^uint64(0xff)}
		cst := func(w uint8) *Term {
			k := consts[rnd.Intn(len(consts))]
			if k&mask(w) == 0 {
				k = 7
			}
			return tt.Const(w, k)
		}
		for i := 0; i < 25; i++ {
			w := []uint8{8, 16, 32, 64}[rnd.Intn(4)]
			p := func() *Term { return pool[w][rnd.Intn(len(pool[w]))] }
			var r *Term
			switch rnd.Intn(12) {
			case 0, 1:
				r = tt.bin([]Op{OAdd, OSub}[rnd.Intn(2)], p(), p())
			case 2, 3:
				r = tt.bin([]Op{OMul, OUDiv, OURem, OSDiv, OSRem, OAnd, OAdd, OSub}[rnd.Intn(8)], p(), cst(w))
			case 4:
				r = tt.bin([]Op{OShl, OLshr, OAshr}[rnd.Intn(3)], p(), tt.Const(w, uint64(rnd.Intn(int(w)))))
			case 5:
				x := p()
				if w < 64 {
					if rnd.Intn(2) == 0 {
						r = tt.SExt(x, w*2)
					} else {
						r = tt.ZExt(x, w*2)
					}
				} else {
					r = tt.Extract(x, uint8(rnd.Intn(33)), 32)
				}
			case 6:
				if w == 64 {
					continue
				}
				r = tt.Concat(p(), p())
			case 7:
				c := tt.bin([]Op{OEq, OUlt, OUle, OSlt, OSle}[rnd.Intn(5)], p(), p())
				pool[0] = append(pool[0], c)
				r = tt.Ite(c, p(), p())
			case 10, 11:
				x := p()
				c := tt.Const(w, []uint64{10, 90, 1000, 90000, 1000000000}[rnd.Intn(5)])
				if c.k == 0 {
					continue
				}
				k := cst(w)
				dv, rm := OUDiv, OURem
				if rnd.Intn(2) == 0 {
					dv, rm = OSDiv, OSRem
				}
				y := tt.bin(rm, x, c)
				if rnd.Intn(2) == 0 {
					y = tt.bin(OAdd, y, tt.Const(w, 1))
				}
				y = tt.bin(OMul, y, k)
				if rnd.Intn(2) == 0 {
					y = tt.bin(OSub, y, tt.Const(w, 1))
				}
				r = tt.bin(OAdd, tt.bin(OMul, tt.bin(dv, x, c), k), tt.bin(dv, y, c))
			case 9:
				r = tt.bin([]Op{OMul, OUDiv, OURem, OSDiv, OSRem}[rnd.Intn(5)], p(), p())
			case 8:
				r = tt.Not(p())
			}
			pool[r.w] = append(pool[r.w], r)
		}
		var rs []*rt
		for i, v := range vars {
			rs = append(rs, &rt{op: OVar, w: v.w, k: uint64(i), term: v})
		}
		for w, l := range pool {
			if len(l) == 0 {
				continue
			}
			x := l[len(l)-1]
			val := rawEval(x, rs, env)
			var c *Term
			if w == 0 {
				c = x
				if val == 0 {
					c = tt.BNot(x)
				}
			} else {
				c = tt.Eq(x, tt.Const(w, val))
			}
			for k, c := range []*Term{c, tt.BNot(c)} {
				var vl []int // variables are numbered over all tests
				for _, v := range vars {
					vl = append(vl, int(v.k))
				}
				q, ok := intQuery(tt, append(append([]*Term{}, pre...), c), vl)
				if !ok {
					skipped++
					continue
				}
				for i := range vars {
					q += fmt.Sprintf("(assert (or (= v%d %s) (= v%d (- %s %s))))\n", vl[i], bigU(env[i]), vl[i], bigU(env[i]), pow2(int(vars[i].w)))
				}
				want := Sat
				if k == 1 {
					want = Unsat
				}
				r, m := s.run(&s.fast, "(push)\n"+q, "(pop)\n", vl, 20*time.Second)
				n++
				if r != want && r != Unknown && !(r == Sat && strings.Contains(q, "f1")) {
					t.Fatalf("iter %d term %v val %x: got %v want %v\n%s", iter, x, val, r, want, q)
				}
				if r == Sat {
					for i := range vars {
						if m[int32(vl[i])] != env[i] {
							t.Fatalf("model: v%d %x, not %x", i, m[int32(vl[i])], env[i])
						}
					}
				}
			}
		}
	}
	t.Log(n, "queries", skipped, "not translated")
	if n < skipped {
		t.Fatal("too few queries")
	}
}
