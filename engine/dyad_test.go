package main

import (
	"math"
	"math/rand"
	"testing"
)

// Float terms over one integer variable evaluate as Go does, whatever form
// the dyad rules give them.
func TestDyad(t *testing.T) {
	rnd := rand.New(rand.NewSource(2))
	type fv struct {
		t *Term
		f func(uint64) float64
	}
	for iter := 0; iter < 20000; iter++ {
		tt := NewTermTab()
		v := tt.Var(32, "v")
		var pool []fv
		sh, m := uint(rnd.Intn(32)), uint64(1)<<rnd.Intn(33)-1
		n := tt.bin(OAnd, tt.bin(OLshr, v, tt.Const(32, uint64(sh))), tt.Const(32, m&mask(32)))
		pool = append(pool, fv{tt.FConv(OFFromU, 64, n), func(x uint64) float64 { return float64(x >> sh & m & mask(32)) }},
			fv{tt.FConv(OFFromU, 64, v), func(x uint64) float64 { return float64(x) }},
			fv{tt.FConv(OFFromS, 64, v), func(x uint64) float64 { return float64(int32(x)) }})
		for i := 0; i < 6; i++ {
			a, b := pool[rnd.Intn(len(pool))], pool[rnd.Intn(len(pool))]
			if rnd.Intn(2) == 0 {
				c := []float64{0, 1, 2, 0.5, 256, 65536, 3, 1.0 / 65536, 1.5, -1, -0.5, 1e300, math.Ldexp(1, 60), math.Ldexp(1, -60)}[rnd.Intn(14)]
				b = fv{tt.Const(64, math.Float64bits(c)), func(uint64) float64 { return c }}
			}
			var r fv
			switch op := []Op{OFAdd, OFSub, OFMul, OFDiv, OFTrunc, OFFloor, OFCeil}[rnd.Intn(7)]; op {
			case OFTrunc, OFFloor, OFCeil:
				r = fv{tt.FConv(op, 64, a.t), func(x uint64) float64 {
					return math.Float64frombits(evalFConv(op, 64, 64, math.Float64bits(a.f(x))))
				}}
			default:
				r = fv{tt.bin(op, a.t, b.t), func(x uint64) float64 {
					return math.Float64frombits(evalBin(op, 64, 64, math.Float64bits(a.f(x)), math.Float64bits(b.f(x))))
				}}
			}
			pool = append(pool, r)
		}
		for _, p := range pool {
			for j := 0; j < 8; j++ {
				x := uint64(rnd.Uint32()) >> rnd.Intn(32)
				if j == 0 {
					x = 0
				}
				tt.gen++
				got, want := tt.Eval(p.t, Model{x}), math.Float64bits(p.f(x))
				if got != want && !(math.IsNaN(math.Float64frombits(got)) && math.IsNaN(math.Float64frombits(want))) {
					t.Fatalf("x=%d got %v want %v", x, math.Float64frombits(got), math.Float64frombits(want))
				}
			}
			for _, op := range []Op{OFLt, OFLe, OFEq} {
				q := pool[rnd.Intn(len(pool))]
				c := tt.bin(op, p.t, q.t)
				x := uint64(rnd.Uint32())
				tt.gen++
				if tt.Eval(c, Model{x}) != evalBin(op, 0, 64, math.Float64bits(p.f(x)), math.Float64bits(q.f(x))) {
					t.Fatal("compare", op, x)
				}
			}
		}
	}
}
