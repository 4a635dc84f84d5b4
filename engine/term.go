package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
	"sync"
)

// Terms: hash-consed bit-vector (width 1..64) and boolean (width 0) DAG.

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	ONot
	OConcat
	OExtract // k = lo; width = w
	OSExt
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	// floats (operands are bit patterns)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFFromS // signed int a -> float w
	OFFromU
	OFToS // float a -> signed int w
	OFToU
	OFConv // float a -> float w
	OFFloor
	OFCeil
	OFTrunc
)

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", ONot: "bvnot", OConcat: "concat",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or"}

type Term struct {
	op       Op
	w        uint8
	id       int32
	k        uint64
	a, b, c  *Term
	lo, hi   uint64 // unsigned interval
	slo, shi int64  // signed interval
	vars     []int32
	ev       uint64
	evGen    uint32
	printed  uint32
	size     int32
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type TermTab struct {
	tab    map[tkey]*Term
	nextID int32
	vars   []*Term // var index -> term
	varIdx map[string]int32
	gen    uint32
	True   *Term
	False  *Term
}

func NewTermTab() *TermTab {
	tt := &TermTab{tab: map[tkey]*Term{}, varIdx: map[string]int32{}}
	tt.True = tt.mk(OConst, 0, 1, nil, nil, nil)
	tt.False = tt.mk(OConst, 0, 0, nil, nil, nil)
	return tt
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset fast path
	if len(a) >= len(b) && subset(b, a) {
		return a
	}
	if len(b) > len(a) && subset(a, b) {
		return b
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] < b[j] {
			r = append(r, a[i])
			i++
		} else if a[i] > b[j] {
			r = append(r, b[j])
			j++
		} else {
			r = append(r, a[i])
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func subset(a, b []int32) bool {
	if len(a) > 0 && len(b) > 0 && &a[0] == &b[0] && len(a) <= len(b) {
		return true
	}
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j >= len(b) || b[j] != x {
			return false
		}
		j++
	}
	return true
}

func (tt *TermTab) mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := tkey{op, w, k, tid(a), tid(b), tid(c)}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c, id: tt.nextID}
	tt.nextID++
	tt.tab[key] = t
	t.size = 1
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.vars = mergeVars(t.vars, x.vars)
			t.size += x.size
			if t.size > 1<<29 {
				t.size = 1 << 29
			}
		}
	}
	tt.interval(t)
	tt.sinterval(t)
	return t
}

func (tt *TermTab) interval(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	a, b, c := t.a, t.b, t.c
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OAdd:
		if s, cy := bits.Add64(a.hi, b.hi, 0); cy == 0 && s <= m {
			t.lo, t.hi = a.lo+b.lo, s
		}
	case OSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
	case OUDiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OURem:
		if b.lo > 0 {
			t.hi = b.hi - 1
			if a.hi < t.hi {
				t.hi = a.hi
			}
		}
	case OAnd:
		t.hi = min(a.hi, b.hi)
	case OOr, OXor:
		h := a.hi | b.hi
		if h != 0 {
			t.hi = (uint64(1)<<(bits.Len64(h)-1))<<1 - 1
		} else {
			t.hi = 0
		}
		if t.op == OOr {
			t.lo = max(a.lo, b.lo)
		}
	case OConcat:
		t.lo = a.lo<<b.w | b.lo
		t.hi = a.hi<<b.w | b.hi
	case OExtract:
		if t.k == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		} else if t.k+uint64(t.w) == uint64(a.w) {
			t.lo, t.hi = a.lo>>t.k, a.hi>>t.k
		}
	case OLshr:
		t.hi = a.hi
		if b.lo < 64 {
			t.hi = a.hi >> b.lo
		}
	case OIte:
		t.lo, t.hi = min(b.lo, c.lo), max(b.hi, c.hi)
	}
	if t.w == 0 {
		t.lo, t.hi = 0, 1
		if t.op == OConst {
			t.lo, t.hi = t.k, t.k
		}
	}
}

// smin, smax are the signed limits of width w.
func smin(w uint8) int64 { return -1 << (w - 1) }
func smax(w uint8) int64 { return int64(uint64(1)<<(w-1) - 1) }

// smul multiplies with an overflow check at width w.
func smul(a, b int64, w uint8) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	if p/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return p, p >= smin(w) && p <= smax(w)
}

func sadd(a, b int64, w uint8) (int64, bool) {
	p := a + b
	if (a > 0 && b > 0 && p <= 0) || (a < 0 && b < 0 && p >= 0) {
		return 0, false
	}
	return p, p >= smin(w) && p <= smax(w)
}

// mulFits reports that x*c cannot overflow as a signed product of width w.
func mulFits(x *Term, c int64, w uint8) bool {
	_, ok1 := smul(x.slo, c, w)
	_, ok2 := smul(x.shi, c, w)
	return ok1 && ok2
}

func (tt *TermTab) sinterval(t *Term) {
	w := t.w
	if w == 0 {
		t.slo, t.shi = int64(t.lo), int64(t.hi)
		return
	}
	half := uint64(1) << (w - 1)
	t.slo, t.shi = smin(w), smax(w)
	if t.hi < half {
		t.slo, t.shi = int64(t.lo), int64(t.hi)
	} else if t.lo >= half {
		t.slo, t.shi = sx(t.lo, w), sx(t.hi, w)
	}
	a, b, c := t.a, t.b, t.c
	l, h := smin(w), smax(w)
	switch t.op {
	case OSExt:
		l, h = a.slo, a.shi
	case OAdd:
		x, ok1 := sadd(a.slo, b.slo, w)
		y, ok2 := sadd(a.shi, b.shi, w)
		if ok1 && ok2 {
			l, h = x, y
		}
	case OSub:
		if b.slo != math.MinInt64 {
			x, ok1 := sadd(a.slo, -b.shi, w)
			y, ok2 := sadd(a.shi, -b.slo, w)
			if ok1 && ok2 {
				l, h = x, y
			}
		}
	case OMul:
		if b.isC() {
			k := sx(b.k, w)
			x, ok1 := smul(a.slo, k, w)
			y, ok2 := smul(a.shi, k, w)
			if ok1 && ok2 {
				l, h = min(x, y), max(x, y)
			}
		}
	case OSDiv:
		if b.isC() {
			if k := sx(b.k, w); k > 0 {
				l, h = a.slo/k, a.shi/k
			}
		}
	case OIte:
		l, h = min(b.slo, c.slo), max(b.shi, c.shi)
	}
	t.slo, t.shi = max(t.slo, l), min(t.shi, h)
	if t.slo >= 0 {
		t.lo, t.hi = max(t.lo, uint64(t.slo)), min(t.hi, uint64(t.shi))
	}
}

func (tt *TermTab) Const(w uint8, k uint64) *Term { return tt.mk(OConst, w, k&mask(w), nil, nil, nil) }
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

// Var returns the variable with positional name.
// variable numbers are shared by every worker: models travel between them
var varMu sync.Mutex
var varNum = map[string]int32{}

func (tt *TermTab) Var(w uint8, name string) *Term {
	nm := fmt.Sprintf("%s_%d", name, w)
	if i, ok := tt.varIdx[nm]; ok {
		return tt.vars[i]
	}
	varMu.Lock()
	i, ok := varNum[nm]
	if !ok {
		i = int32(len(varNum))
		varNum[nm] = i
	}
	varMu.Unlock()
	t := &Term{op: OVar, w: w, k: uint64(i), id: tt.nextID, size: 1}
	tt.nextID++
	t.vars = []int32{i}
	tt.interval(t)
	tt.sinterval(t)
	for int(i) >= len(tt.vars) {
		tt.vars = append(tt.vars, nil)
	}
	tt.vars[i] = t
	tt.varIdx[nm] = i
	return t
}

func (t *Term) isC() bool { return t.op == OConst }
func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func evalBin(op Op, w uint8, aw uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx(x, aw) < sx(y, aw))
	case OSle:
		return b2u(sx(x, aw) <= sx(y, aw))
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OFAdd, OFSub, OFMul, OFDiv:
		if w == 64 {
			a, b := math.Float64frombits(x), math.Float64frombits(y)
			var r float64
			switch op {
			case OFAdd:
				r = a + b
			case OFSub:
				r = a - b
			case OFMul:
				r = a * b
			default:
				r = a / b
			}
			return math.Float64bits(r)
		}
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		default:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	case OFLt, OFLe, OFEq:
		var a, b float64
		if aw == 64 {
			a, b = math.Float64frombits(x), math.Float64frombits(y)
		} else {
			a, b = float64(math.Float32frombits(uint32(x))), float64(math.Float32frombits(uint32(y)))
		}
		switch op {
		case OFLt:
			return b2u(a < b)
		case OFLe:
			return b2u(a <= b)
		}
		return b2u(a == b)
	}
	panic("evalBin")
}

func evalFConv(op Op, w, aw uint8, x uint64) uint64 {
	tof := func(v uint64, w uint8) float64 {
		if w == 64 {
			return math.Float64frombits(v)
		}
		return float64(math.Float32frombits(uint32(v)))
	}
	fromf := func(f float64) uint64 {
		if w == 64 {
			return math.Float64bits(f)
		}
		return uint64(math.Float32bits(float32(f)))
	}
	switch op {
	case OFFromS:
		if w == 32 {
			return uint64(math.Float32bits(float32(sx(x, aw))))
		}
		return fromf(float64(sx(x, aw)))
	case OFFromU:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return fromf(float64(x))
	case OFToS:
		return uint64(int64(tof(x, aw))) & mask(w)
	case OFToU:
		return uint64(tof(x, aw)) & mask(w)
	case OFConv:
		return fromf(tof(x, aw))
	case OFFloor:
		return fromf(math.Floor(tof(x, aw)))
	case OFCeil:
		return fromf(math.Ceil(tof(x, aw)))
	case OFTrunc:
		return fromf(math.Trunc(tof(x, aw)))
	}
	panic("evalFConv")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

type seg struct {
	t *Term
}

func (tt *TermTab) segs(t *Term) []*Term {
	var r []*Term
	for t.op == OConcat {
		r = append(r, t.a)
		t = t.b
	}
	return append(r, t)
}

// constRuns splits constants in runs of equal bits; nil when more than 6 runs.
func (tt *TermTab) constRuns(t *Term) []*Term {
	var r []*Term
	w := int(t.w)
	i := w
	for i > 0 {
		b := t.k >> (i - 1) & 1
		j := i - 1
		for j > 0 && t.k>>(j-1)&1 == b {
			j--
		}
		n := uint8(i - j)
		if b == 1 {
			r = append(r, tt.Const(n, mask(n)))
		} else {
			r = append(r, tt.Const(n, 0))
		}
		if len(r) > 6 {
			return nil
		}
		i = j
	}
	return r
}

func (tt *TermTab) concatList(l []*Term) *Term {
	t := l[len(l)-1]
	for i := len(l) - 2; i >= 0; i-- {
		t = tt.Concat(l[i], t)
	}
	return t
}

func (tt *TermTab) Concat(a, b *Term) *Term {
	if a.op == OConcat {
		return tt.Concat(a.a, tt.Concat(a.b, b))
	}
	h, rest := b, (*Term)(nil)
	if b.op == OConcat {
		h, rest = b.a, b.b
	}
	var m *Term
	if a.isC() && h.isC() {
		m = tt.Const(a.w+h.w, a.k<<h.w|h.k)
	} else if a.op == OExtract && h.op == OExtract && a.a == h.a && a.k == h.k+uint64(h.w) {
		m = tt.Extract(h.a, uint8(h.k), a.w+h.w)
	} else if a.op == OExtract && a.a == h && a.k == uint64(h.w) && false {
		m = nil
	}
	if m != nil {
		if rest != nil {
			return tt.Concat(m, rest)
		}
		return m
	}
	return tt.mk(OConcat, a.w+b.w, 0, a, b, nil)
}

func (tt *TermTab) Extract(t *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return tt.Const(w, t.k>>lo)
	case OExtract:
		return tt.Extract(t.a, lo+uint8(t.k), w)
	case OConcat:
		bw := t.b.w
		if lo >= bw {
			return tt.Extract(t.a, lo-bw, w)
		}
		if lo+w <= bw {
			return tt.Extract(t.b, lo, w)
		}
		return tt.Concat(tt.Extract(t.a, 0, lo+w-bw), tt.Extract(t.b, lo, bw-lo))
	case OSExt:
		if lo+w <= t.a.w {
			return tt.Extract(t.a, lo, w)
		}
		if lo < t.a.w {
			return tt.SExt(tt.Extract(t.a, lo, t.a.w-lo), w)
		}
		return tt.SExt(tt.Extract(t.a, t.a.w-1, 1), w)
	case OAnd, OOr, OXor:
		return tt.bin(t.op, tt.Extract(t.a, lo, w), tt.Extract(t.b, lo, w))
	case ONot:
		return tt.Not(tt.Extract(t.a, lo, w))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return tt.bin(t.op, tt.Extract(t.a, 0, w), tt.Extract(t.b, 0, w))
		}
	case OIte:
		if t.b.isC() || t.c.isC() || t.b.op == OConcat || t.c.op == OConcat {
			return tt.Ite(t.a, tt.Extract(t.b, lo, w), tt.Extract(t.c, lo, w))
		}
	}
	if lo < 64 && t.hi>>lo == 0 {
		return tt.Const(w, 0)
	}
	return tt.mk(OExtract, w, uint64(lo), t, nil, nil)
}

func (tt *TermTab) ZExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return tt.Extract(t, 0, w)
	}
	return tt.Concat(tt.Const(w-t.w, 0), t)
}

func (tt *TermTab) SExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return tt.Extract(t, 0, w)
	}
	if t.isC() {
		return tt.Const(w, uint64(sx(t.k, t.w)))
	}
	if t.hi < 1<<(t.w-1) {
		return tt.ZExt(t, w)
	}
	if t.op == OSExt {
		return tt.SExt(t.a, w)
	}
	return tt.mk(OSExt, w, 0, t, nil, nil)
}

func (tt *TermTab) Not(t *Term) *Term {
	if t.w == 0 {
		return tt.BNot(t)
	}
	if t.isC() {
		return tt.Const(t.w, ^t.k)
	}
	if t.op == ONot {
		return t.a
	}
	if t.op == OConcat {
		l := tt.segs(t)
		r := make([]*Term, len(l))
		for i := range l {
			r[i] = tt.Not(l[i])
		}
		return tt.concatList(r)
	}
	return tt.mk(ONot, t.w, 0, t, nil, nil)
}

func (tt *TermTab) BNot(t *Term) *Term {
	if t.isC() {
		return tt.Bool(t.k == 0)
	}
	switch t.op {
	case OBNot:
		return t.a
	case OUlt:
		return tt.Ule(t.b, t.a)
	case OUle:
		return tt.Ult(t.b, t.a)
	case OSlt:
		return tt.bin(OSle, t.b, t.a)
	case OSle:
		return tt.bin(OSlt, t.b, t.a)
	}
	return tt.mk(OBNot, 0, 0, t, nil, nil)
}

func (tt *TermTab) Ult(a, b *Term) *Term { return tt.bin(OUlt, a, b) }
func (tt *TermTab) Ule(a, b *Term) *Term { return tt.bin(OUle, a, b) }
func (tt *TermTab) Eq(a, b *Term) *Term  { return tt.bin(OEq, a, b) }
func (tt *TermTab) BAnd(a, b *Term) *Term {
	return tt.bin(OBAnd, a, b)
}
func (tt *TermTab) BOr(a, b *Term) *Term { return tt.bin(OBOr, a, b) }

func resW(op Op, w uint8) uint8 {
	switch op {
	case OEq, OUlt, OUle, OSlt, OSle, OFLt, OFLe, OFEq, OBAnd, OBOr:
		return 0
	}
	return w
}

func isPow2(k uint64) (uint8, bool) {
	if k != 0 && k&(k-1) == 0 {
		return uint8(bits.TrailingZeros64(k)), true
	}
	return 0, false
}

func (tt *TermTab) bitwiseSegs(op Op, a, b *Term) *Term {
	sa, sb := tt.segs(a), tt.segs(b)
	if a.isC() {
		sa = tt.constRuns(a)
	}
	if b.isC() {
		sb = tt.constRuns(b)
	}
	if sa == nil || sb == nil || (len(sa) == 1 && len(sb) == 1) {
		return nil
	}
	exp := func(l []*Term) []*Term {
		var r []*Term
		for _, s := range l {
			if s.isC() {
				rr := tt.constRuns(s)
				if rr == nil {
					return nil
				}
				r = append(r, rr...)
			} else {
				r = append(r, s)
			}
		}
		return r
	}
	sa, sb = exp(sa), exp(sb)
	if sa == nil || sb == nil {
		return nil
	}
	var out []*Term
	i, j := 0, 0
	for i < len(sa) && j < len(sb) {
		x, y := sa[i], sb[j]
		n := min(x.w, y.w)
		xh, yh := x, y
		if x.w > n {
			xh = tt.Extract(x, x.w-n, n)
			sa[i] = tt.Extract(x, 0, x.w-n)
		} else {
			i++
		}
		if y.w > n {
			yh = tt.Extract(y, y.w-n, n)
			sb[j] = tt.Extract(y, 0, y.w-n)
		} else {
			j++
		}
		if op == OAdd {
			if xh.isC() && xh.k == 0 {
				out = append(out, yh)
			} else if yh.isC() && yh.k == 0 {
				out = append(out, xh)
			} else {
				return nil
			}
		} else {
			out = append(out, tt.bin(op, xh, yh))
		}
	}
	return tt.concatList(out)
}

func (tt *TermTab) bin(op Op, a, b *Term) *Term {
	if (op == OUDiv || op == OURem) && !a.isC() && b.lo > 0 {
		// divide at the width the values need
		if n := uint8(max(bits.Len64(a.hi), bits.Len64(b.hi))); n+8 <= a.w {
			return tt.ZExt(tt.bin(op, tt.Extract(a, 0, n), tt.Extract(b, 0, n)), a.w)
		}
	}
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %v %d %d", op, a.w, b.w))
	}
	rw := resW(op, w)
	if a.isC() && b.isC() {
		return tt.mk(OConst, rw, evalBin(op, rw, w, a.k, b.k), nil, nil, nil)
	}
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		if w == 64 {
			if r := tt.dyadBin(op, a, b); r != nil {
				return r
			}
		}
	}
	// commutative: constant right
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor, OEq, OBAnd, OBOr:
		if a.isC() || (!b.isC() && a.id > b.id) {
			a, b = b, a
		}
	}
	m := mask(w)
	switch op {
	case OAdd:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isC() {
				return tt.bin(OAdd, a.a, tt.Const(w, a.b.k+b.k))
			}
		}
		if a.op == OConcat || b.op == OConcat {
			if r := tt.bitwiseSegs(OAdd, a, b); r != nil {
				return r
			}
		}
	case OSub:
		if a == b {
			return tt.Const(w, 0)
		}
		if b.isC() {
			return tt.bin(OAdd, a, tt.Const(w, -b.k))
		}
		if a.op == OAdd && a.a == b {
			return a.b
		}
		if b.op == OAdd && b.b.isC() {
			if a == b.a {
				return tt.Const(w, -b.b.k)
			}
			if a.op == OAdd && a.b.isC() && a.a == b.a {
				return tt.Const(w, a.b.k-b.b.k)
			}
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
	case OMul:
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if s, ok := isPow2(b.k); ok {
				return tt.bin(OShl, a, tt.Const(w, uint64(s)))
			}
		}
	case OUDiv:
		if b.isC() {
			if s, ok := isPow2(b.k); ok {
				return tt.bin(OLshr, a, tt.Const(w, uint64(s)))
			}
			if b.k != 0 && a.hi < b.k {
				return tt.Const(w, 0)
			}
			if b.k != 0 && a.op == OMul && a.b.isC() {
				if h, l := bits.Mul64(a.a.hi, a.b.k); h == 0 && l <= m {
					if a.b.k%b.k == 0 {
						return tt.bin(OMul, a.a, tt.Const(w, a.b.k/b.k))
					}
					if b.k%a.b.k == 0 {
						return tt.bin(OUDiv, a.a, tt.Const(w, b.k/a.b.k))
					}
				}
			}
		}
	case OURem:
		if b.isC() {
			if _, ok := isPow2(b.k); ok {
				return tt.bin(OAnd, a, tt.Const(w, b.k-1))
			}
			if b.k != 0 && a.hi < b.k {
				return a
			}
			if b.k != 0 && a.op == OMul && a.b.isC() && a.b.k%b.k == 0 {
				if h, l := bits.Mul64(a.a.hi, a.b.k); h == 0 && l <= m {
					return tt.Const(w, 0)
				}
			}
		}
	case OSDiv, OSRem:
		half := uint64(1) << (w - 1)
		if a.hi < half && b.hi < half {
			if op == OSDiv {
				return tt.bin(OUDiv, a, b)
			}
			return tt.bin(OURem, a, b)
		}
		if b.isC() && b.k == 1 {
			if op == OSDiv {
				return a
			}
			return tt.Const(w, 0)
		}
		if b.isC() && a.op == OMul && a.b.isC() {
			d, e := sx(b.k, w), sx(a.b.k, w)
			if d > 0 && e > 0 && mulFits(a.a, e, w) {
				if e%d == 0 {
					if op == OSRem {
						return tt.Const(w, 0)
					}
					return tt.bin(OMul, a.a, tt.Const(w, uint64(e/d)))
				}
				if d%e == 0 && op == OSDiv {
					return tt.bin(OSDiv, a.a, tt.Const(w, uint64(d/e)))
				}
			}
		}
	case OAnd:
		if a == b {
			return a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
		}
		if b.isC() || a.op == OConcat || b.op == OConcat {
			if r := tt.bitwiseSegs(OAnd, a, b); r != nil {
				return r
			}
		}
	case OOr:
		if a == b {
			return a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return b
			}
		}
		if b.isC() || a.op == OConcat || b.op == OConcat {
			if r := tt.bitwiseSegs(OOr, a, b); r != nil {
				return r
			}
		}
	case OXor:
		if a == b {
			return tt.Const(w, 0)
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k == m {
				return tt.Not(a)
			}
		}
		if a.op == OConcat || b.op == OConcat {
			if r := tt.bitwiseSegs(OXor, a, b); r != nil {
				return r
			}
		}
	case OShl:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tt.Const(w, 0)
			}
			return tt.Concat(tt.Extract(a, 0, w-uint8(b.k)), tt.Const(uint8(b.k), 0))
		}
	case OLshr:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return tt.Const(w, 0)
			}
			return tt.ZExt(tt.Extract(a, uint8(b.k), w-uint8(b.k)), w)
		}
	case OAshr:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			k := b.k
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return tt.SExt(tt.Extract(a, uint8(k), w-uint8(k)), w)
		}
		if a.hi < 1<<(w-1) {
			return tt.bin(OLshr, a, b)
		}
	case OEq:
		if a == b {
			return tt.True
		}
		if w == 0 {
			if b.isC() {
				if b.k == 1 {
					return a
				}
				return tt.BNot(a)
			}
			break
		}
		if a.hi < b.lo || b.hi < a.lo || a.shi < b.slo || b.shi < a.slo {
			return tt.False
		}
		if a.op == OMul && b.op == OMul && a.b == b.b && a.b.isC() {
			if k := sx(a.b.k, w); k > 0 && mulFits(a.a, k, w) && mulFits(b.a, k, w) {
				return tt.bin(op, a.a, b.a)
			}
		}
		if b.isC() && a.op == OAdd && a.b.isC() {
			return tt.Eq(a.a, tt.Const(w, b.k-a.b.k))
		}
		if b.isC() && a.op == ONot {
			return tt.Eq(a.a, tt.Not(b))
		}
		if b.isC() && a.op == OIte {
			if a.b.isC() || a.c.isC() {
				l, r := tt.Eq(a.b, b), tt.Eq(a.c, b)
				if l.isC() || r.isC() {
					return tt.Ite(a.a, l, r)
				}
			}
		}
		if b.isC() && a.op == OSExt {
			in := tt.Const(a.a.w, b.k)
			if uint64(sx(in.k, in.w))&m != b.k {
				return tt.False
			}
			return tt.Eq(a.a, in)
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return tt.Eq(a.a, b.a)
		}
		if a.op == OConcat && (b.isC() || b.op == OConcat) {
			// split at a's head
			ha, hb := a.a.w, uint8(0)
			if b.op == OConcat {
				hb = b.a.w
			}
			n := ha
			if hb != 0 && hb < n {
				n = hb
			}
			hi := tt.Eq(tt.Extract(a, w-n, n), tt.Extract(b, w-n, n))
			if hi == tt.False {
				return hi
			}
			lo := tt.Eq(tt.Extract(a, 0, w-n), tt.Extract(b, 0, w-n))
			return tt.BAnd(hi, lo)
		}
		if b.op == OConcat && !a.isC() && b.a.isC() {
			n := b.a.w
			hi := tt.Eq(tt.Extract(a, w-n, n), b.a)
			if hi == tt.False {
				return hi
			}
			return tt.BAnd(hi, tt.Eq(tt.Extract(a, 0, w-n), b.b))
		}
	case OUlt:
		if a == b || a.lo >= b.hi {
			return tt.False
		}
		if a.hi < b.lo {
			return tt.True
		}
		if x, y, ok := tt.stripHi(a, b); ok {
			return tt.Ult(x, y)
		}
		if b.isC() && b.k == 1 {
			return tt.Eq(a, tt.Const(w, 0))
		}
	case OUle:
		if a == b || a.hi <= b.lo {
			return tt.True
		}
		if a.lo > b.hi {
			return tt.False
		}
		if x, y, ok := tt.stripHi(a, b); ok {
			return tt.Ule(x, y)
		}
		if b.isC() && b.k == 0 {
			return tt.Eq(a, b)
		}
		if a.isC() && a.k == 1 {
			return tt.BNot(tt.Eq(b, tt.Const(w, 0)))
		}
	case OSlt, OSle:
		if op == OSlt && a.shi < b.slo || op == OSle && a.shi <= b.slo {
			return tt.True
		}
		if op == OSlt && a.slo >= b.shi || op == OSle && a.slo > b.shi {
			return tt.False
		}
		// x*c < y*c with no overflow
		if a.op == OMul && b.op == OMul && a.b == b.b && a.b.isC() {
			if k := sx(a.b.k, w); k > 0 && mulFits(a.a, k, w) && mulFits(b.a, k, w) {
				return tt.bin(op, a.a, b.a)
			}
		}
		half := uint64(1) << (w - 1)
		if a.hi < half && b.hi < half || a.lo >= half && b.lo >= half {
			if op == OSlt {
				return tt.Ult(a, b)
			}
			return tt.Ule(a, b)
		}
		if a.hi < half && b.lo >= half {
			return tt.False
		}
		if a.lo >= half && b.hi < half {
			return tt.True
		}
		if a == b {
			return tt.Bool(op == OSle)
		}
		// x < 0 -> top bit
		if op == OSlt && b.isC() && b.k == 0 {
			return tt.Eq(tt.Extract(a, w-1, 1), tt.Const(1, 1))
		}
		if op == OSle && a.isC() && a.k == 0 {
			return tt.Eq(tt.Extract(b, w-1, 1), tt.Const(1, 0))
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return tt.bin(op, a.a, b.a)
		}
	case OBAnd:
		if a == b {
			return a
		}
		if b.isC() {
			if b.k == 1 {
				return a
			}
			return b
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return tt.False
		}
	case OBOr:
		if a == b {
			return a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			return b
		}
		if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
			return tt.True
		}
	}
	return tt.mk(op, rw, 0, a, b, nil)
}

// stripHi removes common known-zero high bits from an unsigned comparison.
func (tt *TermTab) stripHi(a, b *Term) (*Term, *Term, bool) {
	h := a.hi | b.hi
	n := uint8(bits.Len64(h))
	if n == 0 || n >= a.w {
		return nil, nil, false
	}
	return tt.Extract(a, 0, n), tt.Extract(b, 0, n), true
}

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return tt.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isC() && b.isC() {
			if a.k == 1 {
				return c
			}
			return tt.BNot(c)
		}
		if a.isC() {
			if a.k == 1 {
				return tt.BOr(c, b)
			}
			return tt.BAnd(tt.BNot(c), b)
		}
		if b.isC() {
			if b.k == 1 {
				return tt.BOr(tt.BNot(c), a)
			}
			return tt.BAnd(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		return tt.Ite(c, a.b, b)
	}
	if b.op == OIte && b.a == c {
		return tt.Ite(c, a, b.c)
	}
	return tt.mk(OIte, a.w, 0, c, a, b)
}

func (tt *TermTab) FConv(op Op, w uint8, a *Term) *Term {
	if a.isC() {
		return tt.Const(w, evalFConv(op, w, a.w, a.k))
	}
	if w == 64 && (op == OFTrunc || op == OFFloor) {
		if r := tt.dyadTrunc(a); r != nil {
			return r
		}
	}
	return tt.mk(op, w, 0, a, nil, nil)
}

// model evaluation
type Model []uint64

func (m Model) get(i int32) uint64 {
	if int(i) < len(m) {
		return m[i]
	}
	return 0
}

func (tt *TermTab) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.op == OVar {
		return m.get(int32(t.k)) & mask(t.w)
	}
	if t.evGen == tt.gen {
		return t.ev
	}
	var v uint64
	switch t.op {
	case ONot:
		v = ^tt.Eval(t.a, m) & mask(t.w)
	case OBNot:
		v = 1 - tt.Eval(t.a, m)
	case OConcat:
		v = tt.Eval(t.a, m)<<t.b.w | tt.Eval(t.b, m)
	case OExtract:
		v = tt.Eval(t.a, m) >> t.k & mask(t.w)
	case OSExt:
		v = uint64(sx(tt.Eval(t.a, m), t.a.w)) & mask(t.w)
	case OIte:
		if tt.Eval(t.a, m) == 1 {
			v = tt.Eval(t.b, m)
		} else {
			v = tt.Eval(t.c, m)
		}
	case OFFromS, OFFromU, OFToS, OFToU, OFConv, OFFloor, OFCeil, OFTrunc:
		v = evalFConv(t.op, t.w, t.a.w, tt.Eval(t.a, m))
	default:
		v = evalBin(t.op, t.w, t.a.w, tt.Eval(t.a, m), tt.Eval(t.b, m))
	}
	t.ev, t.evGen = v, tt.gen
	return v
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func fpSort(w uint8) string {
	if w == 64 {
		return "11 53"
	}
	return "8 24"
}

// body prints one node referring to its children by name.
func (t *Term) body(name func(*Term) string) string {
	fp := func(x *Term) string { return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(x.w), name(x)) }
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, name(t.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, name(t.a))
	case ONot, OBNot:
		return "(" + opNames[t.op] + " " + name(t.a) + ")"
	case OIte:
		return "(ite " + name(t.a) + " " + name(t.b) + " " + name(t.c) + ")"
	case OFAdd, OFSub, OFMul, OFDiv:
		o := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", o, fp(t.a), fp(t.b))
	case OFLt, OFLe, OFEq:
		o := map[Op]string{OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}[t.op]
		return fmt.Sprintf("(%s %s %s)", o, fp(t.a), fp(t.b))
	case OFFromS:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), name(t.a))
	case OFFromU:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), name(t.a))
	case OFFloor, OFCeil, OFTrunc:
		o := map[Op]string{OFFloor: "RTN", OFCeil: "RTP", OFTrunc: "RTZ"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral %s %s))", o, fp(t.a))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fp(t.a))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, fp(t.a))
	case OFConv:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), fp(t.a))
	}
	return "(" + opNames[t.op] + " " + name(t.a) + " " + name(t.b) + ")"
}

func leafName(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.k)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.k)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	return ""
}

func (t *Term) String() string {
	var f func(t *Term, d int) string
	f = func(t *Term, d int) string {
		if s := leafName(t); s != "" {
			return s
		}
		if d > 8 {
			return "..."
		}
		return t.body(func(x *Term) string { return f(x, d+1) })
	}
	return strings.TrimSpace(f(t, 0))
}
