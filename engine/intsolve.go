package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Translation of bit-vector constraints to linear integer arithmetic, for
// queries about times: division and multiplication by constants is hard for
// bit-blasting and easy there. The translation is exact. A term t of width w
// is an integer expression e with e = t (mod 2^w) and a range of e; where the
// value itself matters, e is reduced to its unsigned or signed value, which
// costs nothing if the range shows that e is that value.
//
// Expressions are sums of atoms with coefficients. Remainders are expressed
// by quotients, so that sums of products and quotients cancel where they do:
// x/c*k + x%c*k/c is x*k/c.

// atom is an integer with a name.
type atom struct {
	id     int
	name   string
	lo, hi *big.Int
	num    *lin // set if the atom is num divided by den, rounded down
	den    *big.Int
}

type linTerm struct {
	a *atom
	k *big.Int
}

// lin is the sum of ts and c.
type lin struct {
	ts     []linTerm // by atom id
	c      *big.Int
	lo, hi *big.Int
	name   string // if it has been named
}

type intTr struct {
	tt   *TermTab
	memo map[int32]*lin
	bm   map[int32]string // booleans
	um   map[int32]*lin   // reduced to unsigned
	sm   map[int32]*lin   // reduced to signed
	divs map[string]*lin
	vars map[int32]*lin
	sb   strings.Builder
	n    int
	ids  int
	bad  bool
	why  Op
	free int                // quotients that are left open
	ulo  map[int32]*big.Int // bounds of variables, from the constraints
	uhi  map[int32]*big.Int
	slo  map[int32]*big.Int
	shi  map[int32]*big.Int
}

func bigU(v uint64) *big.Int       { return new(big.Int).SetUint64(v) }
func bigS(v int64) *big.Int        { return big.NewInt(v) }
func pow2(k int) *big.Int          { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
func bmul(a, b *big.Int) *big.Int  { return new(big.Int).Mul(a, b) }
func badd(a, b *big.Int) *big.Int  { return new(big.Int).Add(a, b) }
func bsub(a, b *big.Int) *big.Int  { return new(big.Int).Sub(a, b) }
func bneg(a *big.Int) *big.Int     { return new(big.Int).Neg(a) }
func floor(a, b *big.Int) *big.Int { return new(big.Int).Div(a, b) } // b > 0
func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func bstr(a *big.Int) string {
	if a.Sign() < 0 {
		return "(- " + bneg(a).String() + ")"
	}
	return a.String()
}

// def names an expression.
func (x *intTr) def(sort, e string) string {
	x.n++
	fmt.Fprintf(&x.sb, "(define-fun i%d () %s %s)\n", x.n, sort, e)
	return fmt.Sprintf("i%d", x.n)
}

func (x *intTr) boolE(e string) string {
	if e == "true" || e == "false" {
		return e
	}
	return x.def("Bool", e)
}

func constLin(c *big.Int) *lin { return &lin{c: c, lo: c, hi: c} }

// isC reports a constant.
func (l *lin) isC() bool { return len(l.ts) == 0 }

// newAtom is an atom for an expression.
func (x *intTr) newAtom(name string, lo, hi *big.Int) *lin {
	x.ids++
	return &lin{ts: []linTerm{{&atom{id: x.ids, name: name, lo: lo, hi: hi}, bigS(1)}}, c: bigS(0), lo: lo, hi: hi, name: name}
}

func (x *intTr) atomE(e string, lo, hi *big.Int) *lin { return x.newAtom(x.def("Int", e), lo, hi) }

// str is the expression in SMT-LIB.
func (x *intTr) str(l *lin) string {
	if l.name != "" {
		return l.name
	}
	var s []string
	for _, t := range l.ts {
		if t.k.Cmp(bigS(1)) == 0 {
			s = append(s, t.a.name)
		} else {
			s = append(s, "(* "+bstr(t.k)+" "+t.a.name+")")
		}
	}
	if l.c.Sign() != 0 || len(s) == 0 {
		s = append(s, bstr(l.c))
	}
	if len(s) == 1 {
		l.name = s[0]
	} else {
		l.name = x.def("Int", "(+ "+strings.Join(s, " ")+")")
	}
	return l.name
}

// key identifies the expression.
func (l *lin) key() string {
	var sb strings.Builder
	for _, t := range l.ts {
		fmt.Fprintf(&sb, "%d*%s+", t.a.id, t.k)
	}
	sb.WriteString(l.c.String())
	return sb.String()
}

// bounds is the range that follows from the atoms.
func (x *intTr) bounds(l *lin, depth int) (lo, hi *big.Int) {
	lo, hi = l.c, l.c
	used := make([]bool, len(l.ts))
	for i, t := range l.ts {
		if used[i] {
			continue
		}
		if t.a.num != nil && depth < 3 {
			// the difference of two quotients by the same divisor
			for j := i + 1; j < len(l.ts); j++ {
				u := l.ts[j]
				if used[j] || u.a.num == nil || u.a.den.Cmp(t.a.den) != 0 || u.k.Cmp(bneg(t.k)) != 0 {
					continue
				}
				d := x.sum(t.a.num, u.a.num, bigS(-1), depth+1)
				dl, dh := floor(d.lo, t.a.den), badd(floor(d.hi, t.a.den), bigS(1))
				p, q := bmul(dl, t.k), bmul(dh, t.k)
				lo, hi = badd(lo, bmin(p, q)), badd(hi, bmax(p, q))
				used[i], used[j] = true, true
				break
			}
			if used[i] {
				continue
			}
		}
		p, q := bmul(t.a.lo, t.k), bmul(t.a.hi, t.k)
		lo, hi = badd(lo, bmin(p, q)), badd(hi, bmax(p, q))
	}
	return
}

// sum is p + k*q.
func (x *intTr) sum(p, q *lin, k *big.Int, depth int) *lin {
	r := &lin{c: badd(p.c, bmul(q.c, k))}
	i, j := 0, 0
	for i < len(p.ts) || j < len(q.ts) {
		switch {
		case j == len(q.ts) || i < len(p.ts) && p.ts[i].a.id < q.ts[j].a.id:
			r.ts = append(r.ts, p.ts[i])
			i++
		case i == len(p.ts) || p.ts[i].a.id > q.ts[j].a.id:
			r.ts = append(r.ts, linTerm{q.ts[j].a, bmul(q.ts[j].k, k)})
			j++
		default:
			if c := badd(p.ts[i].k, bmul(q.ts[j].k, k)); c.Sign() != 0 {
				r.ts = append(r.ts, linTerm{p.ts[i].a, c})
			}
			i++
			j++
		}
	}
	r.lo, r.hi = x.bounds(r, depth)
	a, b := bmul(q.lo, k), bmul(q.hi, k)
	r.lo = bmax(r.lo, badd(p.lo, bmin(a, b)))
	r.hi = bmin(r.hi, badd(p.hi, bmax(a, b)))
	return r
}

func (x *intTr) add(p, q *lin) *lin { return x.sum(p, q, bigS(1), 0) }
func (x *intTr) sub(p, q *lin) *lin { return x.sum(p, q, bigS(-1), 0) }

func (x *intTr) scale(p *lin, k *big.Int) *lin {
	if k.Sign() == 0 {
		return constLin(bigS(0))
	}
	r := &lin{c: bmul(p.c, k)}
	for _, t := range p.ts {
		r.ts = append(r.ts, linTerm{t.a, bmul(t.k, k)})
	}
	a, b := bmul(p.lo, k), bmul(p.hi, k)
	r.lo, r.hi = bmin(a, b), bmax(a, b)
	return r
}

func (x *intTr) addC(p *lin, c *big.Int) *lin { return x.add(p, constLin(c)) }

// div is p divided by c > 0, rounded down.
func (x *intTr) div(p *lin, c *big.Int) *lin {
	if c.Cmp(bigS(1)) == 0 {
		return p
	}
	lo, hi := floor(p.lo, c), floor(p.hi, c)
	if lo.Cmp(hi) == 0 {
		return constLin(lo)
	}
	// multiples of c come out
	out := constLin(floor(p.c, c))
	rest := &lin{c: bsub(p.c, bmul(floor(p.c, c), c))}
	g := c
	for _, t := range p.ts {
		q := new(big.Int).Quo(t.k, c)
		if r := new(big.Int).Rem(t.k, c); r.Sign() != 0 {
			if q.Sign() != 0 && bmul(q, c).Cmp(t.k) != 0 {
				// keep k whole unless it is a multiple
				q = bigS(0)
				r = t.k
			}
			rest.ts = append(rest.ts, linTerm{t.a, r})
			g = new(big.Int).GCD(nil, nil, new(big.Int).Abs(r), g)
		}
		if q.Sign() != 0 {
			out.ts = append(out.ts, linTerm{t.a, q})
		}
	}
	out.lo, out.hi = x.bounds(out, 0)
	if len(rest.ts) == 0 {
		out.lo, out.hi = bmax(out.lo, lo), bmin(out.hi, hi)
		return out
	}
	if g.Cmp(bigS(1)) > 0 {
		for i := range rest.ts {
			rest.ts[i].k = new(big.Int).Quo(rest.ts[i].k, g)
		}
		rest.c = floor(rest.c, g)
		c = new(big.Int).Quo(c, g)
	}
	rest.lo, rest.hi = x.bounds(rest, 0)
	if out.isC() {
		// what is known of p is known of the rest
		k := bmul(out.c, bmul(c, g))
		rest.lo = bmax(rest.lo, floor(bsub(p.lo, k), g))
		rest.hi = bmin(rest.hi, floor(bsub(p.hi, k), g))
	}
	var q *lin
	if rl, rh := floor(rest.lo, c), floor(rest.hi, c); rl.Cmp(rh) == 0 {
		q = constLin(rl)
	} else {
		k := rest.key() + "/" + c.String()
		if q = x.divs[k]; q == nil {
			q = x.atomE("(div "+x.str(rest)+" "+c.String()+")", rl, rh)
			q.ts[0].a.num, q.ts[0].a.den = rest, c
			x.divs[k] = q
		}
	}
	r := x.add(out, q)
	r.lo, r.hi = bmax(r.lo, lo), bmin(r.hi, hi)
	return r
}

// mod is the remainder of p divided by c > 0, not negative.
func (x *intTr) mod(p *lin, c *big.Int) *lin {
	r := x.sum(p, x.div(p, c), bneg(c), 0)
	r.lo, r.hi = bmax(r.lo, bigS(0)), bmin(r.hi, bsub(c, bigS(1)))
	return r
}

func (x *intTr) fail(op Op) *lin {
	if !x.bad {
		x.why = op
	}
	x.bad = true
	return constLin(bigS(0))
}

func within(r *lin, lo, hi *big.Int) bool { return r.lo.Cmp(lo) >= 0 && r.hi.Cmp(hi) <= 0 }

// U is the unsigned value of t.
func (x *intTr) U(t *Term) *lin {
	if r, ok := x.um[t.id]; ok {
		return r
	}
	r := x.tr(t)
	m := pow2(int(t.w))
	if !within(r, bigS(0), bsub(m, bigS(1))) {
		r = x.mod(r, m)
		// what the term is known to be holds for its unsigned value
		r.lo, r.hi = bmax(r.lo, bigU(t.lo)), bmin(r.hi, bigU(t.hi))
	}
	x.um[t.id] = r
	return r
}

// S is the signed value of t.
func (x *intTr) S(t *Term) *lin {
	if r, ok := x.sm[t.id]; ok {
		return r
	}
	r := x.tr(t)
	m, h := pow2(int(t.w)), pow2(int(t.w)-1)
	if !within(r, bneg(h), bsub(h, bigS(1))) {
		r = x.addC(x.mod(x.addC(r, h), m), bneg(h))
		r.lo, r.hi = bmax(r.lo, bigS(t.slo)), bmin(r.hi, bigS(t.shi))
	}
	x.sm[t.id] = r
	return r
}

// less is p < q (or p <= q).
func (x *intTr) less(p, q *lin, eq bool) string {
	d := x.sub(p, q)
	op, k := "<", bigS(0)
	if eq {
		op, k = "<=", bigS(1)
	}
	switch {
	case d.hi.Cmp(k) < 0:
		return "true"
	case d.lo.Cmp(k) >= 0:
		return "false"
	}
	return x.boolE("(" + op + " " + x.str(d) + " 0)")
}

// B is a boolean term.
func (x *intTr) B(t *Term) string {
	if t.w != 0 {
		panic("intTr: not boolean")
	}
	if r, ok := x.bm[t.id]; ok {
		return r
	}
	r := x.b1(t)
	x.bm[t.id] = r
	return r
}

func (x *intTr) b1(t *Term) string {
	if x.bad {
		return "true"
	}
	switch t.op {
	case OConst, OVar:
		return leafName(t)
	case OBNot:
		switch p := x.B(t.a); p {
		case "true":
			return "false"
		case "false":
			return "true"
		default:
			return x.boolE("(not " + p + ")")
		}
	case OBAnd:
		return x.boolE("(and " + x.B(t.a) + " " + x.B(t.b) + ")")
	case OBOr:
		return x.boolE("(or " + x.B(t.a) + " " + x.B(t.b) + ")")
	case OIte:
		return x.boolE("(ite " + x.B(t.a) + " " + x.B(t.b) + " " + x.B(t.c) + ")")
	case OEq:
		if t.a.w == 0 {
			return x.boolE("(= " + x.B(t.a) + " " + x.B(t.b) + ")")
		}
		// equal if the difference is a multiple of 2^w
		d := x.sub(x.tr(t.a), x.tr(t.b))
		m := pow2(int(t.a.w))
		if within(d, bneg(m), m) && d.lo.Cmp(bneg(m)) > 0 && d.hi.Cmp(m) < 0 {
			if d.isC() {
				if d.c.Sign() == 0 {
					return "true"
				}
				return "false"
			}
			if d.lo.Sign() > 0 || d.hi.Sign() < 0 {
				return "false"
			}
			return x.boolE("(= " + x.str(d) + " 0)")
		}
		return x.boolE("(= " + x.str(x.U(t.a)) + " " + x.str(x.U(t.b)) + ")")
	case OUlt, OUle:
		return x.less(x.U(t.a), x.U(t.b), t.op == OUle)
	case OSlt, OSle:
		return x.less(x.S(t.a), x.S(t.b), t.op == OSle)
	}
	x.fail(t.op)
	return "true"
}

func (x *intTr) tr(t *Term) *lin {
	if r, ok := x.memo[t.id]; ok {
		return r
	}
	r := x.tr1(t)
	x.memo[t.id] = r
	return r
}

// small is tr(t), or the unsigned value if that has become large.
func (x *intTr) small(t *Term) *lin {
	p := x.tr(t)
	if m := pow2(int(t.w)); !within(p, bneg(m), m) {
		return x.U(t)
	}
	return p
}

func (x *intTr) tr1(t *Term) *lin {
	if x.bad {
		return constLin(bigS(0))
	}
	switch t.op {
	case OConst:
		// the representative nearer to zero
		k := bigU(t.k)
		if t.w > 1 && t.k>>(t.w-1) == 1 {
			k = bigS(sx(t.k, t.w))
		}
		return constLin(k)
	case OVar:
		return x.vars[int32(t.k)]
	case OIte:
		c := x.B(t.a)
		p, q := x.tr(t.b), x.tr(t.c)
		switch c {
		case "true":
			return p
		case "false":
			return q
		}
		return x.atomE("(ite "+c+" "+x.str(p)+" "+x.str(q)+")", bmin(p.lo, q.lo), bmax(p.hi, q.hi))
	case OAdd:
		return x.add(x.tr(t.a), x.tr(t.b))
	case OSub:
		return x.sub(x.tr(t.a), x.tr(t.b))
	case OMul:
		a, b := t.a, t.b
		if a.isC() {
			a, b = b, a
		}
		if !b.isC() {
			return x.mulChain(a, b)
		}
		return x.scale(x.small(a), x.tr(b).c)
	case OShl:
		if !t.b.isC() || t.b.k >= uint64(t.w) {
			return x.fail(t.op)
		}
		return x.scale(x.small(t.a), pow2(int(t.b.k)))
	case OLshr:
		if !t.b.isC() || t.b.k >= uint64(t.w) {
			return x.fail(t.op)
		}
		return x.div(x.U(t.a), pow2(int(t.b.k)))
	case OAshr:
		if !t.b.isC() || t.b.k >= uint64(t.w) {
			return x.fail(t.op)
		}
		return x.div(x.S(t.a), pow2(int(t.b.k)))
	case OUDiv, OURem:
		if !t.b.isC() {
			return x.divChain(t, x.U(t.a), x.U(t.b))
		}
		if t.b.k == 0 {
			return x.fail(t.op)
		}
		if t.op == OUDiv {
			return x.div(x.U(t.a), bigU(t.b.k))
		}
		return x.mod(x.U(t.a), bigU(t.b.k))
	case OSDiv, OSRem:
		if !t.b.isC() {
			return x.divChain(t, x.S(t.a), x.S(t.b))
		}
		if sx(t.b.k, t.w) <= 0 {
			return x.fail(t.op)
		}
		c := bigU(t.b.k)
		p := x.S(t.a)
		q := x.quo(p, c)
		if t.op == OSDiv {
			return q
		}
		r := x.sum(p, q, bneg(c), 0)
		d := bsub(c, bigS(1))
		lo, hi := bneg(d), d
		if p.lo.Sign() >= 0 {
			lo = bigS(0)
		}
		if p.hi.Sign() <= 0 {
			hi = bigS(0)
		}
		r.lo, r.hi = bmax(r.lo, lo), bmin(r.hi, hi)
		return r
	case ONot:
		return x.addC(x.scale(x.tr(t.a), bigS(-1)), bigS(-1))
	case OAnd:
		a, b := t.a, t.b
		if a.isC() {
			a, b = b, a
		}
		if !b.isC() || b.k == 0 {
			return x.fail(t.op)
		}
		if b.k&(b.k+1) == 0 { // low bits
			return x.mod(x.tr(a), badd(bigU(b.k), bigS(1)))
		}
		if n := ^b.k & mask(t.w); n&(n+1) == 0 { // high bits
			p := x.U(a)
			return x.sub(p, x.mod(p, badd(bigU(n), bigS(1))))
		}
		return x.fail(t.op)
	case OConcat:
		return x.add(x.scale(x.tr(t.a), pow2(int(t.b.w))), x.U(t.b))
	case OExtract:
		return x.div(x.tr(t.a), pow2(int(t.k)))
	case OSExt:
		return x.S(t.a)
	}
	return x.fail(t.op)
}

// quo is p divided by c, rounded towards zero.
func (x *intTr) quo(p *lin, c *big.Int) *lin {
	if p.lo.Sign() >= 0 {
		return x.div(p, c)
	}
	n := x.scale(x.div(x.scale(p, bigS(-1)), c), bigS(-1))
	if p.hi.Sign() <= 0 {
		return n
	}
	return x.atomE(fmt.Sprintf("(ite (>= %s 0) %s %s)", x.str(p), x.str(x.div(p, c)), x.str(n)),
		new(big.Int).Quo(p.lo, c), new(big.Int).Quo(p.hi, c))
}

const chain = 10

// divChain is a quotient or remainder by a variable: exact for quotients
// below chain, anything for others and for negative operands. This leaves
// the query weaker, never stronger.
func (x *intTr) divChain(t *Term, pl, ql *lin) *lin {
	x.free++
	f := fmt.Sprintf("f%d", x.free)
	fmt.Fprintf(&x.sb, "(declare-const %s Int)\n", f)
	lo, hi := bigS(0), bsub(pow2(int(t.w)), bigS(1))
	if t.op == OSDiv || t.op == OSRem {
		h := pow2(int(t.w) - 1)
		lo, hi = bneg(h), bsub(h, bigS(1))
	}
	div := t.op == OUDiv || t.op == OSDiv
	p, q := x.str(pl), x.str(ql)
	e := f
	for k := chain - 1; k >= 0; k-- {
		v := fmt.Sprint(k)
		if !div {
			v = fmt.Sprintf("(- %s (* %d %s))", p, k, q)
		}
		e = fmt.Sprintf("(ite (< %s (* %d %s)) %s %s)", p, k+1, q, v, e)
	}
	fmt.Fprintf(&x.sb, "(assert (and (<= %s %s) (<= %s %s)))\n", bstr(lo), f, f, hi)
	if div {
		// a quotient of at least chain
		fmt.Fprintf(&x.sb, "(assert (=> (and (>= %s 0) (> %s 0) (>= %s (* %d %s))) (and (>= %s %d) (<= %s %s))))\n", p, q, p, chain, q, f, chain, f, p)
	} else {
		fmt.Fprintf(&x.sb, "(assert (=> (and (>= %s 0) (> %s 0)) (and (>= %s 0) (< %s %s))))\n", p, q, f, f, q)
	}
	e = fmt.Sprintf("(ite (and (>= %s 0) (> %s 0)) %s %s)", p, q, e, f)
	return x.atomE(e, lo, hi)
}

// quot reports whether t is made of quotients.
func quot(t *Term) bool {
	switch t.op {
	case OUDiv, OSDiv:
		return true
	case OAdd, OSub:
		return quot(t.a) || quot(t.b)
	case OConcat:
		return quot(t.b)
	case OSExt, OExtract:
		return quot(t.a)
	}
	return false
}

// mulChain is a product of variables of which one is small. If neither is
// known to be, it is exact for a factor of 0..16 and anything for others.
func (x *intTr) mulChain(a, b *Term) *lin {
	small := func(r *lin) bool { return bsub(r.hi, r.lo).Cmp(bigS(32)) <= 0 && r.lo.IsInt64() }
	p, q := x.small(a), x.small(b)
	if !small(q) && small(p) {
		p, q = q, p
	}
	if small(q) {
		e := "0"
		w, v := bmul(p.lo, q.lo), bmul(p.lo, q.hi)
		y, z := bmul(p.hi, q.lo), bmul(p.hi, q.hi)
		lo, hi := bmin(bmin(w, v), bmin(y, z)), bmax(bmax(w, v), bmax(y, z))
		for k := q.lo.Int64(); k <= q.hi.Int64(); k++ {
			e = fmt.Sprintf("(ite (= %s %s) (* %s %s) %s)", x.str(q), bstr(bigS(k)), bstr(bigS(k)), x.str(p), e)
		}
		return x.atomE(e, lo, hi)
	}
	if quot(a) {
		a, b = b, a
	}
	if !quot(b) {
		return x.fail(OMul)
	}
	p, q = x.small(a), x.S(b)
	x.free++
	e := fmt.Sprintf("f%d", x.free)
	m := pow2(int(a.w) + 8)
	fmt.Fprintf(&x.sb, "(declare-const %s Int)\n(assert (and (<= (- %s) %s) (< %s %s)))\n", e, m, e, e, m)
	for k := 0; k <= 16; k++ {
		e = fmt.Sprintf("(ite (= %s %d) (* %d %s) %s)", x.str(q), k, k, x.str(p), e)
	}
	return x.atomE(e, bneg(m), m)
}

// bound records what a constraint says about a variable.
func (x *intTr) bound(t *Term) {
	if t.op == OBAnd {
		x.bound(t.a)
		x.bound(t.b)
		return
	}
	neg := t.op == OBNot
	if neg {
		t = t.a
		if t.op == OBOr {
			x.bound(x.tt.BNot(t.a))
			x.bound(x.tt.BNot(t.b))
			return
		}
	}
	if t.a == nil || t.b == nil || t.a.w == 0 {
		return
	}
	signed := t.op == OSlt || t.op == OSle
	strict := t.op == OUlt || t.op == OSlt
	if t.op != OUlt && t.op != OUle && t.op != OEq && !signed {
		return
	}
	strip := func(v *Term) *Term {
		for v.op == OConcat && v.a.isC() && v.a.k == 0 && !signed {
			v = v.b
		}
		return v
	}
	ml, mh := x.ulo, x.uhi
	val := func(c *Term) *big.Int { return bigU(c.k) }
	if signed {
		ml, mh = x.slo, x.shi
		val = func(c *Term) *big.Int { return bigS(sx(c.k, c.w)) }
	}
	set := func(m map[int32]*big.Int, v *Term, k *big.Int, f func(a, b *big.Int) *big.Int) {
		if o, ok := m[int32(v.k)]; ok {
			k = f(o, k)
		}
		m[int32(v.k)] = k
	}
	up := func(v *Term, k *big.Int) { set(mh, v, k, bmin) }
	dn := func(v *Term, k *big.Int) { set(ml, v, k, bmax) }
	one := bigS(1)
	a, b := t.a, t.b
	switch {
	case b.isC() && strip(a).op == OVar:
		v, k := strip(a), val(b)
		switch {
		case t.op == OEq && !neg:
			up(v, k)
			dn(v, k)
		case t.op == OEq:
		case strict && !neg: // v < k
			up(v, bsub(k, one))
		case !neg: // v <= k
			up(v, k)
		case strict: // v >= k
			dn(v, k)
		default: // v > k
			dn(v, badd(k, one))
		}
	case a.isC() && strip(b).op == OVar:
		v, k := strip(b), val(a)
		switch {
		case t.op == OEq && !neg:
			up(v, k)
			dn(v, k)
		case t.op == OEq:
		case strict && !neg: // k < v
			dn(v, badd(k, one))
		case !neg: // k <= v
			dn(v, k)
		case strict: // k >= v
			up(v, k)
		default: // k > v
			up(v, bsub(k, one))
		}
	}
}

// declare declares a variable. One with signed bounds stands for its signed
// value, others for the unsigned one.
func (x *intTr) declare(v int32, w uint8) {
	if w == 0 {
		fmt.Fprintf(&x.sb, "(declare-const v%d Bool)\n", v)
		return
	}
	lo, hi := bigS(0), bigU(mask(w))
	blo, bhi := x.ulo[v], x.uhi[v]
	if x.slo[v] != nil || x.shi[v] != nil {
		h := pow2(int(w) - 1)
		if x.slo[v] != nil && x.slo[v].Sign() >= 0 {
			hi = bsub(h, bigS(1))
			if bhi == nil {
				bhi = hi
			}
			if blo == nil {
				blo = lo
			}
		} else {
			lo, hi = bneg(h), bsub(h, bigS(1))
			if bhi == nil || bhi.Cmp(hi) > 0 {
				blo, bhi = lo, hi
			} else { // not negative
				blo = bmax(bigS(0), lo)
			}
		}
		if x.slo[v] != nil {
			blo = bmax(blo, x.slo[v])
		}
		if x.shi[v] != nil {
			bhi = bmin(bhi, x.shi[v])
		}
	}
	if blo != nil {
		lo = bmax(lo, blo)
	}
	if bhi != nil {
		hi = bmin(hi, bhi)
	}
	// the constraints these bounds are from may be left out below
	fmt.Fprintf(&x.sb, "(declare-const v%d Int)\n(assert (and (<= %s v%d) (<= v%d %s)))\n", v, bstr(lo), v, v, bstr(hi))
	if lo.Cmp(hi) > 0 {
		lo, hi = hi, lo // there is no such value
	}
	x.vars[v] = x.newAtom(fmt.Sprintf("v%d", v), lo, hi)
}

// intQuery translates the conjunction. ok is false if it cannot be.
func intQuery(tt *TermTab, list []*Term, vl []int) (q string, ok bool) {
	x := &intTr{tt: tt, memo: map[int32]*lin{}, bm: map[int32]string{}, um: map[int32]*lin{}, sm: map[int32]*lin{},
		divs: map[string]*lin{}, vars: map[int32]*lin{},
		ulo: map[int32]*big.Int{}, uhi: map[int32]*big.Int{}, slo: map[int32]*big.Int{}, shi: map[int32]*big.Int{}}
	for _, c := range list {
		x.bound(c)
	}
	sort.Ints(vl)
	for _, v := range vl {
		x.declare(int32(v), tt.vars[v].w)
	}
	for _, c := range list {
		e := x.B(c)
		if x.bad {
			fmt.Fprintln(dbgw, "no integer translation:", opNames[x.why], x.why)
			return "", false
		}
		fmt.Fprintf(&x.sb, "(assert %s)\n", e)
	}
	return x.sb.String(), true
}
