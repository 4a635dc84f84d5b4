package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type endKind int

const (
	endOK endKind = iota
	endAssume
	endUnsupported
	endSteps
	endViolation
	endKilled
	endUnknown
)

type pathEnd struct {
	kind endKind
	msg  string
}

type goPanic struct {
	v       Val // interface value
	msg     string
	where   string
	runtime bool
	stack   string
	goexit  bool
}

type specAbort struct{}

type Decision struct {
	taken   bool
	implied bool
	h       uint32
	val     uint64
}

type decNode struct {
	parent *decNode
	d      Decision
	n      int
}

type Task struct {
	dec   *decNode
	model Model
}

type Input struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	t    *Term
	Val  uint64 `json:"val"`
	Kind string `json:"kind"`
}

type G struct {
	id    int
	wake  chan struct{}
	ready func() bool
	done  bool
	name  string
	depth int
	top   *frame
}

type Interp struct {
	eng     *Engine
	tt      *TermTab
	sol     *Solver
	epoch   int32
	journal []func()
	globals map[*ssa.Global]*Obj
	inited  map[*ssa.Package]bool

	// per path
	prefix   []Decision
	di       int
	decs     *decNode
	pc       []*Term
	model    Model
	inputs   []Input
	nvar     map[string]int
	steps    int
	maxSteps int
	spec     int
	incompl  map[string]int
	obs      []obsRec
	covers   map[string]bool

	gs       []*G
	cur      *G
	killing  bool
	endPanic any
	preempt  int

	allocLimit  uint64
	allocTotal  *Term
	clock       *Term
	clockN      int
	mapNondet   bool
	stepIsHang  bool
	allowPanic  bool
	memoUF      map[string][]Val
	known       map[int32]uint64
	knownVars   map[int32]bool
	noKnown     bool
	obligations int
	side        map[string]any
	lastPos     string
	randCount   int
}

type obsRec struct {
	name string
	vals []Val
	w    uint8
}

func (in *Interp) unsupported(msg string) {
	panic(pathEnd{endUnsupported, msg})
}

func (in *Interp) beginPath(t *Task) {
	in.epoch++
	in.journal = in.journal[:0]
	n := 0
	if t.dec != nil {
		n = t.dec.n
	}
	in.prefix = make([]Decision, n)
	for d := t.dec; d != nil; d = d.parent {
		in.prefix[d.n-1] = d.d
	}
	in.di = 0
	in.decs = nil
	in.pc = in.pc[:0]
	in.model = append(Model(nil), t.model...)
	in.tt.gen++
	in.inputs = nil
	in.nvar = map[string]int{}
	in.steps = 0
	in.spec = 0
	in.obs = nil
	in.covers = map[string]bool{}
	in.gs = nil
	in.killing = false
	in.endPanic = nil
	in.preempt = 0
	in.allocLimit = 0
	in.allocTotal = in.tt.Const(64, 0)
	in.clock = nil
	in.clockN = 0
	in.mapNondet = false
	in.allowPanic = false
	in.memoUF = map[string][]Val{}
	in.known = map[int32]uint64{}
	in.knownVars = map[int32]bool{}
	in.noKnown = false
	in.side = map[string]any{}
	g := &G{id: 0, wake: make(chan struct{}, 1), name: "main"}
	in.gs = []*G{g}
	in.cur = g
}

func (in *Interp) endPath() {
	for i := len(in.journal) - 1; i >= 0; i-- {
		in.journal[i]()
	}
	in.journal = in.journal[:0]
}

func (in *Interp) freshVar(w uint8, name, kind string) *Term {
	// positional identity so that different paths share variables
	i := len(in.inputs)
	t := in.tt.Var(w, fmt.Sprintf("i%d", i))
	in.inputs = append(in.inputs, Input{Name: name, W: w, t: t, Kind: kind})
	return t
}

func (in *Interp) eval(t *Term) uint64 { return in.tt.Eval(t, in.model) }

func (in *Interp) setModel(m map[int32]uint64) {
	if len(m) == 0 {
		return
	}
	in.model = in.mergeModel(m)
	in.tt.gen++
}

func (in *Interp) mergeModel(m map[int32]uint64) Model {
	n := len(in.model)
	for i := range m {
		if int(i) >= n {
			n = int(i) + 1
		}
	}
	r := make(Model, n)
	copy(r, in.model)
	for i, v := range m {
		r[i] = v
	}
	return r
}

func (in *Interp) query(c *Term) (Res, map[int32]uint64) {
	cs := conjuncts(c, nil)
	return in.sol.Check(append(slicePC(in.pc, cs), cs...))
}

func conjuncts(c *Term, r []*Term) []*Term {
	if c.op == OBAnd {
		return conjuncts(c.b, conjuncts(c.a, r))
	}
	return append(r, c)
}

func (in *Interp) addPC(c *Term) {
	for _, x := range conjuncts(c, nil) {
		if !x.isC() {
			in.learn(x)
			in.pc = append(in.pc, x)
		}
	}
}

// learn records the value a path constraint fixes, and drops the
// disequalities it makes redundant.
func (in *Interp) learn(x *Term) {
	t, v := x, uint64(1)
	if t.op == OBNot {
		t, v = t.a, 0
	}
	if v == 1 && t.op == OEq && t.b.isC() && t.a.w > 0 {
		u := t.a
		k := 0
		for _, p := range in.pc {
			if p.op == OBNot && p.a.op == OEq && p.a.a == u && p.a.b.isC() {
				continue
			}
			in.pc[k] = p
			k++
		}
		in.pc = in.pc[:k]
		in.fix(u, t.b.k)
	}
	in.fix(t, v)
}

func (in *Interp) fix(t *Term, v uint64) {
	in.known[t.id] = v
	for _, i := range t.vars {
		in.knownVars[i] = true
	}
}

// kval is the value the path has already fixed for t, if it is easy to see.
func (in *Interp) kval(t *Term) (uint64, bool) {
	if t.isC() {
		return t.k, true
	}
	if len(in.known) == 0 || len(t.vars) > 64 {
		return 0, false
	}
	for _, i := range t.vars {
		if !in.knownVars[i] {
			return 0, false
		}
	}
	n := 0
	return in.kval1(t, &n)
}

func (in *Interp) kval1(t *Term, n *int) (uint64, bool) {
	if t.isC() {
		return t.k, true
	}
	if v, ok := in.known[t.id]; ok {
		return v, true
	}
	if *n++; t.op == OVar || *n > 400 || t.op >= OFAdd {
		return 0, false
	}
	switch t.op {
	case OIte:
		if c, ok := in.kval1(t.a, n); ok {
			if c == 1 {
				return in.kval1(t.b, n)
			}
			return in.kval1(t.c, n)
		}
		return 0, false
	case OBAnd, OBOr:
		short := uint64(0)
		if t.op == OBOr {
			short = 1
		}
		a, oka := in.kval1(t.a, n)
		if oka && a == short {
			return a, true
		}
		b, okb := in.kval1(t.b, n)
		if okb && b == short {
			return b, true
		}
		return 1 - short, oka && okb
	}
	var v [3]uint64
	for i, x := range []*Term{t.a, t.b, t.c} {
		if x == nil {
			continue
		}
		y, ok := in.kval1(x, n)
		if !ok {
			return 0, false
		}
		v[i] = y
	}
	var r uint64
	switch t.op {
	case OExtract:
		r = v[0] >> t.k & mask(t.w)
	case OConcat:
		r = v[0]<<t.b.w | v[1]
	case OSExt:
		r = uint64(sx(v[0], t.a.w)) & mask(t.w)
	case ONot:
		r = ^v[0] & mask(t.w)
	case OBNot:
		r = v[0] ^ 1
	case OIte:
		r = v[2]
		if v[0] == 1 {
			r = v[1]
		}
	default:
		if t.b == nil || t.c != nil {
			return 0, false
		}
		r = evalBin(t.op, t.w, t.a.w, v[0], v[1])
	}
	in.known[t.id] = r
	return r, true
}

func (in *Interp) pushDec(d Decision) {
	n := 1
	if in.decs != nil {
		n = in.decs.n + 1
	}
	in.decs = &decNode{in.decs, d, n}
}

// shape tells conditions apart, to notice a replay that differs. It depends
// on the variables only, as a term may be written in several ways.
func (in *Interp) shape(c *Term) uint32 {
	h := uint32(1)
	for _, v := range c.vars {
		h += uint32(v)*2654435761 + 97
	}
	return h
}

func (in *Interp) replaying() bool { return in.di < len(in.prefix) }

func (in *Interp) branch(c *Term) bool { return in.branchV(c, 0, true) }

func (in *Interp) branchV(c *Term, val uint64, explore bool) bool {
	if c.isC() {
		return c.k == 1
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	// in a replay the value to try comes from the decision, so there has to
	// be one
	if v, ok := in.kval(c); ok && !in.noKnown {
		return v == 1
	}
	if in.replaying() {
		d := in.prefix[in.di]
		if d.h != in.shape(c) {
			panic(pathEnd{endUnsupported, "replay went another way"})
		}
		in.di++
		in.pushDec(d)
		if !d.implied {
			if d.taken {
				in.addPC(c)
			} else {
				in.addPC(in.tt.BNot(c))
			}
		}
		return d.taken
	}
	v := in.eval(c) == 1
	other := c
	if v {
		other = in.tt.BNot(c)
	}
	d := Decision{taken: v, val: val, h: in.shape(c)}
	if explore {
		r, m := in.query(other)
		switch r {
		case Sat:
			n := 1
			if in.decs != nil {
				n = in.decs.n + 1
			}
			in.eng.push(&Task{&decNode{in.decs, Decision{taken: !v, val: val, h: in.shape(c)}, n}, in.mergeModel(m)})
		case Unsat:
			d.implied = true
		case Unknown:
			in.incomplete("solver unknown on branch")
		}
	} else {
		in.incomplete("concretisation cap")
	}
	in.pushDec(d)
	if !d.implied {
		if v {
			in.addPC(c)
		} else {
			in.addPC(in.tt.BNot(c))
		}
	}
	return v
}

func (in *Interp) incomplete(why string) { in.incompl[why]++ }

const concCap = 5000

func (in *Interp) concretize(t *Term) uint64 {
	if t.isC() {
		return t.k
	}
	if t.lo == t.hi {
		return t.lo
	}
	if in.spec == 0 {
		if v, ok := in.kval(t); ok {
			return v
		}
	}
	for n := 0; ; n++ {
		var v uint64
		if in.spec > 0 {
			panic(specAbort{})
		}
		if n == 8 && t.hi-t.lo < 1<<20 {
			// many values: split the range
			lo, hi := t.lo, t.hi
			for lo < hi {
				mid := lo + (hi-lo)/2
				if in.branch(in.tt.Ule(t, in.tt.Const(t.w, mid))) {
					hi = mid
				} else {
					lo = mid + 1
				}
			}
			in.addPC(in.tt.Eq(t, in.tt.Const(t.w, lo)))
			return lo
		}
		if in.replaying() {
			v = in.prefix[in.di].val
		} else {
			v = in.eval(t)
		}
		in.noKnown = true
		ok := in.branchV(in.tt.Eq(t, in.tt.Const(t.w, v)), v, n < concCap)
		in.noKnown = false
		if ok {
			return v
		}
	}
}

func (in *Interp) concInt(v Val) int {
	if v.p == nil {
		return int(int64(v.c))
	}
	return int(int64(in.concretize(in.term(v, 64))))
}

func (in *Interp) concVal(v Val) Val {
	if t, ok := v.p.(*Term); ok {
		return Val{c: in.concretize(t)}
	}
	return v
}

func (in *Interp) assume(c *Term) {
	if c.isC() {
		if c.k == 0 {
			panic(pathEnd{endAssume, ""})
		}
		return
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if in.eval(c) != 1 {
		r, m := in.query(c)
		switch r {
		case Unsat:
			panic(pathEnd{endAssume, ""})
		case Unknown:
			in.incomplete("solver unknown on assume")
			panic(pathEnd{endUnknown, "assume"})
		}
		in.setModel(m)
	}
	in.addPC(c)
}

func (in *Interp) assert(c *Term, msg string) {
	if !in.replaying() {
		in.obligations++
	}
	if c.isC() {
		if c.k == 0 {
			in.violation("assert", msg)
		}
		return
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	// whether the assertion became part of the path condition is recorded
	// like a branch, so that a replay has the same path condition
	if in.replaying() {
		d := in.prefix[in.di]
		if d.h != in.shape(c) {
			panic(pathEnd{endUnsupported, "replay went another way"})
		}
		in.di++
		in.pushDec(d)
		if d.implied {
			return
		}
		if in.eval(c) != 1 {
			// the parent continued past a violated assertion
			r, m := in.query(c)
			if r != Sat {
				panic(pathEnd{endViolation, msg})
			}
			in.setModel(m)
		}
		in.addPC(c)
		return
	}
	n := in.tt.BNot(c)
	if in.eval(c) != 1 {
		in.reportViolation("assert", msg, in.model)
		// continue on the other side if possible
		r, m := in.query(c)
		if r != Sat {
			panic(pathEnd{endViolation, msg})
		}
		in.setModel(m)
	} else {
		r, m := in.query(n)
		if r == Sat {
			in.reportViolation("assert", msg, in.mergeModel(m))
		} else if r == Unknown {
			in.incomplete("solver unknown on assertion: " + msg)
		} else {
			in.pushDec(Decision{taken: true, implied: true, h: in.shape(c)})
			return // implied; no need to add
		}
	}
	in.pushDec(Decision{taken: true, h: in.shape(c)})
	in.addPC(c)
}

func (in *Interp) violation(kind, msg string) {
	in.reportViolation(kind, msg, in.model)
	panic(pathEnd{endViolation, msg})
}

func (in *Interp) reportViolation(kind, msg string, m Model) {
	vals := make([]Input, len(in.inputs))
	in.tt.gen++
	for i, x := range in.inputs {
		x.Val = in.tt.Eval(x.t, m)
		x.t = nil
		vals[i] = x
	}
	in.tt.gen++
	in.eng.addViolation(kind, msg, vals)
}

// ---- panics

func (in *Interp) rtPanic(msg string, where string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	var v Val
	if in.eng.errStringType != nil {
		o := in.newObj(1, "rterr")
		o.rawset(0, mkstr("runtime error: "+msg))
		v = Val{p: &Iface{in.eng.errStringType, Val{p: o}}}
	} else {
		v = Val{p: &Iface{types.Typ[types.String], mkstr("runtime error: " + msg)}}
	}
	panic(&goPanic{v: v, msg: "runtime error: " + msg, where: where, runtime: true, stack: in.stack()})
}

func (in *Interp) stack() string {
	var sb strings.Builder
	n := 0
	if in.cur == nil {
		return ""
	}
	for f := in.cur.top; f != nil && n < 12; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(shortFn(f.code.fn))
		n++
	}
	return sb.String()
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	return strings.ReplaceAll(s, "github.com/nareix/joy5/", "")
}

// ---- equality

func (in *Interp) eqVal(t types.Type, a, b Val) *Term {
	k := ti(t)
	switch k.k {
	case kBool:
		return in.tt.Eq(in.term(a, 0), in.term(b, 0))
	case kInt, kUint:
		return in.tt.Eq(in.term(a, k.w), in.term(b, k.w))
	case kFloat:
		return in.tt.bin(OFEq, in.term(a, k.w), in.term(b, k.w))
	case kString:
		return in.strEq(a, b)
	case kPtr, kUnsafe:
		in.ckPoison(a)
		in.ckPoison(b)
		if x, ok := a.p.(*SymPtr); ok {
			a = in.concPtr(x)
		}
		if x, ok := b.p.(*SymPtr); ok {
			b = in.concPtr(x)
		}
		return in.tt.Bool(a.p == b.p && (a.p == nil || a.c == b.c))
	case kMap, kChan:
		in.ckPoison(a)
		in.ckPoison(b)
		return in.tt.Bool(a.p == b.p)
	case kSlice, kFunc:
		in.ckPoison(a)
		in.ckPoison(b)
		return in.tt.Bool((a.p == nil) == (b.p == nil) && a.p == nil)
	case kIface:
		in.ckPoison(a)
		in.ckPoison(b)
		if a.p == nil || b.p == nil {
			return in.tt.Bool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x == y {
			return in.tt.True
		}
		if !sameType(x.t, y.t) {
			return in.tt.False
		}
		switch ti(x.t).k {
		case kSlice, kMap, kFunc:
			in.rtPanic("comparing uncomparable type "+x.t.String(), "")
		}
		return in.eqVal(x.t, x.v, y.v)
	case kAgg:
		r := in.tt.True
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "_" {
					continue
				}
				ft := ti(u.Field(i).Type())
				r = in.tt.BAnd(r, in.eqVal(u.Field(i).Type(), field(a, k.offs[i], ft, k.n), field(b, k.offs[i], ft, k.n)))
			}
		case *types.Array:
			et := ti(u.Elem())
			for i := 0; i < k.alen; i++ {
				r = in.tt.BAnd(r, in.eqVal(u.Elem(), field(a, i*k.en, et, k.n), field(b, i*k.en, et, k.n)))
			}
		}
		return r
	}
	in.unsupported("eq of " + t.String())
	return nil
}

func (in *Interp) ckPoison(v Val) {
	if p, ok := v.p.(*Poison); ok {
		in.unsupported("poison value: " + p.why)
	}
}

func sameType(a, b types.Type) bool { return a == b || types.Identical(a, b) }

func (in *Interp) concPtr(p *SymPtr) Val {
	i := in.concretize(p.idx)
	return Val{c: uint64(p.base + int(i-p.lo)*p.stride + p.off), p: p.o}
}

// pointer access
func (in *Interp) load(p Val, t *tinfo, where string) Val {
	switch o := p.p.(type) {
	case *Obj:
		return in.loadAt(o, int(p.c), t)
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference", where)
	case *SymPtr:
		if t.k != kAgg && o.n <= 1024 {
			vals := make([]Val, o.n)
			ok := true
			for i := range vals {
				vals[i] = o.o.get(o.base + i*o.stride + o.off)
				if vals[i].p != nil && !isSym(vals[i]) {
					ok = false
					break
				}
			}
			if ok && (t.k == kBool || t.k == kInt || t.k == kUint || t.k == kFloat) {
				return in.iteTable(o.idx, o.lo, vals, t.w)
			}
		}
		q := in.concPtr(o)
		return in.loadAt(q.p.(*Obj), int(q.c), t)
	case *Poison:
		in.unsupported("poison pointer: " + o.why)
	}
	in.unsupported(fmt.Sprintf("load through %T", p.p))
	return Val{}
}

// iteTable builds a balanced selection tree on idx.
func (in *Interp) iteTable(idx *Term, lo uint64, vals []Val, w uint8) Val {
	var rec func(i, j int) *Term
	rec = func(i, j int) *Term {
		if j-i == 1 {
			return in.term(vals[i], w)
		}
		m := (i + j) / 2
		a, b := rec(i, m), rec(m, j)
		if a == b {
			return a
		}
		return in.tt.Ite(in.tt.Ult(idx, in.tt.Const(idx.w, lo+uint64(m))), a, b)
	}
	return fromTerm(rec(0, len(vals)))
}

func (in *Interp) store(p Val, t *tinfo, v Val, where string) {
	switch o := p.p.(type) {
	case *Obj:
		in.storeAt(o, int(p.c), t, v)
		return
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference", where)
	case *SymPtr:
		if o.n <= 64 && (t.k == kBool || t.k == kInt || t.k == kUint || t.k == kFloat) {
			nv := in.term(v, t.w)
			for i := 0; i < o.n; i++ {
				s := o.base + i*o.stride + o.off
				old := o.o.get(s)
				c := in.tt.Eq(o.idx, in.tt.Const(o.idx.w, o.lo+uint64(i)))
				in.set(o.o, s, fromTerm(in.tt.Ite(c, nv, in.term(old, t.w))))
			}
			return
		}
		q := in.concPtr(o)
		in.storeAt(q.p.(*Obj), int(q.c), t, v)
		return
	case *Poison:
		in.unsupported("poison pointer: " + o.why)
	}
	in.unsupported(fmt.Sprintf("store through %T", p.p))
}

// ---- maps

func (in *Interp) newMap() *MapObj { return &MapObj{idx: map[any]int{}, ep: in.epoch} }

func mapKeyConc(v Val) (any, bool) {
	switch p := v.p.(type) {
	case nil:
		return v.c, true
	case string:
		return p, true
	case *Obj:
		return v, true
	case *Iface:
		k, ok := mapKeyConc(p.v)
		if !ok {
			return nil, false
		}
		if ti(p.t).k == kAgg {
			return nil, false
		}
		return [2]any{p.t.String(), k}, true
	}
	return nil, false
}

func (in *Interp) mapFind(m *MapObj, kt types.Type, k Val) int {
	ck, ok := mapKeyConc(k)
	if ok && ti(kt).k == kString && k.p == nil {
		ck = ""
	}
	if ti(kt).k == kAgg {
		ok = false
	}
	if ok && m.sym == 0 {
		if i, hit := m.idx[ck]; hit {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.del[i] {
			continue
		}
		if in.branch(in.eqVal(kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapJournal(m *MapObj) {
	if m.ep == in.epoch {
		return
	}
	old := *m
	old.keys = append([]Val(nil), m.keys...)
	old.vals = append([]Val(nil), m.vals...)
	old.del = append([]bool(nil), m.del...)
	old.idx = map[any]int{}
	for k, v := range m.idx {
		old.idx[k] = v
	}
	m.ep = in.epoch
	in.journal = append(in.journal, func() { *m = old })
}

func (in *Interp) mapSet(m *MapObj, kt types.Type, k, v Val) {
	i := in.mapFind(m, kt, k)
	in.mapJournal(m)
	if i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.del = append(m.del, false)
	m.n++
	ck, ok := mapKeyConc(k)
	if ok && ti(kt).k == kString && k.p == nil {
		ck = ""
	}
	if ok && ti(kt).k != kAgg {
		m.idx[ck] = len(m.keys) - 1
	} else {
		m.sym++
	}
}

func (in *Interp) mapDelete(m *MapObj, kt types.Type, k Val) {
	i := in.mapFind(m, kt, k)
	if i < 0 {
		return
	}
	in.mapJournal(m)
	m.del[i] = true
	m.n--
	for ck, j := range m.idx {
		if j == i {
			delete(m.idx, ck)
			return
		}
	}
	m.sym--
}

// ---- goroutines

func (in *Interp) spawn(f func(), name string) {
	g := &G{id: len(in.gs), wake: make(chan struct{}, 1), name: name}
	in.gs = append(in.gs, g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if in.killing {
				in.gs[0].wake <- struct{}{}
				return
			}
			if r != nil {
				if gp, ok := r.(*goPanic); !(ok && gp.goexit) {
					if ok {
						// a panic ends the program: no other goroutine's deferred
						// functions run
						in.reportViolation("panic", gp.msg+" in "+gp.where, in.model)
						r = pathEnd{endViolation, gp.msg}
					}
					in.endPanic = r
					in.cur = in.gs[0]
					in.gs[0].wake <- struct{}{}
					return
				}
			}
			// pick another goroutine
			func() {
				defer func() {
					if r := recover(); r != nil {
						in.endPanic = r
						in.cur = in.gs[0]
						in.gs[0].wake <- struct{}{}
					}
				}()
				n := in.pick(nil)
				in.cur = n
				n.wake <- struct{}{}
			}()
		}()
		if in.killing {
			return
		}
		f()
	}()
}

func (in *Interp) runnable() []*G {
	var r []*G
	for _, g := range in.gs {
		if !g.done && (g.ready == nil || g.ready()) {
			r = append(r, g)
		}
	}
	return r
}

// pick chooses the next goroutine; me may be nil (terminated).
func (in *Interp) pick(me *G) *G {
	r := in.runnable()
	if len(r) == 0 {
		in.violation("deadlock", "all goroutines are blocked: "+in.gstates())
	}
	if len(r) == 1 {
		return r[0]
	}
	meRunnable := false
	for i, g := range r {
		if g == me {
			meRunnable = true
			r[0], r[i] = r[i], r[0]
		}
	}
	if meRunnable && in.preempt >= in.eng.maxPreempt {
		return me
	}
	if in.eng.fifo && !meRunnable {
		// the next one in turn
		for _, g := range r {
			if me != nil && g.id > me.id {
				return g
			}
		}
		return r[0]
	}
	i := in.choose(len(r), "sched")
	if meRunnable && i != 0 {
		in.preempt++
	}
	return r[i]
}

func (in *Interp) gstates() string {
	s := ""
	for _, g := range in.gs {
		if !g.done {
			s += g.name + " "
		}
	}
	return s
}

func (in *Interp) choose(n int, name string) int {
	if n == 1 {
		return 0
	}
	t := in.freshVar(8, name, "sched")
	in.assume(in.tt.Ult(t, in.tt.Const(8, uint64(n))))
	return int(in.concretize(t))
}

func (in *Interp) switchTo(n *G) {
	me := in.cur
	if n == me {
		return
	}
	in.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if in.killing {
		panic(pathEnd{endKilled, ""})
	}
	if me == in.gs[0] && in.endPanic != nil {
		p := in.endPanic
		in.endPanic = nil
		panic(p)
	}
}

// yield is a scheduling point.
func (in *Interp) yield() {
	if len(in.gs) == 1 {
		return
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	in.switchTo(in.pick(in.cur))
}

// block waits until ready() holds.
func (in *Interp) block(ready func() bool) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if ready() {
		return
	}
	me := in.cur
	me.ready = ready
	in.switchTo(in.pick(me))
	me.ready = nil
}

// killAll terminates leftover goroutines at path end (called by main).
func (in *Interp) killAll() {
	in.killing = true
	for _, g := range in.gs[1:] {
		if !g.done {
			g.wake <- struct{}{}
			<-in.gs[0].wake
		}
	}
}
