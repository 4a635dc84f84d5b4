package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	in        *Interp
	code      *Code
	regs      []Val
	caller    *frame
	free      []Val
	defers    []deferred
	panicking *goPanic
	recovered bool
	deferOf   *frame
	ret       Val
	prev      int
}

type deferred struct {
	call func()
}

type opnd func(fr *frame) Val
type instr func(fr *frame)

type phiMove struct {
	dst int
	src []opnd // per pred index
	w   uint8
	k   tkind
}

type block struct {
	ins     []instr
	phis    []phiMove
	term    func(fr *frame) int // next block index; -1 = return
	n       int
	pure    bool // all instrs speculable
	ifCond  opnd
	succs   []int
	predIdx []int // index of this block in succ's pred list
	ipdom   int
	idom    int // immediate dominator, or -1
	idx     int
}

type Code struct {
	fn       *ssa.Function
	intr     intrinsic
	once     sync.Once
	blocks   []*block
	nregs    int
	regOf    map[ssa.Value]int
	hasDefer bool
	recover  int
	nparams  int
	err      string
}

type intrinsic func(in *Interp, fr *frame, args []Val) Val

var codeCache sync.Map

func codeOf(fn *ssa.Function) *Code {
	if c, ok := codeCache.Load(fn); ok {
		return c.(*Code)
	}
	c := &Code{fn: fn}
	c.intr = findIntrinsic(fn)
	x, _ := codeCache.LoadOrStore(fn, c)
	return x.(*Code)
}

type comp struct {
	c   *Code
	fn  *ssa.Function
	reg map[ssa.Value]int
}

var compileMu sync.Mutex

func (c *Code) compile() {
	c.once.Do(func() {
		compileMu.Lock()
		defer compileMu.Unlock()
		if c.fn.Blocks == nil && c.fn.Pkg != nil {
			c.fn.Pkg.Build()
		}
		if c.fn.Blocks == nil {
			c.err = "no body: " + c.fn.String()
			return
		}
		cp := &comp{c: c, fn: c.fn, reg: map[ssa.Value]int{}}
		cp.run()
	})
}

func (cp *comp) run() {
	fn, c := cp.fn, cp.c
	alloc := func(v ssa.Value) {
		cp.reg[v] = c.nregs
		c.nregs++
	}
	for _, p := range fn.Params {
		alloc(p)
	}
	c.nparams = len(fn.Params)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				alloc(v)
			}
			switch i.(type) {
			case *ssa.Defer:
				c.hasDefer = true
			case *ssa.RunDefers:
				c.hasDefer = true
			}
		}
	}
	c.recover = -1
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		c.blocks = append(c.blocks, cp.block(b))
	}
	cp.postdom()
}

func (cp *comp) postdom() {
	// iterative post-dominators with virtual exit n
	n := len(cp.c.blocks)
	if n > 400 {
		for _, b := range cp.c.blocks {
			b.ipdom = -1
		}
		return
	}
	type set map[int]bool
	pd := make([][]bool, n+1)
	for i := range pd {
		pd[i] = make([]bool, n+1)
		for j := range pd[i] {
			pd[i][j] = true
		}
	}
	for j := range pd[n] {
		pd[n][j] = j == n
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			s := cp.c.blocks[i].succs
			ss := s
			if len(ss) == 0 {
				ss = []int{n}
			}
			for j := 0; j <= n; j++ {
				v := true
				for _, x := range ss {
					v = v && pd[x][j]
				}
				if j == i {
					v = true
				}
				if v != pd[i][j] {
					pd[i][j] = v
					ch = true
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		cp.c.blocks[i].ipdom = -1
		for j := 0; j < n; j++ {
			if j == i || !pd[i][j] {
				continue
			}
			// j is immediate if every other strict postdominator of i postdominates j
			imm := true
			for k := 0; k < n; k++ {
				if k != i && k != j && pd[i][k] && !pd[j][k] {
					imm = false
					break
				}
			}
			if imm {
				cp.c.blocks[i].ipdom = j
				break
			}
		}
	}
}

func (cp *comp) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		val := constVal(x)
		return func(*frame) Val { return val }
	case *ssa.Global:
		return func(fr *frame) Val { return Val{p: fr.in.global(x)} }
	case *ssa.Function:
		val := Val{p: &Closure{fn: x}}
		return func(*frame) Val { return val }
	case *ssa.Builtin:
		val := Val{p: &Closure{bi: x}}
		return func(*frame) Val { return val }
	case *ssa.FreeVar:
		for i, f := range cp.fn.FreeVars {
			if f == x {
				return func(fr *frame) Val { return fr.free[i] }
			}
		}
	}
	r, ok := cp.reg[v]
	if !ok {
		panic(fmt.Sprintf("no reg for %v in %v", v, cp.fn))
	}
	return func(fr *frame) Val { return fr.regs[r] }
}

func constVal(x *ssa.Const) Val {
	t := ti(x.Type())
	if x.Value == nil {
		return Val{}
	}
	switch t.k {
	case kBool:
		return cbool(constant.BoolVal(x.Value))
	case kInt, kUint:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{c: uint64(i) & mask(t.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{c: u & mask(t.w)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if t.w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(x.Value))
			return Val{c: uint64(math.Float32bits(f32))}
		}
		return Val{c: math.Float64bits(f)}
	case kString:
		if x.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(x.Value)
			return mkstr(string(rune(i)))
		}
		return mkstr(constant.StringVal(x.Value))
	}
	return Val{p: &Poison{"const " + x.String()}}
}

func speculable(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.BinOp:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Field, *ssa.Extract, *ssa.DebugRef, *ssa.Phi, *ssa.If, *ssa.Jump:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max"
		}
	}
	return false
}

func (cp *comp) block(b *ssa.BasicBlock) *block {
	r := &block{idx: b.Index, ipdom: -1, idom: -1, pure: true}
	if d := b.Idom(); d != nil {
		r.idom = d.Index
	}
	for _, s := range b.Succs {
		r.succs = append(r.succs, s.Index)
	}
	usedPred := map[*ssa.BasicBlock]int{}
	for _, s := range b.Succs {
		k := 0
		for i, p := range s.Preds {
			if p == b {
				if k == usedPred[s] {
					r.predIdx = append(r.predIdx, i)
					usedPred[s]++
					break
				}
				k++
			}
		}
	}
	for _, i := range b.Instrs {
		if !speculable(i) {
			r.pure = false
		}
		if ph, ok := i.(*ssa.Phi); ok {
			m := phiMove{dst: cp.reg[ph], w: ti(ph.Type()).w, k: ti(ph.Type()).k}
			for _, e := range ph.Edges {
				m.src = append(m.src, cp.op(e))
			}
			r.phis = append(r.phis, m)
			continue
		}
		switch x := i.(type) {
		case *ssa.If:
			cond := cp.op(x.Cond)
			r.ifCond = cond
			s0, s1 := r.succs[0], r.succs[1]
			p0, p1 := r.predIdx[0], r.predIdx[1]
			r.term = func(fr *frame) int {
				c := cond(fr)
				if c.p == nil {
					if c.c == 1 {
						fr.prev = p0
						return s0
					}
					fr.prev = p1
					return s1
				}
				if j := fr.in.tryMerge(fr, r); j >= 0 {
					return j
				}
				if fr.in.branch(fr.in.term(c, 0)) {
					fr.prev = p0
					return s0
				}
				fr.prev = p1
				return s1
			}
		case *ssa.Jump:
			s0, p0 := r.succs[0], r.predIdx[0]
			r.term = func(fr *frame) int { fr.prev = p0; return s0 }
		case *ssa.Return:
			var ops []opnd
			for _, v := range x.Results {
				ops = append(ops, cp.op(v))
			}
			r.term = func(fr *frame) int {
				switch len(ops) {
				case 0:
					fr.ret = Val{}
				case 1:
					fr.ret = ops[0](fr)
				default:
					t := make(Tuple, len(ops))
					for i := range ops {
						t[i] = ops[i](fr)
					}
					fr.ret = Val{p: t}
				}
				return -1
			}
		case *ssa.Panic:
			o := cp.op(x.X)
			where := cp.fn.String()
			r.term = func(fr *frame) int {
				if fr.in.spec > 0 {
					panic(specAbort{})
				}
				v := o(fr)
				panic(&goPanic{v: v, msg: fr.in.panicText(v), where: where, stack: fr.in.stack()})
			}
		default:
			if ins := cp.instr(i); ins != nil {
				r.ins = append(r.ins, ins)
			}
		}
	}
	r.n = len(b.Instrs)
	return r
}

func (in *Interp) panicText(v Val) string {
	i, ok := v.p.(*Iface)
	if !ok {
		return "nil"
	}
	if s, ok := concStr(i.v); ok && ti(i.t).k == kString {
		return s
	}
	return i.t.String()
}

func (cp *comp) setter(v ssa.Value) int { return cp.reg[v] }

func (cp *comp) instr(i ssa.Instruction) instr {
	where := func() string { return cp.fn.String() }
	switch x := i.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		d := cp.reg[x]
		n := ti(x.Type().Underlying().(*types.Pointer).Elem()).n
		nm := x.Comment
		return func(fr *frame) { fr.regs[d] = Val{p: fr.in.newObj(n, nm)} }
	case *ssa.BinOp:
		return cp.binop(x)
	case *ssa.UnOp:
		return cp.unop(x)
	case *ssa.Phi:
		panic("phi")
	case *ssa.Call:
		d := cp.reg[x]
		call := cp.call(&x.Call, x)
		return func(fr *frame) { fr.regs[d] = call(fr) }
	case *ssa.ChangeInterface:
		d, o := cp.reg[x], cp.op(x.X)
		return func(fr *frame) { fr.regs[d] = o(fr) }
	case *ssa.ChangeType:
		d, o := cp.reg[x], cp.op(x.X)
		return func(fr *frame) { fr.regs[d] = o(fr) }
	case *ssa.Convert:
		return cp.convert(x.X, x, x.Type())
	case *ssa.MultiConvert:
		return cp.convert(x.X, x, x.Type())
	case *ssa.MakeInterface:
		d, o, t := cp.reg[x], cp.op(x.X), x.X.Type()
		return func(fr *frame) {
			v := o(fr)
			if _, ok := v.p.(*Poison); ok {
				fr.regs[d] = v
				return
			}
			fr.regs[d] = Val{p: &Iface{t, v}}
		}
	case *ssa.MakeClosure:
		d := cp.reg[x]
		fn := x.Fn.(*ssa.Function)
		var ops []opnd
		for _, b := range x.Bindings {
			ops = append(ops, cp.op(b))
		}
		return func(fr *frame) {
			c := &Closure{fn: fn, free: make([]Val, len(ops))}
			for i := range ops {
				c.free[i] = ops[i](fr)
			}
			fr.regs[d] = Val{p: c}
		}
	case *ssa.MakeMap:
		d := cp.reg[x]
		return func(fr *frame) { fr.regs[d] = Val{p: fr.in.newMap()} }
	case *ssa.MakeChan:
		d, o := cp.reg[x], cp.op(x.Size)
		return func(fr *frame) {
			fr.regs[d] = Val{p: &ChanObj{cap: fr.in.concInt(o(fr)), ep: fr.in.epoch}}
		}
	case *ssa.MakeSlice:
		d, l, c := cp.reg[x], cp.op(x.Len), cp.op(x.Cap)
		lt := ti(x.Len.Type())
		ct := ti(x.Cap.Type())
		et := x.Type().Underlying().(*types.Slice).Elem()
		en := ti(et).n
		size := sizeof(et)
		return func(fr *frame) {
			lv := fr.in.ext64(l(fr), lt)
			cv := fr.in.ext64(c(fr), ct)
			fr.regs[d] = fr.in.makeSlice(lv, cv, en, size, where())
		}
	case *ssa.FieldAddr:
		d, o := cp.reg[x], cp.op(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		off := ti(st).offs[x.Field]
		return func(fr *frame) {
			v := o(fr)
			switch p := v.p.(type) {
			case *Obj:
				fr.regs[d] = Val{c: v.c + uint64(off), p: p}
			case nil:
				fr.in.rtPanic("invalid memory address or nil pointer dereference", where())
			case *SymPtr:
				q := *p
				q.off += off
				fr.regs[d] = Val{p: &q}
			default:
				fr.in.ckPoison(v)
				fr.in.unsupported(fmt.Sprintf("FieldAddr on %T", v.p))
			}
		}
	case *ssa.Field:
		d, o := cp.reg[x], cp.op(x.X)
		st := ti(x.X.Type())
		off := st.offs[x.Field]
		ft := ti(x.Type())
		return func(fr *frame) { fr.regs[d] = field(o(fr), off, ft, st.n) }
	case *ssa.IndexAddr:
		return cp.indexAddr(x)
	case *ssa.Index:
		d, o, ix := cp.reg[x], cp.op(x.X), cp.op(x.Index)
		it := ti(x.Index.Type())
		xt := ti(x.X.Type())
		et := ti(x.Type())
		if xt.k == kString {
			return func(fr *frame) {
				fr.regs[d] = fr.in.strIndex(o(fr), fr.in.ext64(ix(fr), it), where())
			}
		}
		return func(fr *frame) {
			a := aggSlots(o(fr), xt.n)
			iv := fr.in.ext64(ix(fr), it)
			fr.in.bounds(iv, cint(xt.alen), where())
			if isSym(iv) && et.n == 1 && (et.k == kInt || et.k == kUint || et.k == kBool) {
				fr.regs[d] = fr.in.iteTable(iv.p.(*Term), 0, a, et.w)
				return
			}
			i := fr.in.concInt(iv)
			fr.regs[d] = field(Val{p: Agg(a)}, i*xt.en, et, xt.n)
		}
	case *ssa.Lookup:
		d, o, ix := cp.reg[x], cp.op(x.X), cp.op(x.Index)
		if ti(x.X.Type()).k == kString {
			it := ti(x.Index.Type())
			return func(fr *frame) {
				fr.regs[d] = fr.in.strIndex(o(fr), fr.in.ext64(ix(fr), it), where())
			}
		}
		mt := x.X.Type().Underlying().(*types.Map)
		kt := mt.Key()
		commaOk := x.CommaOk
		return func(fr *frame) {
			mv := o(fr)
			k := ix(fr)
			var v Val
			ok := false
			fr.in.ckPoison(mv)
			if m, _ := mv.p.(*MapObj); m != nil {
				if i := fr.in.mapFind(m, kt, k); i >= 0 {
					v, ok = m.vals[i], true
				}
			}
			if commaOk {
				fr.regs[d] = Val{p: Tuple{v, cbool(ok)}}
			} else {
				fr.regs[d] = v
			}
		}
	case *ssa.MapUpdate:
		m, k, v := cp.op(x.Map), cp.op(x.Key), cp.op(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mv := m(fr)
			fr.in.ckPoison(mv)
			mo, _ := mv.p.(*MapObj)
			if mo == nil {
				fr.in.rtPanic("assignment to entry in nil map", where())
			}
			fr.in.mapSet(mo, kt, k(fr), v(fr))
		}
	case *ssa.Range:
		d, o := cp.reg[x], cp.op(x.X)
		if ti(x.X.Type()).k == kString {
			return func(fr *frame) { fr.regs[d] = Val{p: &StrIter{s: o(fr)}} }
		}
		return func(fr *frame) {
			it := &MapIter{}
			mv := o(fr)
			fr.in.ckPoison(mv)
			if m, _ := mv.p.(*MapObj); m != nil {
				it.m = m
				for i := range m.keys {
					if !m.del[i] {
						it.order = append(it.order, i)
					}
				}
				if fr.in.mapNondet {
					for i := 0; i+1 < len(it.order); i++ {
						j := i + fr.in.choose(len(it.order)-i, "maporder")
						it.order[i], it.order[j] = it.order[j], it.order[i]
					}
				}
			}
			fr.regs[d] = Val{p: it}
		}
	case *ssa.Next:
		d, o := cp.reg[x], cp.op(x.Iter)
		if x.IsString {
			return func(fr *frame) { fr.regs[d] = fr.in.nextStr(o(fr).p.(*StrIter)) }
		}
		return func(fr *frame) {
			it := o(fr).p.(*MapIter)
			for it.i < len(it.order) {
				j := it.order[it.i]
				it.i++
				if it.m.del[j] {
					continue
				}
				fr.regs[d] = Val{p: Tuple{cbool(true), it.m.keys[j], it.m.vals[j]}}
				return
			}
			fr.regs[d] = Val{p: Tuple{Val{}, Val{}, Val{}}}
		}
	case *ssa.Extract:
		d, o, ix := cp.reg[x], cp.op(x.Tuple), x.Index
		return func(fr *frame) {
			v := o(fr)
			switch t := v.p.(type) {
			case Tuple:
				fr.regs[d] = t[ix]
			default:
				fr.in.ckPoison(v)
				panic(fmt.Sprintf("extract of %T in %s", v.p, where()))
			}
		}
	case *ssa.Slice:
		return cp.slice(x)
	case *ssa.SliceToArrayPointer:
		d, o := cp.reg[x], cp.op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s := sliceOf(o(fr))
			if s == nil {
				if n > 0 {
					fr.in.rtPanic("cannot convert slice to array pointer", where())
				}
				fr.regs[d] = Val{}
				return
			}
			if fr.in.branch(fr.in.tt.bin(OSlt, fr.in.term(s.len, 64), fr.in.tt.Const(64, uint64(n)))) {
				fr.in.rtPanic("cannot convert slice with length to array or pointer to array", where())
			}
			fr.regs[d] = Val{c: uint64(s.off), p: s.o}
		}
	case *ssa.Store:
		a, v := cp.op(x.Addr), cp.op(x.Val)
		t := ti(x.Val.Type())
		return func(fr *frame) {
			p := a(fr)
			if o, ok := p.p.(*Obj); ok && t.k != kAgg {
				fr.in.set(o, int(p.c), v(fr))
				return
			}
			fr.in.store(p, t, v(fr), where())
		}
	case *ssa.TypeAssert:
		return cp.typeAssert(x)
	case *ssa.Defer:
		call := cp.deferCall(&x.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, deferred{call(fr)}) }
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Go:
		call := cp.deferCall(&x.Call)
		return func(fr *frame) {
			f := call(fr)
			fr.in.spawn(f, where())
			fr.in.yield()
		}
	case *ssa.Send:
		c, v := cp.op(x.Chan), cp.op(x.X)
		return func(fr *frame) { fr.in.chanSend(c(fr), v(fr)) }
	case *ssa.Select:
		return cp.sel(x)
	}
	s := i.String()
	return func(fr *frame) { fr.in.unsupported("instr " + s) }
}

func (in *Interp) ext64(v Val, t *tinfo) Val {
	if v.p == nil {
		if t.k == kInt {
			return Val{c: uint64(sx(v.c, t.w))}
		}
		return v
	}
	x := in.term(v, t.w)
	if t.k == kInt {
		return fromTerm(in.tt.SExt(x, 64))
	}
	return fromTerm(in.tt.ZExt(x, 64))
}

// bounds checks 0 <= i < n (64-bit).
func (in *Interp) bounds(i, n Val, where string) {
	if i.p == nil && n.p == nil {
		if i.c >= n.c {
			in.rtPanic("index out of range", where)
		}
		return
	}
	// lengths are non-negative, so an unsigned comparison covers i<0
	if !in.branch(in.tt.Ult(in.term(i, 64), in.term(n, 64))) {
		in.rtPanic("index out of range", where)
	}
}

func (in *Interp) strIndex(s, i Val, where string) Val {
	n := in.strLen(s)
	in.bounds(i, cint(n), where)
	if t, ok := i.p.(*Term); ok {
		if n <= 1024 {
			return in.iteTable(t, 0, strBytes(s), 8)
		}
	}
	return strAt(s, in.concInt(i))
}

func (cp *comp) indexAddr(x *ssa.IndexAddr) instr {
	d, o, ix := cp.reg[x], cp.op(x.X), cp.op(x.Index)
	it := ti(x.Index.Type())
	fnm := cp.fn.String()
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := ti(pt.Elem())
		return func(fr *frame) {
			v := o(fr)
			if v.p == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference", fnm)
			}
			if sp, ok := v.p.(*SymPtr); ok {
				v = fr.in.concPtr(sp)
			}
			fr.in.ckPoison(v)
			iv := fr.in.ext64(ix(fr), it)
			fr.in.bounds(iv, cint(at.alen), fnm)
			fr.regs[d] = fr.in.elemPtr(v.p.(*Obj), int(v.c), at.en, iv, at.alen)
		}
	}
	return func(fr *frame) {
		v := o(fr)
		iv := fr.in.ext64(ix(fr), it)
		s := sliceOf(v)
		if s == nil {
			fr.in.rtPanic("index out of range", fnm)
		}
		fr.in.bounds(iv, s.len, fnm)
		if iv.p == nil {
			fr.regs[d] = Val{c: uint64(s.off + int(iv.c)*s.es), p: s.o}
			return
		}
		n := 1 << 40
		if s.len.p == nil {
			n = int(s.len.c)
		}
		fr.regs[d] = fr.in.elemPtr(s.o, s.off, s.es, iv, n)
	}
}

func (in *Interp) elemPtr(o *Obj, base, es int, iv Val, n int) Val {
	t, ok := iv.p.(*Term)
	if !ok {
		return Val{c: uint64(base + int(iv.c)*es), p: o}
	}
	lo, hi := t.lo, min(t.hi, uint64(n-1))
	if hi-lo < 1024 && hi >= lo {
		return Val{p: &SymPtr{o: o, base: base + int(lo)*es, idx: t, lo: lo, n: int(hi-lo) + 1, stride: es}}
	}
	i := in.concretize(t)
	return Val{c: uint64(base + int(i)*es), p: o}
}

func (in *Interp) makeSlice(l, c Val, en, size int, where string) Val {
	tt := in.tt
	if l.p == nil && c.p == nil {
		if int64(l.c) < 0 || l.c*uint64(max(size, 1)) > 1<<46 || l.c > 1<<46 {
			in.rtPanic("makeslice: len out of range", where)
		}
		if int64(c.c) < int64(l.c) || c.c > 1<<46 {
			in.rtPanic("makeslice: cap out of range", where)
		}
	} else {
		lt, ct := in.term(l, 64), in.term(c, 64)
		lim := tt.Const(64, (1<<46)/uint64(max(size, 1)))
		if in.branch(tt.BOr(tt.Ult(lim, lt), tt.Ult(lim, ct))) {
			in.rtPanic("makeslice: len out of range", where)
		}
		if in.branch(tt.Ult(ct, lt)) {
			in.rtPanic("makeslice: cap out of range", where)
		}
	}
	in.account(c, size)
	n := -1
	if c.p == nil {
		n = int(c.c) * en
		if n > 1<<22 {
			n = -1
		}
	}
	if en == 0 {
		n = 0
	}
	return Val{p: &Slice{in.newObj(n, "makeslice"), 0, l, c, en}}
}

// account tracks allocated bytes against the harness limit.
func (in *Interp) account(n Val, size int) {
	if in.allocLimit == 0 {
		return
	}
	in.allocTotal = in.tt.bin(OAdd, in.allocTotal, in.tt.bin(OMul, in.term(n, 64), in.tt.Const(64, uint64(size))))
	over := in.tt.Ult(in.tt.Const(64, in.allocLimit), in.allocTotal)
	if in.branch(over) {
		in.violation("alloc", "allocates more than the stated bound")
	}
}

var stdSizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int { return int(stdSizes.Sizeof(t)) }

func (cp *comp) slice(x *ssa.Slice) instr {
	d, o := cp.reg[x], cp.op(x.X)
	fnm := cp.fn.String()
	opt := func(v ssa.Value) func(fr *frame) (Val, bool) {
		if v == nil {
			return func(*frame) (Val, bool) { return Val{}, false }
		}
		f, t := cp.op(v), ti(v.Type())
		return func(fr *frame) (Val, bool) { return fr.in.ext64(f(fr), t), true }
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	isStr := ti(x.X.Type()).k == kString
	if isStr {
		return func(fr *frame) {
			in := fr.in
			s := o(fr)
			n := in.strLen(s)
			l, lok := lo(fr)
			h, hok := hi(fr)
			if !lok {
				l = Val{}
			}
			if !hok {
				h = cint(n)
			}
			in.ckSlice(l, h, cint(n), fnm)
			fr.regs[d] = strSlice(s, in.concInt(l), in.concInt(h))
		}
	}
	var at *tinfo
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at = ti(pt.Elem())
	}
	es := 0
	if at == nil {
		es = ti(x.X.Type()).en
	}
	return func(fr *frame) {
		in := fr.in
		v := o(fr)
		var s *Slice
		if at != nil {
			switch p := v.p.(type) {
			case *Obj:
				s = &Slice{p, int(v.c), cint(at.alen), cint(at.alen), at.en}
			case nil:
				in.rtPanic("invalid memory address or nil pointer dereference", fnm)
			case *SymPtr:
				q := in.concPtr(p)
				s = &Slice{q.p.(*Obj), int(q.c), cint(at.alen), cint(at.alen), at.en}
			default:
				in.ckPoison(v)
			}
		} else {
			s = sliceOf(v)
		}
		isNil := s == nil
		if isNil {
			s = &Slice{nil, 0, Val{}, Val{}, es}
		}
		l, lok := lo(fr)
		h, hok := hi(fr)
		m, mok := mx(fr)
		if !lok {
			l = Val{}
		}
		if !hok {
			h = s.len
		}
		if !mok {
			m = s.cap
		} else {
			in.ckSlice(Val{}, m, s.cap, fnm)
		}
		in.ckSlice(l, h, m, fnm)
		if isNil {
			fr.regs[d] = Val{}
			return
		}
		li := in.concInt(l)
		fr.regs[d] = Val{p: &Slice{s.o, s.off + li*s.es, in.sub64(h, l), in.sub64(m, l), s.es}}
	}
}

func (in *Interp) sub64(a, b Val) Val {
	if a.p == nil && b.p == nil {
		return Val{c: a.c - b.c}
	}
	return fromTerm(in.tt.bin(OSub, in.term(a, 64), in.term(b, 64)))
}

// ckSlice: 0 <= l <= h <= c
func (in *Interp) ckSlice(l, h, c Val, where string) {
	if l.p == nil && h.p == nil && c.p == nil {
		if h.c > c.c || l.c > h.c {
			in.rtPanic("slice bounds out of range", where)
		}
		return
	}
	tt := in.tt
	if !in.branch(tt.Ule(in.term(h, 64), in.term(c, 64))) {
		in.rtPanic("slice bounds out of range", where)
	}
	if !in.branch(tt.Ule(in.term(l, 64), in.term(h, 64))) {
		in.rtPanic("slice bounds out of range", where)
	}
}

func (cp *comp) typeAssert(x *ssa.TypeAssert) instr {
	d, o := cp.reg[x], cp.op(x.X)
	at := x.AssertedType
	isI := types.IsInterface(at)
	commaOk := x.CommaOk
	fnm := cp.fn.String()
	var it *types.Interface
	if isI {
		it = at.Underlying().(*types.Interface)
	}
	return func(fr *frame) {
		v := o(fr)
		fr.in.ckPoison(v)
		ok := false
		var r Val
		if i, _ := v.p.(*Iface); i != nil {
			if isI {
				if implements(i.t, it) {
					ok, r = true, v
				}
			} else if sameType(i.t, at) {
				ok, r = true, i.v
			}
		}
		if commaOk {
			fr.regs[d] = Val{p: Tuple{r, cbool(ok)}}
			return
		}
		if !ok {
			fr.in.rtPanic("interface conversion: not "+at.String(), fnm)
		}
		fr.regs[d] = r
	}
}

type implKey struct {
	t types.Type
	i *types.Interface
}

var implCache sync.Map

func implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	compileMu.Lock()
	r := types.Implements(t, i)
	compileMu.Unlock()
	implCache.Store(k, r)
	return r
}

func (cp *comp) unop(x *ssa.UnOp) instr {
	d, o := cp.reg[x], cp.op(x.X)
	t := ti(x.Type())
	fnm := cp.fn.String()
	switch x.Op {
	case token.MUL:
		return func(fr *frame) {
			p := o(fr)
			if ob, ok := p.p.(*Obj); ok && t.k != kAgg {
				fr.regs[d] = ob.get(int(p.c))
				return
			}
			fr.regs[d] = fr.in.load(p, t, fnm)
		}
	case token.NOT:
		return func(fr *frame) {
			v := o(fr)
			if v.p == nil {
				fr.regs[d] = Val{c: 1 - v.c}
				return
			}
			fr.regs[d] = fromTerm(fr.in.tt.BNot(fr.in.term(v, 0)))
		}
	case token.SUB:
		if t.k == kFloat {
			return func(fr *frame) {
				v := o(fr)
				sb := uint64(1) << (t.w - 1)
				if v.p == nil {
					fr.regs[d] = Val{c: v.c ^ sb}
					return
				}
				fr.regs[d] = fromTerm(fr.in.tt.bin(OXor, fr.in.term(v, t.w), fr.in.tt.Const(t.w, sb)))
			}
		}
		return func(fr *frame) {
			v := o(fr)
			if v.p == nil {
				fr.regs[d] = Val{c: -v.c & mask(t.w)}
				return
			}
			fr.regs[d] = fromTerm(fr.in.tt.bin(OSub, fr.in.tt.Const(t.w, 0), fr.in.term(v, t.w)))
		}
	case token.XOR:
		return func(fr *frame) {
			v := o(fr)
			if v.p == nil {
				fr.regs[d] = Val{c: ^v.c & mask(t.w)}
				return
			}
			fr.regs[d] = fromTerm(fr.in.tt.Not(fr.in.term(v, t.w)))
		}
	case token.ARROW:
		commaOk := x.CommaOk
		return func(fr *frame) {
			v, ok := fr.in.chanRecv(o(fr))
			if commaOk {
				fr.regs[d] = Val{p: Tuple{v, cbool(ok)}}
			} else {
				fr.regs[d] = v
			}
		}
	}
	s := x.String()
	return func(fr *frame) { fr.in.unsupported(s) }
}

func (cp *comp) binop(x *ssa.BinOp) instr {
	d, a, b := cp.reg[x], cp.op(x.X), cp.op(x.Y)
	t := ti(x.X.Type())
	fnm := cp.fn.String()
	w := t.w
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		xt := x.X.Type()
		// comparison of interface with concrete is normalised by ssa
		if t.k == kInt || t.k == kUint || t.k == kBool {
			return func(fr *frame) {
				p, q := a(fr), b(fr)
				if p.p == nil && q.p == nil {
					fr.regs[d] = cbool((p.c == q.c) != neg)
					return
				}
				r := fr.in.tt.Eq(fr.in.term(p, w), fr.in.term(q, w))
				if neg {
					r = fr.in.tt.BNot(r)
				}
				fr.regs[d] = fromTerm(r)
			}
		}
		return func(fr *frame) {
			r := fr.in.eqVal(xt, a(fr), b(fr))
			if neg {
				r = fr.in.tt.BNot(r)
			}
			fr.regs[d] = fromTerm(r)
		}
	}
	if t.k == kString {
		switch x.Op {
		case token.ADD:
			return func(fr *frame) { fr.regs[d] = fr.in.strCat(a(fr), b(fr)) }
		case token.LSS:
			return func(fr *frame) { fr.regs[d] = fromTerm(fr.in.strLess(a(fr), b(fr))) }
		case token.GTR:
			return func(fr *frame) { fr.regs[d] = fromTerm(fr.in.strLess(b(fr), a(fr))) }
		case token.LEQ:
			return func(fr *frame) { fr.regs[d] = fromTerm(fr.in.tt.BNot(fr.in.strLess(b(fr), a(fr)))) }
		case token.GEQ:
			return func(fr *frame) { fr.regs[d] = fromTerm(fr.in.tt.BNot(fr.in.strLess(a(fr), b(fr)))) }
		}
	}
	if t.k == kFloat {
		var op Op
		swap, neg := false, false
		switch x.Op {
		case token.ADD:
			op = OFAdd
		case token.SUB:
			op = OFSub
		case token.MUL:
			op = OFMul
		case token.QUO:
			op = OFDiv
		case token.LSS:
			op = OFLt
		case token.LEQ:
			op = OFLe
		case token.GTR:
			op, swap = OFLt, true
		case token.GEQ:
			op, swap = OFLe, true
		}
		_ = neg
		return func(fr *frame) {
			p, q := a(fr), b(fr)
			if swap {
				p, q = q, p
			}
			fr.regs[d] = fromTerm(fr.in.tt.bin(op, fr.in.term(p, w), fr.in.term(q, w)))
		}
	}
	if t.k != kInt && t.k != kUint && t.k != kBool {
		s := x.String()
		return func(fr *frame) { fr.in.unsupported("binop " + s) }
	}
	signed := t.k == kInt
	var op Op
	swap := false
	switch x.Op {
	case token.ADD:
		op = OAdd
	case token.SUB:
		op = OSub
	case token.MUL:
		op = OMul
	case token.AND:
		op = OAnd
	case token.OR:
		op = OOr
	case token.XOR:
		op = OXor
	case token.AND_NOT:
		return func(fr *frame) {
			p, q := a(fr), b(fr)
			if p.p == nil && q.p == nil {
				fr.regs[d] = Val{c: p.c &^ q.c}
				return
			}
			fr.regs[d] = fromTerm(fr.in.tt.bin(OAnd, fr.in.term(p, w), fr.in.tt.Not(fr.in.term(q, w))))
		}
	case token.QUO, token.REM:
		switch {
		case x.Op == token.QUO && signed:
			op = OSDiv
		case x.Op == token.QUO:
			op = OUDiv
		case signed:
			op = OSRem
		default:
			op = OURem
		}
		return func(fr *frame) {
			p, q := a(fr), b(fr)
			if q.p == nil {
				if q.c == 0 {
					fr.in.rtPanic("integer divide by zero", fnm)
				}
			} else if fr.in.branch(fr.in.tt.Eq(fr.in.term(q, w), fr.in.tt.Const(w, 0))) {
				fr.in.rtPanic("integer divide by zero", fnm)
			}
			if p.p == nil && q.p == nil {
				fr.regs[d] = Val{c: evalBin(op, w, w, p.c, q.c)}
				return
			}
			fr.regs[d] = fromTerm(fr.in.tt.bin(op, fr.in.term(p, w), fr.in.term(q, w)))
		}
	case token.SHL, token.SHR:
		bt := ti(x.Y.Type())
		switch {
		case x.Op == token.SHL:
			op = OShl
		case signed:
			op = OAshr
		default:
			op = OLshr
		}
		return func(fr *frame) {
			p, q := a(fr), b(fr)
			if bt.k == kInt {
				if q.p == nil {
					if sx(q.c, bt.w) < 0 {
						fr.in.rtPanic("negative shift amount", fnm)
					}
				} else if fr.in.branch(fr.in.tt.bin(OSlt, fr.in.term(q, bt.w), fr.in.tt.Const(bt.w, 0))) {
					fr.in.rtPanic("negative shift amount", fnm)
				}
			}
			if p.p == nil && q.p == nil {
				fr.regs[d] = Val{c: evalBin(op, w, w, p.c, q.c)}
				return
			}
			fr.regs[d] = fromTerm(fr.in.shift(op, fr.in.term(p, w), fr.in.term(q, bt.w)))
		}
	case token.LSS, token.GTR:
		op = OUlt
		if signed {
			op = OSlt
		}
		swap = x.Op == token.GTR
	case token.LEQ, token.GEQ:
		op = OUle
		if signed {
			op = OSle
		}
		swap = x.Op == token.GEQ
	}
	rw := resW(op, w)
	return func(fr *frame) {
		p, q := a(fr), b(fr)
		if swap {
			p, q = q, p
		}
		if p.p == nil && q.p == nil {
			fr.regs[d] = Val{c: evalBin(op, rw, w, p.c, q.c)}
			return
		}
		fr.regs[d] = fromTerm(fr.in.tt.bin(op, fr.in.term(p, w), fr.in.term(q, w)))
	}
}

func b2w(b bool) uint8 {
	if b {
		return 1
	}
	return 0
}

func (in *Interp) shift(op Op, x, y *Term) *Term {
	w := x.w
	tt := in.tt
	if y.w < w {
		return tt.bin(op, x, tt.ZExt(y, w))
	}
	if y.w == w {
		return tt.bin(op, x, y)
	}
	if y.hi < uint64(w) {
		return tt.bin(op, x, tt.Extract(y, 0, w))
	}
	if y.isC() {
		return tt.bin(op, x, tt.Const(w, min(y.k, uint64(w))))
	}
	big := tt.Ule(tt.Const(y.w, uint64(w)), y)
	// w (8,16,32) is representable in w bits
	return tt.bin(op, x, tt.Ite(big, tt.Const(w, uint64(w)), tt.Extract(y, 0, w)))
}

func (in *Interp) strCat(a, b Val) Val {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return mkstr(x + y)
		}
	}
	r := append(append([]Val(nil), strBytes(a)...), strBytes(b)...)
	in.ckPoison(a)
	in.ckPoison(b)
	return Val{p: &SymStr{r}}
}
