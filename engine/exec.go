package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 60000

func (in *Interp) callFn(caller *frame, fn *ssa.Function, args, free []Val, deferOf *frame) Val {
	c := codeOf(fn)
	if c.intr != nil {
		return c.intr(in, caller, args)
	}
	return in.callCode(caller, fn, args, free, deferOf)
}

// callCode runs the code of the function, modelled or not.
func (in *Interp) callCode(caller *frame, fn *ssa.Function, args, free []Val, deferOf *frame) Val {
	c := codeOf(fn)
	c.compile()
	if c.err != "" {
		in.unsupported(c.err)
	}
	if in.cur.depth > maxDepth {
		in.unsupported("call depth")
	}
	fr := &frame{in: in, code: c, regs: make([]Val, c.nregs), caller: caller, free: free, deferOf: deferOf}
	copy(fr.regs, args)
	g := in.cur
	g.depth++
	old := g.top
	g.top = fr
	if in.eng.cover != nil {
		in.eng.coverFn(fn)
	}
	if c.hasDefer {
		fr.runWithDefers()
	} else {
		fr.run(0)
	}
	g.depth--
	g.top = old
	return fr.ret
}

func (fr *frame) run(bi int) {
	in := fr.in
	c := fr.code
	for bi >= 0 {
		b := c.blocks[bi]
		if len(b.phis) > 0 {
			fr.doPhis(b)
		}
		in.steps += b.n
		if in.steps > in.maxSteps {
			panic(pathEnd{endSteps, "step limit in " + c.fn.String()})
		}
		for _, i := range b.ins {
			i(fr)
		}
		if b.term == nil {
			in.unsupported("unterminated block in " + c.fn.String())
		}
		bi = b.term(fr)
	}
}

func (fr *frame) doPhis(b *block) {
	if fr.prev < 0 {
		fr.prev = ^fr.prev // merged: phis already assigned
		return
	}
	if len(b.phis) == 1 {
		fr.regs[b.phis[0].dst] = b.phis[0].src[fr.prev](fr)
		return
	}
	var tmp [8]Val
	t := tmp[:0]
	for _, p := range b.phis {
		t = append(t, p.src[fr.prev](fr))
	}
	for i, p := range b.phis {
		fr.regs[p.dst] = t[i]
	}
}

func (fr *frame) runWithDefers() {
	depth := fr.in.cur.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				fr.in.cur.depth = depth
				fr.in.cur.top = fr
				fr.panicking = gp
				fr.runDefers()
				if fr.panicking != nil && !fr.recovered {
					panic(fr.panicking)
				}
				fr.panicking = nil
				if fr.code.recover >= 0 {
					fr.prev = 0
					fr.run(fr.code.recover)
				} else {
					fr.ret = zeroRet(fr.code.fn)
				}
			}
		}()
		fr.run(0)
	}()
}

func zeroRet(fn *ssa.Function) Val {
	n := fn.Signature.Results().Len()
	if n > 1 {
		return Val{p: make(Tuple, n)}
	}
	return Val{}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := fr.in.cur.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					fr.in.cur.depth = depth
					fr.in.cur.top = fr
					fr.panicking = gp
					fr.recovered = false
				}
			}()
			d.call()
		}()
	}
	if fr.panicking != nil && !fr.recovered {
		panic(fr.panicking)
	}
}

// ---- calls

func (cp *comp) call(c *ssa.CallCommon, site ssa.Instruction) opnd {
	var args []opnd
	for _, a := range c.Args {
		args = append(args, cp.op(a))
	}
	get := func(fr *frame, extra int) []Val {
		r := make([]Val, len(args)+extra)
		for i := range args {
			r[i+extra] = args[i](fr)
		}
		return r
	}
	if c.IsInvoke() {
		recv := cp.op(c.Value)
		m := c.Method
		fnm := cp.fn.String()
		var lastT types.Type
		var lastFn *ssa.Function
		var mu sync.Mutex
		return func(fr *frame) Val {
			v := recv(fr)
			fr.in.ckPoison(v)
			i, _ := v.p.(*Iface)
			if i == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference", fnm)
			}
			mu.Lock()
			fn := lastFn
			if lastT != i.t {
				fn = nil
			}
			mu.Unlock()
			if fn == nil {
				fn = fr.in.eng.method(i.t, m)
				mu.Lock()
				lastT, lastFn = i.t, fn
				mu.Unlock()
			}
			if fn == nil {
				fr.in.unsupported("method " + m.FullName() + " on " + i.t.String())
			}
			a := get(fr, 1)
			a[0] = i.v
			return fr.in.callFn(fr, fn, a, nil, nil)
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return cp.builtin(f, c, args)
	case *ssa.Function:
		return func(fr *frame) Val { return fr.in.callFn(fr, f, get(fr, 0), nil, nil) }
	}
	fv := cp.op(c.Value)
	fnm := cp.fn.String()
	return func(fr *frame) Val {
		f := fv(fr)
		return fr.in.callVal(fr, f, get(fr, 0), nil, fnm)
	}
}

func (in *Interp) callVal(fr *frame, f Val, args []Val, deferOf *frame, where string) Val {
	in.ckPoison(f)
	cl, _ := f.p.(*Closure)
	if cl == nil {
		in.rtPanic("invalid memory address or nil pointer dereference", where)
	}
	if cl.nat != nil {
		return cl.nat(in, args)
	}
	if cl.bi != nil {
		in.unsupported("builtin value " + cl.bi.Name())
	}
	return in.callFn(fr, cl.fn, args, cl.free, deferOf)
}

// deferCall evaluates callee and args now and returns a thunk.
func (cp *comp) deferCall(c *ssa.CallCommon) func(fr *frame) func() {
	var args []opnd
	for _, a := range c.Args {
		args = append(args, cp.op(a))
	}
	get := func(fr *frame, extra int) []Val {
		r := make([]Val, len(args)+extra)
		for i := range args {
			r[i+extra] = args[i](fr)
		}
		return r
	}
	fnm := cp.fn.String()
	if c.IsInvoke() {
		recv := cp.op(c.Value)
		m := c.Method
		return func(fr *frame) func() {
			v := recv(fr)
			fr.in.ckPoison(v)
			i, _ := v.p.(*Iface)
			if i == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference", fnm)
			}
			fn := fr.in.eng.method(i.t, m)
			a := get(fr, 1)
			a[0] = i.v
			return func() { fr.in.callFn(fr, fn, a, nil, fr) }
		}
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		b := cp.builtin(f, c, nil)
		return func(fr *frame) func() {
			a := get(fr, 0)
			return func() {
				if f.Name() == "close" {
					fr.in.chanClose(a[0])
					return
				}
				if f.Name() == "recover" {
					fr.in.doRecover(fr)
					return
				}
				_ = b
				fr.in.unsupported("defer builtin " + f.Name())
			}
		}
	case *ssa.Function:
		return func(fr *frame) func() {
			a := get(fr, 0)
			return func() { fr.in.callFn(fr, f, a, nil, fr) }
		}
	}
	fv := cp.op(c.Value)
	return func(fr *frame) func() {
		f := fv(fr)
		a := get(fr, 0)
		return func() { fr.in.callVal(fr, f, a, fr, fnm) }
	}
}

func (in *Interp) doRecover(fr *frame) Val {
	d := fr.deferOf
	if d == nil || d.panicking == nil || d.recovered {
		return Val{}
	}
	d.recovered = true
	return d.panicking.v
}

func (cp *comp) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []opnd) opnd {
	var t0 types.Type
	if len(c.Args) > 0 {
		t0 = c.Args[0].Type()
	}
	fnm := cp.fn.String()
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		switch ti(t0).k {
		case kString:
			return func(fr *frame) Val { return cint(fr.in.strLen(args[0](fr))) }
		case kSlice:
			return func(fr *frame) Val {
				s := sliceOf(args[0](fr))
				if s == nil {
					return Val{}
				}
				if isCap {
					return s.cap
				}
				return s.len
			}
		case kMap:
			return func(fr *frame) Val {
				v := args[0](fr)
				fr.in.ckPoison(v)
				if m, _ := v.p.(*MapObj); m != nil {
					return cint(m.n)
				}
				return Val{}
			}
		case kChan:
			return func(fr *frame) Val {
				ch, _ := args[0](fr).p.(*ChanObj)
				if ch == nil {
					return Val{}
				}
				if isCap {
					return cint(ch.cap)
				}
				return cint(len(ch.buf))
			}
		case kAgg:
			n := ti(t0).alen
			return func(fr *frame) Val { return cint(n) }
		case kPtr:
			n := ti(ti(t0).et).alen
			return func(fr *frame) Val { return cint(n) }
		}
	case "append":
		es := ti(t0).en
		size := sizeof(ti(t0).et)
		isStr := ti(c.Args[1].Type()).k == kString
		return func(fr *frame) Val { return fr.in.appendVal(args[0](fr), args[1](fr), es, size, isStr) }
	case "copy":
		isStr := ti(c.Args[1].Type()).k == kString
		return func(fr *frame) Val { return fr.in.copyVal(args[0](fr), args[1](fr), isStr) }
	case "delete":
		kt := t0.Underlying().(*types.Map).Key()
		return func(fr *frame) Val {
			if m, _ := args[0](fr).p.(*MapObj); m != nil {
				fr.in.mapDelete(m, kt, args[1](fr))
			}
			return Val{}
		}
	case "clear":
		return func(fr *frame) Val {
			v := args[0](fr)
			switch m := v.p.(type) {
			case *MapObj:
				fr.in.mapJournal(m)
				*m = MapObj{idx: map[any]int{}, ep: m.ep}
			case *Slice:
				n := fr.in.concInt(m.len) * m.es
				for i := 0; i < n; i++ {
					fr.in.set(m.o, m.off+i, Val{})
				}
			}
			return Val{}
		}
	case "panic":
		return func(fr *frame) Val {
			v := args[0](fr)
			panic(&goPanic{v: v, msg: fr.in.panicText(v), where: fnm})
		}
	case "recover":
		return func(fr *frame) Val { return fr.in.doRecover(fr) }
	case "close":
		return func(fr *frame) Val { fr.in.chanClose(args[0](fr)); return Val{} }
	case "print", "println":
		return func(fr *frame) Val { return Val{} }
	case "min", "max":
		isMin := b.Name() == "min"
		t := ti(t0)
		return func(fr *frame) Val {
			r := args[0](fr)
			for _, a := range args[1:] {
				v := a(fr)
				var lt *Term
				switch t.k {
				case kInt:
					lt = fr.in.tt.bin(OSlt, fr.in.term(v, t.w), fr.in.term(r, t.w))
				case kUint:
					lt = fr.in.tt.Ult(fr.in.term(v, t.w), fr.in.term(r, t.w))
				case kFloat:
					lt = fr.in.tt.bin(OFLt, fr.in.term(v, t.w), fr.in.term(r, t.w))
				default:
					fr.in.unsupported("min/max type")
				}
				x, y := v, r
				if !isMin {
					x, y = r, v
				}
				r = fromTerm(fr.in.tt.Ite(lt, fr.in.term(x, t.w), fr.in.term(y, t.w)))
				if !isMin {
					// lt means v<r: max keeps r
				}
			}
			return r
		}
	case "String": // unsafe.String(ptr, len)
		return func(fr *frame) Val {
			p := args[0](fr)
			n := fr.in.concInt(args[1](fr))
			if n == 0 {
				return Val{}
			}
			o := p.p.(*Obj)
			vs := make([]Val, n)
			for i := range vs {
				vs[i] = o.get(int(p.c) + i)
			}
			return mkSymStr(vs)
		}
	case "StringData":
		return func(fr *frame) Val {
			s := sliceOf(fr.in.mkValBytes(strBytes(args[0](fr))))
			return Val{p: s.o}
		}
	case "SliceData":
		return func(fr *frame) Val {
			s := sliceOf(args[0](fr))
			if s == nil {
				return Val{}
			}
			return Val{c: uint64(s.off), p: s.o}
		}
	case "Slice": // unsafe.Slice
		es := ti(ti(t0).et).n
		return func(fr *frame) Val {
			p := args[0](fr)
			if p.p == nil {
				return Val{}
			}
			n := args[1](fr)
			return Val{p: &Slice{p.p.(*Obj), int(p.c), n, n, es}}
		}
	case "Add":
	case "ssa:wrapnilchk":
		return func(fr *frame) Val {
			v := args[0](fr)
			if v.p == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference", fnm)
			}
			return v
		}
	case "ssa:deferstack":
		return func(fr *frame) Val { return Val{} }
	}
	n := b.Name()
	return func(fr *frame) Val { fr.in.unsupported("builtin " + n); return Val{} }
}

func (in *Interp) appendVal(a, b Val, es, size int, isStr bool) Val {
	var add []Val
	if isStr {
		in.ckPoison(b)
		add = strBytes(b)
	} else {
		add = in.sliceVals(b)
	}
	if len(add) == 0 && es > 0 {
		return a
	}
	s := sliceOf(a)
	n, capv := 0, 0
	if s != nil {
		n, capv = in.concInt(s.len), in.concInt(s.cap)
	}
	k := 0
	if es > 0 {
		k = len(add) / es
	} else if bs := sliceOf(b); bs != nil {
		k = in.concInt(bs.len)
	}
	if n+k <= capv {
		for i, v := range add {
			in.set(s.o, s.off+n*es+i, v)
		}
		return Val{p: &Slice{s.o, s.off, cint(n + k), s.cap, es}}
	}
	nc := growCap(n, capv, n+k, size)
	in.account(cint(nc), size)
	o := in.newObj(nc*es, "append")
	for i := 0; i < n*es; i++ {
		o.rawset(i, s.o.get(s.off+i))
	}
	for i, v := range add {
		o.rawset(n*es+i, v)
	}
	return Val{p: &Slice{o, 0, cint(n + k), cint(nc), es}}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mirrors runtime.growslice's capacity computation.
func growCap(oldLen, oldCap, newLen, size int) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if size == 0 {
		return newLen
	}
	b := nc * size
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				b = c
				break
			}
		}
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	return b / size
}

func (in *Interp) copyVal(a, b Val, isStr bool) Val {
	d := sliceOf(a)
	if d == nil {
		return Val{}
	}
	var src []Val
	var sl Val
	var s *Slice
	if isStr {
		in.ckPoison(b)
		src = strBytes(b)
		sl = cint(len(src))
	} else {
		s = sliceOf(b)
		if s == nil {
			return Val{}
		}
		sl = s.len
	}
	// n = min(len(d), len(s))
	n := d.len
	if n.p == nil && sl.p == nil {
		if sl.c < n.c {
			n = sl
		}
	} else if in.branch(in.tt.Ult(in.term(sl, 64), in.term(n, 64))) {
		n = sl
	}
	k := in.concInt(n)
	if k == 0 {
		return Val{}
	}
	if isStr {
		for i := 0; i < k; i++ {
			in.set(d.o, d.off+i, src[i])
		}
		return cint(k)
	}
	es := d.es
	if d.o == s.o && d.off > s.off {
		for i := k*es - 1; i >= 0; i-- {
			in.set(d.o, d.off+i, s.o.get(s.off+i))
		}
	} else {
		for i := 0; i < k*es; i++ {
			in.set(d.o, d.off+i, s.o.get(s.off+i))
		}
	}
	return cint(k)
}

// ---- conversions

func (cp *comp) convert(xv ssa.Value, res ssa.Value, tt types.Type) instr {
	d, o := cp.reg[res], cp.op(xv)
	if tp, ok := tt.(*types.TypeParam); ok {
		_ = tp
		return func(fr *frame) { fr.in.unsupported("convert type param") }
	}
	f, t := ti(xv.Type()), ti(tt)
	num := func(k tkind) bool { return k == kInt || k == kUint }
	switch {
	case num(f.k) && num(t.k):
		return func(fr *frame) {
			v := o(fr)
			if v.p == nil {
				if f.k == kInt {
					fr.regs[d] = Val{c: uint64(sx(v.c, f.w)) & mask(t.w)}
				} else {
					fr.regs[d] = Val{c: v.c & mask(t.w)}
				}
				return
			}
			x := fr.in.term(v, f.w)
			if f.k == kInt {
				fr.regs[d] = fromTerm(fr.in.tt.SExt(x, t.w))
			} else {
				fr.regs[d] = fromTerm(fr.in.tt.ZExt(x, t.w))
			}
		}
	case num(f.k) && t.k == kFloat:
		op := OFFromU
		if f.k == kInt {
			op = OFFromS
		}
		return func(fr *frame) { fr.regs[d] = fromTerm(fr.in.tt.FConv(op, t.w, fr.in.term(o(fr), f.w))) }
	case f.k == kFloat && num(t.k):
		return func(fr *frame) {
			x := fr.in.term(o(fr), f.w)
			fr.regs[d] = fromTerm(fr.in.floatToInt(x, f.w, t))
		}
	case f.k == kFloat && t.k == kFloat:
		return func(fr *frame) {
			x := fr.in.term(o(fr), f.w)
			if f.w == t.w {
				fr.regs[d] = fromTerm(x)
				return
			}
			fr.regs[d] = fromTerm(fr.in.tt.FConv(OFConv, t.w, x))
		}
	case t.k == kString && f.k == kSlice:
		if ti(f.et).w == 8 {
			return func(fr *frame) {
				v := o(fr)
				b := fr.in.sliceVals(v)
				fr.in.account(cint(len(b)), 1)
				fr.regs[d] = mkSymStr(b)
			}
		}
		return func(fr *frame) { // []rune -> string
			var sb []byte
			for _, x := range fr.in.sliceVals(o(fr)) {
				if x.p != nil {
					r := fr.in.concretize(x.p.(*Term))
					x = Val{c: r}
				}
				sb = utf8.AppendRune(sb, rune(int32(x.c)))
			}
			fr.regs[d] = mkstr(string(sb))
		}
	case t.k == kString && num(f.k):
		return func(fr *frame) {
			v := o(fr)
			if v.p != nil {
				if x := fr.in.ext64(v, f); fr.in.branch(fr.in.tt.Ult(fr.in.term(x, 64), fr.in.tt.Const(64, 0x80))) {
					fr.regs[d] = mkSymStr([]Val{fromTerm(fr.in.tt.ZExt(fr.in.term(v, f.w), 8))})
					return
				}
			}
			x := fr.in.concInt(fr.in.ext64(v, f))
			fr.regs[d] = mkstr(string(rune(x)))
		}
	case t.k == kSlice && f.k == kString:
		if ti(t.et).w == 8 {
			return func(fr *frame) {
				v := o(fr)
				fr.in.ckPoison(v)
				b := strBytes(v)
				fr.in.account(cint(len(b)), 1)
				fr.regs[d] = fr.in.mkValBytes(b)
			}
		}
		return func(fr *frame) { // string -> []rune
			it := &StrIter{s: o(fr)}
			var r []Val
			for {
				n := fr.in.nextStr(it).p.(Tuple)
				if n[0].c == 0 {
					break
				}
				r = append(r, n[2])
			}
			fr.regs[d] = fr.in.mkValBytes(r)
		}
	case t.k == kString && f.k == kString, t.k == kUnsafe, f.k == kUnsafe, t.k == kPtr && f.k == kPtr, t.k == kSlice && f.k == kSlice:
		if f.k == kUnsafe && num(t.k) || num(f.k) && t.k == kUnsafe {
			break
		}
		return func(fr *frame) { fr.regs[d] = o(fr) }
	case f.k == t.k && f.k != kComplex:
		return func(fr *frame) { fr.regs[d] = o(fr) }
	}
	s := fmt.Sprintf("convert %v -> %v in %s", xv.Type(), tt, cp.fn)
	return func(fr *frame) { fr.in.unsupported(s) }
}

func (in *Interp) nextStr(it *StrIter) Val {
	n := in.strLen(it.s)
	if it.i >= n {
		return Val{p: Tuple{Val{}, Val{}, Val{}}}
	}
	i := it.i
	b := strAt(it.s, i)
	if b.p == nil && b.c < 0x80 || b.p != nil && in.branch(in.tt.Ult(in.term(b, 8), in.tt.Const(8, 0x80))) {
		it.i++
		return Val{p: Tuple{cbool(true), cint(i), fromTerm(in.tt.ZExt(in.term(b, 8), 32))}}
	}
	rest := strSlice(it.s, i, min(n, i+4))
	if s, ok := concStr(rest); ok {
		r, sz := utf8.DecodeRuneInString(s)
		it.i += sz
		return Val{p: Tuple{cbool(true), cint(i), Val{c: uint64(uint32(r))}}}
	}
	fn := in.eng.lookup("unicode/utf8", "DecodeRuneInString")
	t := in.callFn(in.cur.top, fn, []Val{rest}, nil, nil).p.(Tuple)
	it.i += in.concInt(t[1])
	return Val{p: Tuple{cbool(true), cint(i), t[0]}}
}

// ---- channels

func (in *Interp) chanOf(v Val) *ChanObj {
	in.ckPoison(v)
	c, _ := v.p.(*ChanObj)
	return c
}

func (in *Interp) chanSend(cv, v Val) {
	c := in.chanOf(cv)
	in.yield()
	if c == nil {
		in.block(func() bool { return false })
	}
	if c.closed {
		in.rtPanic("send on closed channel", "")
	}
	if in.chanTrySend(c, v) {
		return
	}
	w := &chanWaiter{g: in.cur, v: v}
	c.sendq = append(c.sendq, w)
	in.block(func() bool { return w.done || c.closed })
	if !w.done {
		in.rtPanic("send on closed channel", "")
	}
}

func (in *Interp) chanTrySend(c *ChanObj, v Val) bool {
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		w.v, w.ok, w.done = v, true, true
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (in *Interp) chanTryRecv(c *ChanObj) (Val, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, w.v)
			w.done = true
		}
		return v, true, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		w.done = true
		return w.v, true, true
	}
	if c.closed {
		return Val{}, false, true
	}
	return Val{}, false, false
}

func (in *Interp) chanRecv(cv Val) (Val, bool) {
	c := in.chanOf(cv)
	in.yield()
	if c == nil {
		in.block(func() bool { return false })
	}
	if v, ok, done := in.chanTryRecv(c); done {
		return v, ok
	}
	w := &chanWaiter{g: in.cur}
	c.recvq = append(c.recvq, w)
	in.block(func() bool { return w.done || c.closed })
	if w.done {
		return w.v, w.ok
	}
	return Val{}, false
}

func (in *Interp) chanClose(cv Val) {
	c := in.chanOf(cv)
	if c == nil {
		in.rtPanic("close of nil channel", "")
	}
	if c.closed {
		in.rtPanic("close of closed channel", "")
	}
	c.closed = true
	in.yield()
}

func (cp *comp) sel(x *ssa.Select) instr {
	d := cp.reg[x]
	type st struct {
		send   bool
		ch, v  opnd
		hasRes bool
	}
	var ss []st
	nrecv := 0
	for _, s := range x.States {
		e := st{send: s.Dir == types.SendOnly, ch: cp.op(s.Chan)}
		if e.send {
			e.v = cp.op(s.Send)
		} else {
			nrecv++
		}
		ss = append(ss, e)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		in := fr.in
		in.yield()
		chs := make([]*ChanObj, len(ss))
		vs := make([]Val, len(ss))
		for i, s := range ss {
			chs[i] = in.chanOf(s.ch(fr))
			if s.send {
				vs[i] = s.v(fr)
			}
		}
		canDo := func(i int) bool {
			c := chs[i]
			if c == nil {
				return false
			}
			if ss[i].send {
				return c.closed || len(c.recvq) > 0 || len(c.buf) < c.cap
			}
			return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed
		}
		any := func() []int {
			var r []int
			for i := range ss {
				if canDo(i) {
					r = append(r, i)
				}
			}
			return r
		}
		r := any()
		if len(r) == 0 && blocking {
			// polling model of select: no waiter is queued, so two selects
			// on the two sides of an unbuffered channel would not meet
			in.block(func() bool { return len(any()) > 0 })
			r = any()
		}
		idx := -1
		res := make(Tuple, 2+nrecv)
		if len(r) > 0 {
			idx = r[in.choose(len(r), "select")]
			if ss[idx].send {
				if chs[idx].closed {
					in.rtPanic("send on closed channel", "")
				}
				in.chanTrySend(chs[idx], vs[idx])
			} else {
				v, ok, _ := in.chanTryRecv(chs[idx])
				res[1] = cbool(ok)
				k := 2
				for i := 0; i < idx; i++ {
					if !ss[i].send {
						k++
					}
				}
				res[k] = v
			}
		}
		res[0] = Val{c: uint64(int64(idx))}
		fr.regs[d] = Val{p: res}
	}
}

// ---- if-conversion

// tryMerge evaluates the pure acyclic region between b's branch and its
// immediate post-dominator, assigning the join's phis by ite. Returns the join
// block or -1.
func (in *Interp) tryMerge(fr *frame, b *block) (res int) {
	j := b.ipdom
	if j < 0 || in.spec > 0 || in.eng.noMerge {
		return -1
	}
	code := fr.code
	// static region check
	if !regionOK(code, b, j) {
		return -1
	}
	jb := code.blocks[j]
	saved := fr.prev
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(specAbort); is {
					ok = false
					in.spec = 0
					return
				}
				if pe, is := r.(pathEnd); is && pe.kind == endUnsupported {
					ok = false
					in.spec = 0
					return
				}
				panic(r)
			}
		}()
		in.spec = 1
		vals := in.evalTo(fr, b, j, true)
		in.spec = 0
		for i, p := range jb.phis {
			fr.regs[p.dst] = vals[i]
		}
		return true
	}()
	if !ok {
		fr.prev = saved
		return -1
	}
	fr.prev = ^0
	return j
}

// evalTo executes block b (its instructions already executed when first) and
// returns the phi values at join j.
func (in *Interp) evalTo(fr *frame, b *block, j int, first bool) []Val {
	if !first {
		if !b.pure {
			panic(specAbort{})
		}
		in.steps += b.n
		for _, i := range b.ins {
			i(fr)
		}
	}
	phis := fr.code.blocks[j].phis
	edge := func(k int) []Val {
		s := b.succs[k]
		if s == j {
			r := make([]Val, len(phis))
			for i, p := range phis {
				r[i] = p.src[b.predIdx[k]](fr)
			}
			return r
		}
		nb := fr.code.blocks[s]
		fr.prev = b.predIdx[k]
		if len(nb.phis) > 0 {
			fr.doPhis(nb)
		}
		return in.evalTo(fr, nb, j, false)
	}
	if b.ifCond == nil {
		return edge(0)
	}
	c := in.term(b.ifCond(fr), 0)
	if c.isC() {
		if c.k == 1 {
			return edge(0)
		}
		return edge(1)
	}
	t := edge(0)
	f := edge(1)
	r := make([]Val, len(t))
	for i, p := range phis {
		switch p.k {
		case kBool, kInt, kUint, kFloat:
			r[i] = fromTerm(in.tt.Ite(c, in.term(t[i], p.w), in.term(f[i], p.w)))
		default:
			if !sameVal(t[i], f[i]) {
				panic(specAbort{})
			}
			r[i] = t[i]
		}
	}
	return r
}

// sameVal reports that the values are one.
func sameVal(a, b Val) bool {
	if a.c != b.c {
		return false
	}
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case Slice:
		y, ok := b.p.(Slice)
		return ok && x.o == y.o && x.off == y.off && x.es == y.es && sameVal(x.len, y.len) && sameVal(x.cap, y.cap)
	case *Slice:
		y, ok := b.p.(*Slice)
		return ok && (x == y || x.o == y.o && x.off == y.off && x.es == y.es && sameVal(x.len, y.len) && sameVal(x.cap, y.cap))
	case *Term, *Obj, *SymStr, *SymPtr, *MapObj, *Closure, string:
		return a.p == b.p
	}
	return false
}

type regKey struct {
	c *Code
	b int
}

var regionCache sync.Map

func regionOK(c *Code, b *block, j int) bool {
	k := regKey{c, b.idx}
	if v, ok := regionCache.Load(k); ok {
		return v.(bool)
	}
	count := 0
	onstack := map[int]bool{b.idx: true}
	// A block that dominates b is the head of a loop around b. Its registers
	// live on after the region without a phi at its end.
	for d := b.idom; d >= 0; d = c.blocks[d].idom {
		onstack[d] = true
	}
	var walk func(x *block) bool
	walk = func(x *block) bool {
		for _, s := range x.succs {
			if s == j {
				continue
			}
			nb := c.blocks[s]
			if onstack[s] {
				return false
			}
			if !nb.pure || len(nb.succs) == 0 {
				continue // given up when it is reached
			}
			count++
			if count > 40 {
				return false
			}
			onstack[s] = true
			if !walk(nb) {
				return false
			}
			delete(onstack, s)
		}
		return true
	}
	r := walk(b)
	regionCache.Store(k, r)
	return r
}

// ---- globals and init

func (in *Interp) global(g *ssa.Global) *Obj {
	if o, ok := in.globals[g]; ok {
		if in.inited[g.Pkg] {
			return o
		}
	}
	in.ensureInit(g.Pkg)
	if o, ok := in.globals[g]; ok {
		return o
	}
	return in.mkGlobal(g)
}

func (in *Interp) mkGlobal(g *ssa.Global) *Obj {
	ep := in.epoch
	in.epoch = 0
	o := in.newObj(ti(g.Type().Underlying().(*types.Pointer).Elem()).n, g.String())
	in.epoch = ep
	in.globals[g] = o
	return o
}

var initAllowed = map[string]bool{"bytes": true, "errors": true, "io": true, "bufio": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"unicode/utf16": true, "encoding/binary": true, "encoding/hex": true, "encoding/base64": true, "net/url": true, "sort": true, "math": true, "math/bits": true,
	"slices": true, "maps": true, "cmp": true, "path": true, "path/filepath": true, "text/scanner": false, "net/textproto": true, "container/list": true, "io/ioutil": true,
	"math/rand": false, "internal/bytealg": false, "html": true, "mime": false, "iter": true, "internal/oserror": true, "io/fs": true, "internal/fmtsort": true, "context": true, "time": true, "hash": true, "bits": true}

func (e *Engine) initOK(p *ssa.Package) bool {
	path := p.Pkg.Path()
	if strings.HasPrefix(path, "github.com/nareix/joy5") {
		return true
	}
	return initAllowed[path]
}

// ensureInit runs package init lazily in epoch 0 with unsupported parts
// leaving poison.
func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	if !in.eng.initOK(p) {
		return
	}
	init := p.Func("init")
	if init == nil {
		return
	}
	// save path state
	ep, st, spec, rep := in.epoch, in.steps, in.spec, in.maxSteps
	in.epoch = 0
	in.maxSteps = 1 << 40
	in.spec = 0
	al := in.allocLimit
	in.allocLimit = 0
	in.runInit(init)
	in.allocLimit = al
	in.epoch, in.steps, in.spec, in.maxSteps = ep, st, spec, rep
}

func (in *Interp) runInit(fn *ssa.Function) {
	c := codeOf(fn)
	c.compile()
	if c.err != "" {
		return
	}
	fr := &frame{in: in, code: c, regs: make([]Val, c.nregs)}
	old := in.cur.top
	in.cur.top = fr
	defer func() { in.cur.top = old }()
	// execute linearly, skipping the init guard and calls to other inits
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				continue
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok && g.Name() == "init$guard" {
					continue
				}
			case *ssa.Call:
				if f, ok := x.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != fn.Pkg {
					continue
				}
				if f, ok := x.Call.Value.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init#") {
					func() {
						defer func() {
							if r := recover(); r != nil {
								in.initNote(fn, i, r)
							}
						}()
						in.callFn(fr, f, nil, nil, nil)
					}()
					continue
				}
			case *ssa.UnOp:
				if g, ok := x.X.(*ssa.Global); ok && g.Name() == "init$guard" {
					continue
				}
			}
			cp := &comp{c: c, fn: fn, reg: nil}
			_ = cp
			func() {
				defer func() {
					if r := recover(); r != nil {
						in.initNote(fn, i, r)
						if v, ok := i.(ssa.Value); ok {
							fr.regs[in.regIndex(c, v)] = Val{p: &Poison{fmt.Sprintf("init of %s: %v", fn.Pkg.Pkg.Path(), r)}}
						}
					}
				}()
				in.initInstr(c, fr, i)
			}()
		}
	}
}

func (in *Interp) initNote(fn *ssa.Function, i ssa.Instruction, r any) {
	if pe, ok := r.(pathEnd); ok {
		r = pe.msg
	}
	if gp, ok := r.(*goPanic); ok {
		r = gp.msg
	}
	in.cur.depth = 0
	in.eng.note(fmt.Sprintf("init %s: %v: %v", fn.Pkg.Pkg.Path(), i, r))
}

var initCompMu sync.Mutex
var initComps = map[*Code]*comp{}

func (in *Interp) initComp(c *Code) *comp {
	initCompMu.Lock()
	defer initCompMu.Unlock()
	cp := initComps[c]
	if cp == nil {
		cp = &comp{c: c, fn: c.fn, reg: map[ssa.Value]int{}}
		n := 0
		for _, p := range c.fn.Params {
			cp.reg[p] = n
			n++
		}
		for _, b := range c.fn.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok {
					cp.reg[v] = n
					n++
				}
			}
		}
		initComps[c] = cp
	}
	return cp
}

func (in *Interp) regIndex(c *Code, v ssa.Value) int { return in.initComp(c).reg[v] }

func (in *Interp) initInstr(c *Code, fr *frame, i ssa.Instruction) {
	cp := in.initComp(c)
	if _, ok := i.(*ssa.Phi); ok {
		return
	}
	if f := cp.instr(i); f != nil {
		f(fr)
	}
}

var _ = token.NoPos

// smallInt reports that t is a signed value of magnitude below 2^53.
func smallInt(t *Term) bool {
	lo, hi := sx(t.lo, t.w), sx(t.hi, t.w)
	return lo <= hi && (lo >= 0) == (hi >= 0) && lo > -1<<53 && hi < 1<<53
}

// fint returns the non-negative integer below 2^50 that float x equals.
func (tt *TermTab) fint(x *Term) *Term {
	switch x.op {
	case OFFromS:
		if x.a.slo >= 0 && x.a.shi < 1<<50 {
			return tt.SExt(x.a, 64)
		}
	case OFFromU:
		if x.a.hi < 1<<50 {
			return tt.ZExt(x.a, 64)
		}
	case OConst:
		if f := math.Float64frombits(x.k); x.w == 64 && f >= 0 && f < 1<<50 && f == math.Trunc(f) && !math.Signbit(f) {
			return tt.Const(64, uint64(f))
		}
	case OFMul:
		if a, b := tt.fint(x.a), tt.fint(x.b); a != nil && b != nil {
			if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l < 1<<50 {
				return tt.bin(OMul, a, b)
			}
		}
	}
	return nil
}

// fratio returns n and d when x is fl(n/d), scaled by powers of two at most:
// then floor(x) is n/d rounded down.
func (tt *TermTab) fratio(x *Term) (n, d *Term) {
	if x.op != OFDiv {
		return nil, nil
	}
	if n, d = tt.fint(x.a), tt.fint(x.b); n != nil && d != nil {
		return
	}
	if n, d = tt.fratio(x.a); n != nil && x.b.isC() {
		if k := tt.fint(x.b); k != nil && k.k != 0 && k.k&(k.k-1) == 0 && d.hi < 1<<50/k.k {
			return n, tt.bin(OMul, d, k)
		}
	}
	return nil, nil
}

// floatToInt follows the amd64 code the compiler generates, out-of-range
// values included.
func (in *Interp) floatToInt(x *Term, fw uint8, t *tinfo) *Term {
	tt := in.tt
	if fw == 32 {
		x = tt.FConv(OFConv, 64, x)
	}
	fl := func(f float64) *Term { return tt.Const(64, math.Float64bits(f)) }
	var i *Term
	if x.op == OFFromS && smallInt(x.a) || x.op == OFFromU && x.a.hi < 1<<53 {
		i = x.a
		if x.op == OFFromS {
			i = tt.SExt(i, 64)
		} else {
			i = tt.ZExt(i, 64)
		}
	}
	if x.op == OFDiv && x.a.op == OFFromS && smallInt(x.a.a) && x.b.isC() {
		// an integer quotient below 2^53 never rounds up to an integer
		f := math.Float64frombits(x.b.k)
		if f >= 1 && f < 1<<53 && f == math.Trunc(f) {
			i = tt.bin(OSDiv, tt.SExt(x.a.a, 64), tt.Const(64, uint64(int64(f))))
		}
	}
	if n, k, ok := tt.dyad(x); i == nil && ok && k < 53 {
		i = tt.bin(OLshr, n, tt.Const(64, uint64(k)))
	}
	if y := x; i == nil {
		if y.op == OFFloor || y.op == OFTrunc {
			y = y.a
		}
		if n, d := tt.fratio(y); n != nil {
			// a quotient this small never rounds up to an integer
			i = tt.Ite(tt.Eq(d, tt.Const(64, 0)), tt.Const(64, 1<<63), tt.bin(OUDiv, n, d))
		}
	}
	to64 := func(x *Term) *Term {
		inr := tt.BAnd(tt.bin(OFLe, fl(-9223372036854775808), x), tt.bin(OFLt, x, fl(9223372036854775808)))
		return tt.Ite(inr, tt.FConv(OFToS, 64, x), tt.Const(64, 1<<63))
	}
	if i != nil {
		to64 = func(*Term) *Term { return i }
	}
	switch {
	case t.w == 64 && (t.k == kInt || i != nil):
		return to64(x)
	case t.w == 64:
		big := fl(9223372036854775808)
		return tt.Ite(tt.bin(OFLt, x, big), to64(x), tt.bin(OOr, to64(tt.bin(OFSub, x, big)), tt.Const(64, 1<<63)))
	case t.w == 32 && t.k == kUint:
		return tt.Extract(to64(x), 0, 32)
	}
	if i != nil && i.hi < 1<<31 {
		return tt.Extract(i, 0, t.w)
	}
	ok := tt.BAnd(tt.bin(OFLt, fl(-2147483649), x), tt.bin(OFLt, x, fl(2147483648)))
	r := tt.Ite(ok, tt.Extract(tt.FConv(OFToS, 64, x), 0, 32), tt.Const(32, 1<<31))
	if t.w < 32 {
		r = tt.Extract(r, 0, t.w)
	}
	return r
}
