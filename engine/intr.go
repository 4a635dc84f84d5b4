package main

import (
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"go/types"
	"hash"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

const vfPath = "github.com/nareix/joy5/zzvf"

func findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "log" && fn.Synthetic == "" {
		if strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "Panic") {
			return func(in *Interp, fr *frame, a []Val) Val {
				panic(&goPanic{v: Val{p: &Iface{types.Typ[types.String], mkstr("log.Fatal")}}, msg: "log.Fatal", where: "log"})
			}
		}
		return func(in *Interp, fr *frame, a []Val) Val { return zeroRet(fn) }
	}
	return nil
}

func nop(in *Interp, fr *frame, a []Val) Val { return Val{} }

func (in *Interp) ptrGet(p Val) Val {
	o, ok := p.p.(*Obj)
	if !ok {
		if p.p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference", "")
		}
		in.unsupported("ptrGet")
	}
	return o.get(int(p.c))
}
func (in *Interp) ptrSet(p, v Val) {
	o, ok := p.p.(*Obj)
	if !ok {
		if p.p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference", "")
		}
		in.unsupported("ptrSet")
	}
	in.set(o, int(p.c), v)
}

// bytesEq on two value lists
func (in *Interp) bytesEq(a, b []Val) *Term {
	if len(a) != len(b) {
		return in.tt.False
	}
	r := in.tt.True
	for i := len(a) - 1; i >= 0; i-- {
		r = in.tt.BAnd(in.tt.Eq(in.term(a[i], 8), in.term(b[i], 8)), r)
		if r == in.tt.False {
			return r
		}
	}
	return r
}

func (in *Interp) indexByte(b []Val, c Val) Val {
	for i, x := range b {
		if in.branch(in.tt.Eq(in.term(x, 8), in.term(c, 8))) {
			return cint(i)
		}
	}
	return Val{c: ^uint64(0)}
}

func (in *Interp) lastIndexByte(b []Val, c Val) Val {
	for i := len(b) - 1; i >= 0; i-- {
		if in.branch(in.tt.Eq(in.term(b[i], 8), in.term(c, 8))) {
			return cint(i)
		}
	}
	return Val{c: ^uint64(0)}
}

func (in *Interp) indexSub(b, s []Val) Val {
	for i := 0; i+len(s) <= len(b); i++ {
		if in.branch(in.bytesEq(b[i:i+len(s)], s)) {
			return cint(i)
		}
	}
	return Val{c: ^uint64(0)}
}

func (in *Interp) countByte(b []Val, c Val) Val {
	r := in.tt.Const(64, 0)
	for _, x := range b {
		e := in.tt.Eq(in.term(x, 8), in.term(c, 8))
		r = in.tt.bin(OAdd, r, in.tt.Ite(e, in.tt.Const(64, 1), in.tt.Const(64, 0)))
	}
	return fromTerm(r)
}

func (in *Interp) compareBytes(a, b []Val) Val {
	x, y := Val{p: &SymStr{a}}, Val{p: &SymStr{b}}
	lt := in.strLess(x, y)
	eq := in.bytesEq(a, b)
	tt := in.tt
	return fromTerm(tt.Ite(eq, tt.Const(64, 0), tt.Ite(lt, tt.Const(64, ^uint64(0)), tt.Const(64, 1))))
}

func (in *Interp) mkIface(t types.Type, v Val) Val { return Val{p: &Iface{t, v}} }

func (in *Interp) mkErr(msg string) Val {
	o := in.newObj(1, "err")
	o.rawset(0, mkstr(msg))
	return in.mkIface(in.eng.errStringType, Val{p: o})
}

func (in *Interp) mkErrStr(msg Val) Val {
	o := in.newObj(1, "err")
	o.rawset(0, msg)
	return in.mkIface(in.eng.errStringType, Val{p: o})
}

// callMethod invokes a named method on an interface value if present.
func (in *Interp) callMethod(fr *frame, iv Val, name string, args ...Val) (Val, bool) {
	i, _ := iv.p.(*Iface)
	if i == nil {
		return Val{}, false
	}
	fn := in.eng.methodByName(i.t, name)
	if fn == nil {
		return Val{}, false
	}
	return in.callFn(fr, fn, append([]Val{i.v}, args...), nil, nil), true
}

// ---- fmt

func (in *Interp) fmtArg(fr *frame, v Val, verb byte, flags string) []Val {
	host := func(x any) []Val { return strBytes(mkstr(fmt.Sprintf("%"+flags+string(verb), x))) }
	i, _ := v.p.(*Iface)
	if i == nil {
		if verb == 'v' || verb == 's' {
			return strBytes(mkstr("<nil>"))
		}
		return strBytes(mkstr("%!" + string(verb) + "(<nil>)"))
	}
	if verb == 'T' {
		return strBytes(mkstr(i.t.String()))
	}
	if verb == 's' || verb == 'v' || verb == 'q' {
		if fn := in.eng.methodByName(i.t, "Error"); fn != nil && fn.Signature.Params().Len() == 0 {
			s := in.callFn(fr, fn, []Val{i.v}, nil, nil)
			return strBytes(s)
		}
		if fn := in.eng.methodByName(i.t, "String"); fn != nil && fn.Signature.Params().Len() == 0 {
			s := in.callFn(fr, fn, []Val{i.v}, nil, nil)
			return strBytes(s)
		}
	}
	t := ti(i.t)
	switch t.k {
	case kString:
		if s, ok := concStr(i.v); ok {
			return host(s)
		}
		if (verb == 's' || verb == 'v') && flags == "" {
			return strBytes(i.v)
		}
	case kInt:
		if i.v.p == nil {
			return host(sx(i.v.c, t.w))
		}
	case kUint:
		if i.v.p == nil {
			return host(i.v.c)
		}
	case kBool:
		if i.v.p == nil {
			return host(i.v.c == 1)
		}
	case kFloat:
		if i.v.p == nil {
			if t.w == 64 {
				return host(math.Float64frombits(i.v.c))
			}
			return host(math.Float32frombits(uint32(i.v.c)))
		}
	case kSlice:
		if ti(t.et).w == 8 && ti(t.et).k == kUint {
			vs := in.sliceVals(i.v)
			if b, ok := concBytes(vs); ok {
				return host(b)
			}
			if verb == 's' {
				return vs
			}
			if verb == 'x' || verb == 'X' {
				var r []Val
				for _, x := range vs {
					r = append(r, in.hexByte(x, verb)...)
				}
				return r
			}
		}
	}
	if (t.k == kInt || t.k == kUint) && i.v.p != nil && (verb == 'x' || verb == 'X' || verb == 'd' || verb == 'v') {
		// symbolic numbers are concretised only when few values remain
		tm := in.term(i.v, t.w)
		if tm.hi-tm.lo < 256 {
			k := in.concretize(tm)
			if t.k == kInt {
				return host(sx(k, t.w))
			}
			return host(k)
		}
	}
	in.side["fmtOpaque"] = true
	return strBytes(mkstr("<?>"))
}

func (in *Interp) hexByte(x Val, verb byte) []Val {
	t := in.term(x, 8)
	d := func(n *Term) Val {
		a := uint64('a' - 10)
		if verb == 'X' {
			a = 'A' - 10
		}
		z := in.tt.ZExt(n, 8)
		return fromTerm(in.tt.Ite(in.tt.Ult(z, in.tt.Const(8, 10)), in.tt.bin(OAdd, z, in.tt.Const(8, '0')), in.tt.bin(OAdd, z, in.tt.Const(8, a))))
	}
	return []Val{d(in.tt.Extract(t, 4, 4)), d(in.tt.Extract(t, 0, 4))}
}

func (in *Interp) sprintf(fr *frame, f Val, args []Val) Val {
	s, ok := concStr(f)
	if !ok {
		return mkstr("<fmt>")
	}
	var out []Val
	lit := func(c byte) { out = append(out, Val{c: uint64(c)}) }
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit(s[i])
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			lit('%')
			continue
		}
		verb := s[j]
		if verb == '%' {
			lit('%')
		} else if k < len(args) {
			if verb == 'w' {
				verb = 'v'
			}
			out = append(out, in.fmtArg(fr, args[k], verb, s[i+1:j])...)
			k++
		}
		i = j
	}
	return mkSymStr(out)
}

func (in *Interp) sprint(fr *frame, args []Val, ln bool) Val {
	var out []Val
	for i, a := range args {
		if i > 0 && (ln || !(in.isStrIface(args[i-1]) || in.isStrIface(a))) {
			out = append(out, Val{c: ' '})
		}
		out = append(out, in.fmtArg(fr, a, 'v', "")...)
	}
	if ln {
		out = append(out, Val{c: '\n'})
	}
	return mkSymStr(out)
}

func (in *Interp) isStrIface(v Val) bool {
	i, _ := v.p.(*Iface)
	return i != nil && ti(i.t).k == kString
}

// uninterpreted function over bytes: equal inputs give equal outputs.
func (in *Interp) ufBytes(name string, data []Val, n int, conc func([]byte) []byte) []Val {
	if b, ok := concBytes(data); ok {
		return strBytes(mkstr(string(conc(b))))
	}
	var sb strings.Builder
	sb.WriteString(name)
	for _, v := range data {
		if v.p == nil {
			fmt.Fprintf(&sb, ",%d", v.c)
		} else {
			fmt.Fprintf(&sb, ",t%d", v.p.(*Term).id)
		}
	}
	key := sb.String()
	if r, ok := in.memoUF[key]; ok {
		return r
	}
	r := make([]Val, n)
	for i := range r {
		r[i] = fromTerm(in.freshVar(8, name, "uf"))
	}
	in.memoUF[key] = r
	in.side["uf"] = true
	return r
}

func bytesToVals(b []byte) []Val { return strBytes(mkstr(string(b))) }

func init() {
	I := intrinsics
	// bytes / strings / bytealg
	I["bytes.Equal"] = func(in *Interp, fr *frame, a []Val) Val {
		return fromTerm(in.bytesEq(in.sliceVals(a[0]), in.sliceVals(a[1])))
	}
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["bytes.Compare"] = func(in *Interp, fr *frame, a []Val) Val {
		return in.compareBytes(in.sliceVals(a[0]), in.sliceVals(a[1]))
	}
	I["internal/bytealg.Compare"] = I["bytes.Compare"]
	I["internal/bytealg.CompareString"] = func(in *Interp, fr *frame, a []Val) Val {
		return in.compareBytes(strBytes(a[0]), strBytes(a[1]))
	}
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	I["internal/bytealg.IndexByte"] = func(in *Interp, fr *frame, a []Val) Val { return in.indexByte(in.sliceVals(a[0]), a[1]) }
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["internal/bytealg.IndexByteString"] = func(in *Interp, fr *frame, a []Val) Val { return in.indexByte(strBytes(a[0]), a[1]) }
	I["strings.IndexByte"] = I["internal/bytealg.IndexByteString"]
	I["internal/stringslite.IndexByte"] = I["internal/bytealg.IndexByteString"]
	I["internal/bytealg.LastIndexByte"] = func(in *Interp, fr *frame, a []Val) Val { return in.lastIndexByte(in.sliceVals(a[0]), a[1]) }
	I["internal/bytealg.LastIndexByteString"] = func(in *Interp, fr *frame, a []Val) Val { return in.lastIndexByte(strBytes(a[0]), a[1]) }
	I["internal/bytealg.Count"] = func(in *Interp, fr *frame, a []Val) Val { return in.countByte(in.sliceVals(a[0]), a[1]) }
	I["internal/bytealg.CountString"] = func(in *Interp, fr *frame, a []Val) Val { return in.countByte(strBytes(a[0]), a[1]) }
	I["strings.Index"] = func(in *Interp, fr *frame, a []Val) Val { return in.indexSub(strBytes(a[0]), strBytes(a[1])) }
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/bytealg.IndexString"] = I["strings.Index"]
	I["bytes.Index"] = func(in *Interp, fr *frame, a []Val) Val {
		return in.indexSub(in.sliceVals(a[0]), in.sliceVals(a[1]))
	}
	I["internal/bytealg.Index"] = I["bytes.Index"]
	I["internal/bytealg.MakeNoZero"] = func(in *Interp, fr *frame, a []Val) Val {
		return in.makeSlice(a[0], a[0], 1, 1, "bytealg.MakeNoZero")
	}
	caseMap := func(lo, hi byte, name string) intrinsic {
		return func(in *Interp, fr *frame, a []Val) Val {
			if s, ok := concStr(a[0]); ok {
				if lo == 'a' {
					return mkstr(strings.ToUpper(s))
				}
				return mkstr(strings.ToLower(s))
			}
			bs := strBytes(a[0])
			out := make([]Val, len(bs))
			for i, b := range bs {
				t := in.term(b, 8)
				if !in.branch(in.tt.Ult(t, in.tt.Const(8, 0x80))) {
					p := in.eng.pkgs["strings"]
					if p == nil || p.Func(name) == nil {
						in.unsupported("case mapping of non-ASCII symbolic string")
					}
					p.Build()
					return in.callCode(fr, p.Func(name), a, nil, nil)
				}
				c := in.tt.BAnd(in.tt.Ule(in.tt.Const(8, uint64(lo)), t), in.tt.Ule(t, in.tt.Const(8, uint64(hi))))
				out[i] = fromTerm(in.tt.Ite(c, in.tt.bin(OXor, t, in.tt.Const(8, 0x20)), t))
			}
			return mkSymStr(out)
		}
	}
	I["strings.ToUpper"] = caseMap('a', 'z', "ToUpper")
	I["strings.ToLower"] = caseMap('A', 'Z', "ToLower")
	I["internal/abi.NoEscape"] = func(in *Interp, fr *frame, a []Val) Val { return a[0] }
	I["internal/abi.Escape"] = I["internal/abi.NoEscape"]
	I["(*strings.Builder).copyCheck"] = nop
	I["math.Float64bits"] = func(in *Interp, fr *frame, a []Val) Val { return a[0] }
	I["math.Float64frombits"] = I["math.Float64bits"]
	I["math.Float32bits"] = I["math.Float64bits"]
	I["math.Float32frombits"] = I["math.Float64bits"]
	f1 := func(f func(float64) float64) intrinsic {
		return func(in *Interp, fr *frame, a []Val) Val {
			if a[0].p != nil {
				in.unsupported("math function on symbolic float")
			}
			return Val{c: math.Float64bits(f(math.Float64frombits(a[0].c)))}
		}
	}
	rnd := func(op Op, f func(float64) float64) intrinsic {
		conc := f1(f)
		return func(in *Interp, fr *frame, a []Val) Val {
			if a[0].p == nil {
				return conc(in, fr, a)
			}
			return fromTerm(in.tt.FConv(op, 64, in.term(a[0], 64)))
		}
	}
	I["math.Floor"] = rnd(OFFloor, math.Floor)
	I["math.Ceil"] = rnd(OFCeil, math.Ceil)
	I["math.Trunc"] = rnd(OFTrunc, math.Trunc)
	I["math.Round"] = f1(math.Round)
	I["math.Sqrt"] = f1(math.Sqrt)
	I["math.Abs"] = f1(math.Abs)
	I["math.Log10"] = f1(math.Log10)
	I["math.Modf"] = func(in *Interp, fr *frame, a []Val) Val {
		if a[0].p != nil {
			i, f := in.tt.modf(in.term(a[0], 64))
			return Val{p: Tuple{fromTerm(i), fromTerm(f)}}
		}
		x, y := math.Modf(math.Float64frombits(a[0].c))
		return Val{p: Tuple{Val{c: math.Float64bits(x)}, Val{c: math.Float64bits(y)}}}
	}

	// errors
	I["errors.Is"] = func(in *Interp, fr *frame, a []Val) Val {
		e := a[0]
		for n := 0; n < 20; n++ {
			if e.p == nil {
				return cbool(a[1].p == nil)
			}
			if in.branch(in.eqVal(in.eng.errorType, e, a[1])) {
				return cbool(true)
			}
			r, ok := in.callMethod(fr, e, "Unwrap")
			if !ok {
				return Val{}
			}
			e = r
		}
		return Val{}
	}
	I["errors.As"] = func(in *Interp, fr *frame, a []Val) Val { in.unsupported("errors.As"); return Val{} }
	I["errors.Unwrap"] = func(in *Interp, fr *frame, a []Val) Val {
		r, _ := in.callMethod(fr, a[0], "Unwrap")
		return r
	}
	I["github.com/pkg/errors.callers"] = nop

	// fmt
	I["fmt.Sprintf"] = func(in *Interp, fr *frame, a []Val) Val { return in.sprintf(fr, a[0], in.sliceVals(a[1])) }
	I["fmt.Sprint"] = func(in *Interp, fr *frame, a []Val) Val { return in.sprint(fr, in.sliceVals(a[0]), false) }
	I["fmt.Sprintln"] = func(in *Interp, fr *frame, a []Val) Val { return in.sprint(fr, in.sliceVals(a[0]), true) }
	I["fmt.Errorf"] = func(in *Interp, fr *frame, a []Val) Val {
		args := in.sliceVals(a[1])
		s, _ := concStr(a[0])
		msg := in.sprintf(fr, a[0], args)
		if strings.Contains(s, "%w") {
			// position of %w among verbs
			k := 0
			for i := 0; i+1 < len(s); i++ {
				if s[i] == '%' {
					if s[i+1] == '%' {
						i++
						continue
					}
					if s[i+1] == 'w' && k < len(args) {
						return in.callFn(fr, in.eng.lookup(vfPath, "NewWrapErr"), []Val{msg, args[k]}, nil, nil)
					}
					k++
				}
			}
		}
		return in.mkErrStr(msg)
	}
	for _, n := range []string{"fmt.Println", "fmt.Print", "fmt.Printf"} {
		I[n] = func(in *Interp, fr *frame, a []Val) Val { return Val{p: Tuple{Val{}, Val{}}} }
	}
	fpr := func(ln bool, f bool) intrinsic {
		return func(in *Interp, fr *frame, a []Val) Val {
			var s Val
			if f {
				s = in.sprintf(fr, a[1], in.sliceVals(a[2]))
			} else {
				s = in.sprint(fr, in.sliceVals(a[1]), ln)
			}
			r, ok := in.callMethod(fr, a[0], "Write", in.mkValBytes(strBytes(s)))
			if !ok {
				in.unsupported("Fprint to unknown writer")
			}
			return r
		}
	}
	I["fmt.Fprintln"] = fpr(true, false)
	I["fmt.Fprint"] = fpr(false, false)
	I["fmt.Fprintf"] = fpr(false, true)

	// runtime
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory", "runtime.Callers", "runtime.NumGoroutine", "runtime.Gosched", "runtime/debug.PrintStack"} {
		n := n
		I[n] = func(in *Interp, fr *frame, a []Val) Val {
			if n == "runtime.Gosched" {
				in.yield()
			}
			return Val{}
		}
	}

	// sync
	I["(*sync.Mutex).Lock"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		in.block(func() bool { return in.ptrGet(a[0]).c == 0 })
		in.ptrSet(a[0], cint(1))
		return Val{}
	}
	I["(*internal/godebug.Setting).Value"] = func(in *Interp, fr *frame, a []Val) Val { return mkstr("") }
	I["(*internal/godebug.Setting).IncNonDefault"] = func(in *Interp, fr *frame, a []Val) Val { return Val{} }
	I["(*sync.Mutex).TryLock"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		if in.ptrGet(a[0]).c == 0 {
			in.ptrSet(a[0], cint(1))
			return cbool(true)
		}
		return Val{}
	}
	I["(*sync.Mutex).Unlock"] = func(in *Interp, fr *frame, a []Val) Val {
		if in.ptrGet(a[0]).c == 0 {
			in.violation("panic", "fatal error: sync: unlock of unlocked mutex")
		}
		in.ptrSet(a[0], cint(0))
		in.yield()
		return Val{}
	}
	// RWMutex: slot0 = writer, slot1 = reader count (struct has enough slots)
	I["(*sync.RWMutex).Lock"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		q := Val{p: a[0].p, c: a[0].c + 1}
		in.block(func() bool { return in.ptrGet(a[0]).c == 0 && in.ptrGet(q).c == 0 })
		in.ptrSet(a[0], cint(1))
		return Val{}
	}
	I["(*sync.RWMutex).Unlock"] = func(in *Interp, fr *frame, a []Val) Val {
		if in.ptrGet(a[0]).c == 0 {
			in.violation("panic", "fatal error: sync: Unlock of unlocked RWMutex")
		}
		in.ptrSet(a[0], cint(0))
		in.yield()
		return Val{}
	}
	I["(*sync.RWMutex).RLock"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		q := Val{p: a[0].p, c: a[0].c + 1}
		in.block(func() bool { return in.ptrGet(a[0]).c == 0 })
		in.ptrSet(q, Val{c: in.ptrGet(q).c + 1})
		return Val{}
	}
	I["(*sync.RWMutex).RUnlock"] = func(in *Interp, fr *frame, a []Val) Val {
		q := Val{p: a[0].p, c: a[0].c + 1}
		if in.ptrGet(q).c == 0 {
			in.violation("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		in.ptrSet(q, Val{c: in.ptrGet(q).c - 1})
		in.yield()
		return Val{}
	}
	I["(*sync.Once).Do"] = func(in *Interp, fr *frame, a []Val) Val {
		// slot 0: 0 = new, 1 = running, 2 = done
		in.yield()
		in.block(func() bool { return in.ptrGet(a[0]).c != 1 })
		if in.ptrGet(a[0]).c == 0 {
			in.ptrSet(a[0], cint(1))
			in.callVal(fr, a[1], nil, nil, "once")
			in.ptrSet(a[0], cint(2))
		}
		return Val{}
	}
	I["(*sync.WaitGroup).Add"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		v := in.ptrGet(a[0])
		n := int64(v.c) + int64(in.concInt(a[1]))
		if n < 0 {
			in.rtPanic("sync: negative WaitGroup counter", "")
		}
		in.ptrSet(a[0], Val{c: uint64(n)})
		return Val{}
	}
	I["(*sync.WaitGroup).Done"] = func(in *Interp, fr *frame, a []Val) Val {
		return I["(*sync.WaitGroup).Add"](in, fr, []Val{a[0], Val{c: ^uint64(0)}})
	}
	I["(*sync.WaitGroup).Wait"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		in.block(func() bool { return in.ptrGet(a[0]).c == 0 })
		return Val{}
	}
	I["(*sync.Pool).Put"] = nop
	I["(*sync.Pool).Get"] = func(in *Interp, fr *frame, a []Val) Val {
		// New is the last field
		t := in.eng.namedType("sync", "Pool")
		o := a[0].p.(*Obj)
		k := ti(t)
		f := o.get(int(a[0].c) + k.n - 1)
		if f.p == nil {
			return Val{}
		}
		return in.callVal(fr, f, nil, nil, "pool")
	}
	smap := func(in *Interp, p Val) *MapObj {
		v := in.ptrGet(p)
		if m, ok := v.p.(*MapObj); ok {
			return m
		}
		m := in.newMap()
		in.ptrSet(p, Val{p: m})
		return m
	}
	anyT := types.Universe.Lookup("any").Type()
	I["(*sync.Map).Load"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		m := smap(in, a[0])
		if i := in.mapFind(m, anyT, a[1]); i >= 0 {
			return Val{p: Tuple{m.vals[i], cbool(true)}}
		}
		return Val{p: Tuple{Val{}, Val{}}}
	}
	I["(*sync.Map).Store"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		in.mapSet(smap(in, a[0]), anyT, a[1], a[2])
		return Val{}
	}
	I["(*sync.Map).LoadOrStore"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		m := smap(in, a[0])
		if i := in.mapFind(m, anyT, a[1]); i >= 0 {
			return Val{p: Tuple{m.vals[i], cbool(true)}}
		}
		in.mapSet(m, anyT, a[1], a[2])
		return Val{p: Tuple{a[2], Val{}}}
	}
	I["(*sync.Map).Delete"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		in.mapDelete(smap(in, a[0]), anyT, a[1])
		return Val{}
	}
	I["(*sync.Map).LoadAndDelete"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		m := smap(in, a[0])
		if i := in.mapFind(m, anyT, a[1]); i >= 0 {
			v := m.vals[i]
			in.mapDelete(m, anyT, a[1])
			return Val{p: Tuple{v, cbool(true)}}
		}
		return Val{p: Tuple{Val{}, Val{}}}
	}
	I["(*sync.Map).Range"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		m := smap(in, a[0])
		n := len(m.keys)
		for i := 0; i < n; i++ {
			if m.del[i] {
				continue
			}
			if in.concInt(in.callVal(fr, a[1], []Val{m.keys[i], m.vals[i]}, nil, "range")) == 0 {
				break
			}
		}
		return Val{}
	}
	// sync.Cond: struct {noCopy, L Locker, notify notifyList, checker}; use side tables keyed by object+slot
	type condQ struct{ q []*chanWaiter }
	cond := func(in *Interp, p Val) *condQ {
		k := fmt.Sprintf("cond%p+%d", p.p, p.c)
		if c, ok := in.side[k].(*condQ); ok {
			return c
		}
		c := &condQ{}
		in.side[k] = c
		return c
	}
	I["(*sync.Cond).Wait"] = func(in *Interp, fr *frame, a []Val) Val {
		t := in.eng.namedType("sync", "Cond")
		st := t.Underlying().(*types.Struct)
		k := ti(t)
		var l Val
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "L" {
				l = a[0].p.(*Obj).get(int(a[0].c) + k.offs[i])
			}
		}
		c := cond(in, a[0])
		w := &chanWaiter{g: in.cur}
		c.q = append(c.q, w)
		in.callMethod(fr, l, "Unlock")
		in.block(func() bool { return w.done })
		in.callMethod(fr, l, "Lock")
		return Val{}
	}
	I["(*sync.Cond).Signal"] = func(in *Interp, fr *frame, a []Val) Val {
		c := cond(in, a[0])
		if len(c.q) > 0 {
			c.q[0].done = true
			c.q = c.q[1:]
		}
		in.yield()
		return Val{}
	}
	I["(*sync.Cond).Broadcast"] = func(in *Interp, fr *frame, a []Val) Val {
		c := cond(in, a[0])
		for _, w := range c.q {
			w.done = true
		}
		c.q = nil
		in.yield()
		return Val{}
	}
	I["sync/atomic.runtime_procPin"] = func(in *Interp, fr *frame, a []Val) Val { return cint(0) }
	I["sync/atomic.runtime_procUnpin"] = nop
	I["(*sync/atomic.Value).Load"] = func(in *Interp, fr *frame, a []Val) Val { in.yield(); return in.ptrGet(a[0]) }
	I["(*sync/atomic.Value).Store"] = func(in *Interp, fr *frame, a []Val) Val { in.yield(); in.ptrSet(a[0], a[1]); return Val{} }
	I["(*sync/atomic.Value).Swap"] = func(in *Interp, fr *frame, a []Val) Val {
		in.yield()
		o := in.ptrGet(a[0])
		in.ptrSet(a[0], a[1])
		return o
	}
	// atomics
	for _, ty := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		w := ty.w
		I["sync/atomic.Load"+ty.n] = func(in *Interp, fr *frame, a []Val) Val { in.yield(); return in.ptrGet(a[0]) }
		I["sync/atomic.Store"+ty.n] = func(in *Interp, fr *frame, a []Val) Val { in.yield(); in.ptrSet(a[0], a[1]); return Val{} }
		I["sync/atomic.Swap"+ty.n] = func(in *Interp, fr *frame, a []Val) Val {
			in.yield()
			o := in.ptrGet(a[0])
			in.ptrSet(a[0], a[1])
			return o
		}
		I["sync/atomic.CompareAndSwap"+ty.n] = func(in *Interp, fr *frame, a []Val) Val {
			in.yield()
			o := in.ptrGet(a[0])
			eq := false
			if w == 0 {
				eq = o.p == a[1].p && (o.p == nil || o.c == a[1].c)
			} else {
				eq = in.branch(in.tt.Eq(in.term(o, w), in.term(a[1], w)))
			}
			if eq {
				in.ptrSet(a[0], a[2])
			}
			return cbool(eq)
		}
		if w != 0 {
			I["sync/atomic.Add"+ty.n] = func(in *Interp, fr *frame, a []Val) Val {
				in.yield()
				v := fromTerm(in.tt.bin(OAdd, in.term(in.ptrGet(a[0]), w), in.term(a[1], w)))
				in.ptrSet(a[0], v)
				return v
			}
		}
	}

	// time: monotonic symbolic clock
	I["time.Now"] = func(in *Interp, fr *frame, a []Val) Val {
		t := in.now()
		// Time{wall, ext, loc}: hasMonotonic with wall seconds since 1885 fixed
		wall := uint64(1)<<63 | (uint64(1<<33-1-(1<<32)) << 30)
		return Val{p: Agg{Val{c: wall}, t, Val{}}}
	}
	I["time.runtimeIsBubbled"] = func(in *Interp, fr *frame, a []Val) Val { return cbool(false) }
	// only good for printing
	I["reflect.TypeOf"] = func(in *Interp, fr *frame, a []Val) Val {
		if a[0].p == nil {
			return Val{}
		}
		return Val{p: &Iface{t: types.Typ[types.UnsafePointer]}}
	}
	// timers never fire
	I["time.AfterFunc"] = func(in *Interp, fr *frame, a []Val) Val { return Val{} }
	I["time.runtimeNano"] = func(in *Interp, fr *frame, a []Val) Val { return in.now() }
	I["time.Sleep"] = func(in *Interp, fr *frame, a []Val) Val {
		if h, ok := in.side["onSleep"].(Val); ok {
			in.callVal(fr, h, []Val{a[0]}, nil, "sleep")
		}
		if in.clock != nil {
			// a sleep lasts at least its duration
			d := in.term(a[0], 64)
			pos := in.tt.Ite(in.tt.bin(OSlt, d, in.tt.Const(64, 0)), in.tt.Const(64, 0), d)
			in.clock = in.tt.bin(OAdd, in.clock, pos)
		}
		in.yield()
		return Val{}
	}
	// sorting
	I["sort.Slice"] = func(in *Interp, fr *frame, a []Val) Val { in.sortSlice(fr, a[0], a[1]); return Val{} }
	I["sort.SliceStable"] = I["sort.Slice"]

	// randomness
	fillRand := func(in *Interp, fr *frame, a []Val) Val {
		s := sliceOf(a[len(a)-1])
		if s == nil {
			return Val{p: Tuple{Val{}, Val{}}}
		}
		n := in.concInt(s.len)
		if h, ok := in.side["rand"].(Val); ok {
			in.callVal(fr, h, []Val{a[len(a)-1]}, nil, "rand")
			return Val{p: Tuple{cint(n), Val{}}}
		}
		for i := 0; i < n; i++ {
			in.randCount++
			in.set(s.o, s.off+i, in.randByte(i))
		}
		return Val{p: Tuple{cint(n), Val{}}}
	}
	I["crypto/rand.Read"] = fillRand
	I["math/rand.Read"] = fillRand
	I["(*math/rand.Rand).Read"] = fillRand
	I["math/rand.NewSource"] = func(in *Interp, fr *frame, a []Val) Val { return Val{} }
	I["math/rand.New"] = func(in *Interp, fr *frame, a []Val) Val { return Val{p: in.newObj(8, "rand")} }
	// hashes
	sum := func(name string, n int, f func([]byte) []byte) intrinsic {
		return func(in *Interp, fr *frame, a []Val) Val {
			return Val{p: Agg(in.ufBytes(name, in.sliceVals(a[0]), n, f))}
		}
	}
	I["crypto/md5.Sum"] = sum("md5", 16, func(b []byte) []byte { s := md5.Sum(b); return s[:] })
	I["crypto/sha1.Sum"] = sum("sha1", 20, func(b []byte) []byte { s := sha1.Sum(b); return s[:] })
	I["crypto/sha256.Sum256"] = sum("sha256", 32, func(b []byte) []byte { s := sha256.Sum256(b); return s[:] })
	fake := func(kind string) intrinsic {
		return func(in *Interp, fr *frame, a []Val) Val {
			key := Val{}
			if len(a) == 2 {
				key = a[1]
			}
			return in.callFn(fr, in.eng.lookup(vfPath, "NewFakeHash"), []Val{mkstr(kind), key}, nil, nil)
		}
	}
	I["crypto/hmac.New"] = fake("hmac-sha256")
	I["crypto/sha256.New"] = fake("sha256")
	I["crypto/sha1.New"] = fake("sha1")
	I["crypto/md5.New"] = fake("md5")
	I["crypto/hmac.Equal"] = I["bytes.Equal"]
	I[vfPath+".hashUF"] = func(in *Interp, fr *frame, a []Val) Val {
		kind, _ := concStr(a[0])
		key, data := in.sliceVals(a[1]), in.sliceVals(a[2])
		kb, kok := concBytes(key)
		n := map[string]int{"hmac-sha256": 32, "sha256": 32, "sha1": 20, "md5": 16}[kind]
		if !kok {
			data = append(append(append([]Val(nil), key...), Val{c: 0x5c}), data...)
			return in.mkValBytes(in.ufBytes(kind+"-symkey", data, n, func([]byte) []byte { panic("unreachable") }))
		}
		return in.mkValBytes(in.ufBytes(kind+string(kb), data, n, func(b []byte) []byte {
			var h hash.Hash
			switch kind {
			case "hmac-sha256":
				h = hmac.New(sha256.New, kb)
			case "sha256":
				h = sha256.New()
			case "sha1":
				h = sha1.New()
			case "md5":
				h = md5.New()
			}
			h.Write(b)
			return h.Sum(nil)
		}))
	}

	// ---- harness API
	V := func(n string, f intrinsic) { I[vfPath+"."+n] = f }
	name := func(v Val) string { s, _ := concStr(v); return s }
	mk := func(w uint8) intrinsic {
		return func(in *Interp, fr *frame, a []Val) Val { return fromTerm(in.freshVar(w, name(a[0]), "in")) }
	}
	V("U8", mk(8))
	V("U16", mk(16))
	V("U32", mk(32))
	V("U64", mk(64))
	V("I64", mk(64))
	V("I32", mk(32))
	V("Bool", func(in *Interp, fr *frame, a []Val) Val {
		t := in.freshVar(8, name(a[0]), "in")
		return fromTerm(in.tt.Eq(in.tt.Extract(t, 0, 1), in.tt.Const(1, 1)))
	})
	V("Int", func(in *Interp, fr *frame, a []Val) Val {
		lo, hi := in.concInt(a[1]), in.concInt(a[2])
		// narrow variable plus offset keeps intervals tight
		span := uint64(hi - lo)
		w := uint8(1)
		for w < 64 && mask(w) < span {
			w++
		}
		t := in.freshVar(w, name(a[0]), "in")
		if mask(w) != span {
			in.assume(in.tt.Ule(t, in.tt.Const(w, span)))
		}
		z := t
		if w < 64 {
			z = in.tt.ZExt(t, 64)
		}
		r := in.tt.bin(OAdd, z, in.tt.Const(64, uint64(lo)))
		return fromTerm(r)
	})
	V("Choose", func(in *Interp, fr *frame, a []Val) Val {
		n := in.concInt(a[1])
		t := in.freshVar(16, name(a[0]), "in")
		in.assume(in.tt.Ult(t, in.tt.Const(16, uint64(n))))
		return Val{c: in.concretize(t)}
	})
	V("Bytes", func(in *Interp, fr *frame, a []Val) Val {
		n := in.concInt(a[1])
		vs := make([]Val, n)
		for i := range vs {
			vs[i] = fromTerm(in.freshVar(8, name(a[0]), "in"))
		}
		return in.mkValBytes(vs)
	})
	V("String", func(in *Interp, fr *frame, a []Val) Val {
		n := in.concInt(a[1])
		vs := make([]Val, n)
		for i := range vs {
			vs[i] = fromTerm(in.freshVar(8, name(a[0]), "in"))
		}
		return mkSymStr(vs)
	})
	V("Assume", func(in *Interp, fr *frame, a []Val) Val { in.assume(in.term(a[0], 0)); return Val{} })
	V("Assert", func(in *Interp, fr *frame, a []Val) Val { in.assert(in.term(a[0], 0), name(a[1])); return Val{} })
	V("Fail", func(in *Interp, fr *frame, a []Val) Val { in.violation("assert", name(a[0])); return Val{} })
	V("Cover", func(in *Interp, fr *frame, a []Val) Val { in.covers[name(a[0])] = true; return Val{} })
	V("Tier", func(in *Interp, fr *frame, a []Val) Val {
		if in.eng.thorough {
			return a[1]
		}
		return a[0]
	})
	V("Conc", func(in *Interp, fr *frame, a []Val) Val { return cint(in.concInt(a[0])) })
	V("AllocLimit", func(in *Interp, fr *frame, a []Val) Val {
		in.allocLimit = uint64(in.concInt(a[0]))
		in.allocTotal = in.tt.Const(64, 0)
		return Val{}
	})
	V("MapOrder", func(in *Interp, fr *frame, a []Val) Val { in.mapNondet = a[0].c == 1; return Val{} })
	V("Obs", func(in *Interp, fr *frame, a []Val) Val {
		in.obs = append(in.obs, obsRec{name(a[0]), []Val{a[1]}, 64})
		return Val{}
	})
	V("ObsBytes", func(in *Interp, fr *frame, a []Val) Val {
		in.obs = append(in.obs, obsRec{name(a[0]), append([]Val(nil), in.sliceVals(a[1])...), 8})
		return Val{}
	})
	V("SetClock", func(in *Interp, fr *frame, a []Val) Val { in.clock = in.term(a[0], 64); return Val{} })
	V("OnEnd", nop)
	V("Advance", func(in *Interp, fr *frame, a []Val) Val {
		in.now()
		in.clock = in.tt.bin(OAdd, in.clock, in.term(a[0], 64))
		return Val{}
	})
	V("Clock", func(in *Interp, fr *frame, a []Val) Val { return in.now() })
	V("OnSleep", func(in *Interp, fr *frame, a []Val) Val { in.side["onSleep"] = a[0]; return Val{} })
	V("Rand", func(in *Interp, fr *frame, a []Val) Val { in.side["rand"] = a[0]; return Val{} })
	V("Symbolic", func(in *Interp, fr *frame, a []Val) Val { return cbool(true) })
	V("Ite", func(in *Interp, fr *frame, a []Val) Val {
		return fromTerm(in.tt.Ite(in.term(a[0], 0), in.term(a[1], 64), in.term(a[2], 64)))
	})
	V("BytesEq", func(in *Interp, fr *frame, a []Val) Val {
		return fromTerm(in.bytesEq(in.sliceVals(a[0]), in.sliceVals(a[1])))
	})
	V("And", func(in *Interp, fr *frame, a []Val) Val {
		return fromTerm(in.tt.BAnd(in.term(a[0], 0), in.term(a[1], 0)))
	})
	V("Or", func(in *Interp, fr *frame, a []Val) Val {
		return fromTerm(in.tt.BOr(in.term(a[0], 0), in.term(a[1], 0)))
	})
	V("SameObject", func(in *Interp, fr *frame, a []Val) Val {
		x, y := sliceOf(a[0]), sliceOf(a[1])
		return cbool(x != nil && y != nil && x.o == y.o)
	})
	V("SetStepLimit", func(in *Interp, fr *frame, a []Val) Val { in.maxSteps = in.steps + in.concInt(a[0]); return Val{} })
}

func (in *Interp) randByte(i int) Val {
	if in.side["symrand"] != nil {
		return fromTerm(in.freshVar(8, "rand", "rand"))
	}
	return Val{c: uint64(byte(i*7 + 13))}
}

func (in *Interp) now() Val {
	if in.clock == nil {
		in.clock = in.tt.Const(64, 1)
		return Val{c: 1}
	}
	if in.side["tick"] != nil {
		d := in.freshVar(32, "tick", "clock")
		in.clock = in.tt.bin(OAdd, in.clock, in.tt.ZExt(d, 64))
	}
	return fromTerm(in.clock)
}

func (in *Interp) sortSlice(fr *frame, iv, less Val) {
	i, _ := iv.p.(*Iface)
	if i == nil {
		return
	}
	s := sliceOf(i.v)
	if s == nil {
		return
	}
	n := in.concInt(s.len)
	lt := func(a, b int) bool {
		return in.branch(in.term(in.callVal(fr, less, []Val{cint(a), cint(b)}, nil, "sort.Slice"), 0))
	}
	swap := func(a, b int) {
		for k := 0; k < s.es; k++ {
			x, y := s.o.get(s.off+a*s.es+k), s.o.get(s.off+b*s.es+k)
			in.set(s.o, s.off+a*s.es+k, y)
			in.set(s.o, s.off+b*s.es+k, x)
		}
	}
	for a := 1; a < n; a++ {
		for b := a; b > 0 && lt(b, b-1); b-- {
			swap(b, b-1)
		}
	}
}

var _ = sort.Ints
