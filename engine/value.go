package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is one slot: c is the concrete scalar when p==nil; p holds a symbolic
// scalar (*Term) or a reference.
type Val struct {
	c uint64
	p any
}

type Agg []Val   // flattened struct/array value
type Tuple []Val // multi-value

type SymStr struct{ b []Val }

type Slice struct {
	o        *Obj
	off      int // slot offset
	len, cap Val // 64-bit scalars
	es       int
}

type SymPtr struct {
	o      *Obj
	base   int // slot of element lo
	idx    *Term
	lo     uint64
	n      int // candidates lo..lo+n-1
	stride int
	off    int // field offset inside element
}

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn   *ssa.Function
	bi   *ssa.Builtin
	free []Val
	nat  func(in *Interp, args []Val) Val
}

type Poison struct{ why string }

type page [64]Val

type Obj struct {
	n     int // -1: unbounded
	ep    int32
	small []Val
	pgs   map[int]*page
	name  string
}

type MapObj struct {
	keys []Val
	vals []Val
	idx  map[any]int // concrete scalar/string keys
	sym  int         // number of non-indexed keys
	del  []bool
	n    int
	ep   int32
}

type MapIter struct {
	m     *MapObj
	order []int
	i     int
}
type StrIter struct {
	s Val
	i int
}

type ChanObj struct {
	cap    int
	buf    []Val
	closed bool
	sendq  []*chanWaiter
	recvq  []*chanWaiter
	ep     int32
}
type chanWaiter struct {
	g    *G
	v    Val
	done bool
	ok   bool
}

const smallMax = 96

func (in *Interp) newObj(n int, name string) *Obj {
	o := &Obj{n: n, ep: in.epoch, name: name}
	if n >= 0 && n <= smallMax {
		o.small = make([]Val, n)
	}
	return o
}

func (o *Obj) get(i int) Val {
	if o.small != nil {
		return o.small[i]
	}
	p := o.pgs[i>>6]
	if p == nil {
		return Val{}
	}
	return p[i&63]
}

func (in *Interp) set(o *Obj, i int, v Val) {
	if o.ep != in.epoch {
		old := o.get(i)
		in.journal = append(in.journal, func() { o.rawset(i, old) })
	}
	o.rawset(i, v)
}

func (o *Obj) rawset(i int, v Val) {
	if o.small != nil {
		o.small[i] = v
		return
	}
	if o.n == 0 {
		panic("store to empty object")
	}
	p := o.pgs[i>>6]
	if p == nil {
		if v.p == nil && v.c == 0 {
			return
		}
		if o.pgs == nil {
			o.pgs = map[int]*page{}
		}
		p = new(page)
		o.pgs[i>>6] = p
	}
	p[i&63] = v
}

type tkind uint8

const (
	kBool tkind = iota
	kInt
	kUint
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kAgg
	kTuple
	kUnsafe
	kComplex
	kOther
)

type tinfo struct {
	k    tkind
	w    uint8
	n    int // slots
	offs []int
	et   types.Type // elem
	en   int        // elem slots
	alen int
	t    types.Type
}

var tinfoCache sync.Map

func ti(t types.Type) *tinfo {
	if x, ok := tinfoCache.Load(t); ok {
		return x.(*tinfo)
	}
	r := mkti(t)
	r.t = t
	tinfoCache.Store(t, r)
	return r
}

func mkti(t types.Type) *tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return &tinfo{k: kBool, w: 0, n: 1}
		case types.Int8:
			return &tinfo{k: kInt, w: 8, n: 1}
		case types.Int16:
			return &tinfo{k: kInt, w: 16, n: 1}
		case types.Int32, types.UntypedRune:
			return &tinfo{k: kInt, w: 32, n: 1}
		case types.Int, types.Int64, types.UntypedInt:
			return &tinfo{k: kInt, w: 64, n: 1}
		case types.Uint8:
			return &tinfo{k: kUint, w: 8, n: 1}
		case types.Uint16:
			return &tinfo{k: kUint, w: 16, n: 1}
		case types.Uint32:
			return &tinfo{k: kUint, w: 32, n: 1}
		case types.Uint, types.Uint64, types.Uintptr:
			return &tinfo{k: kUint, w: 64, n: 1}
		case types.Float32:
			return &tinfo{k: kFloat, w: 32, n: 1}
		case types.Float64, types.UntypedFloat:
			return &tinfo{k: kFloat, w: 64, n: 1}
		case types.String, types.UntypedString:
			return &tinfo{k: kString, n: 1}
		case types.UnsafePointer:
			return &tinfo{k: kUnsafe, n: 1}
		case types.UntypedNil:
			return &tinfo{k: kPtr, n: 1}
		}
		return &tinfo{k: kComplex, n: 1}
	case *types.Pointer:
		return &tinfo{k: kPtr, n: 1, et: u.Elem()}
	case *types.Slice:
		return &tinfo{k: kSlice, n: 1, et: u.Elem(), en: ti(u.Elem()).n}
	case *types.Map:
		return &tinfo{k: kMap, n: 1}
	case *types.Chan:
		return &tinfo{k: kChan, n: 1}
	case *types.Signature:
		return &tinfo{k: kFunc, n: 1}
	case *types.Interface:
		return &tinfo{k: kIface, n: 1}
	case *types.Struct:
		r := &tinfo{k: kAgg}
		for i := 0; i < u.NumFields(); i++ {
			r.offs = append(r.offs, r.n)
			r.n += ti(u.Field(i).Type()).n
		}
		return r
	case *types.Array:
		e := ti(u.Elem())
		return &tinfo{k: kAgg, n: e.n * int(u.Len()), et: u.Elem(), en: e.n, alen: int(u.Len())}
	case *types.Tuple:
		return &tinfo{k: kTuple, n: u.Len()}
	}
	return &tinfo{k: kOther, n: 1}
}

func aggSlots(v Val, n int) []Val {
	if v.p == nil {
		return make([]Val, n)
	}
	if a, ok := v.p.(Agg); ok {
		return a
	}
	if ps, ok := v.p.(*Poison); ok {
		panic(pathEnd{kind: endUnsupported, msg: "poison value: " + ps.why})
	}
	panic(fmt.Sprintf("aggSlots: %T", v.p))
}

// load reads a value of type t at slot i.
func (in *Interp) loadAt(o *Obj, i int, t *tinfo) Val {
	if t.k == kAgg {
		a := make(Agg, t.n)
		for j := range a {
			a[j] = o.get(i + j)
		}
		return Val{p: a}
	}
	return o.get(i)
}

func (in *Interp) storeAt(o *Obj, i int, t *tinfo, v Val) {
	if t.k == kAgg {
		if v.p == nil {
			for j := 0; j < t.n; j++ {
				in.set(o, i+j, Val{})
			}
			return
		}
		for j, x := range aggSlots(v, t.n) {
			in.set(o, i+j, x)
		}
		return
	}
	in.set(o, i, v)
}

func field(v Val, off int, t *tinfo, n int) Val {
	a := aggSlots(v, n)
	if t.k == kAgg {
		r := make(Agg, t.n)
		copy(r, a[off:off+t.n])
		return Val{p: r}
	}
	return a[off]
}

// scalars
func (in *Interp) term(v Val, w uint8) *Term {
	if v.p == nil {
		return in.tt.Const(w, v.c)
	}
	if t, ok := v.p.(*Term); ok {
		return t
	}
	if ps, ok := v.p.(*Poison); ok {
		in.unsupported("poison value: " + ps.why)
	}
	panic(fmt.Sprintf("term of %T", v.p))
}

func fromTerm(t *Term) Val {
	if t.isC() {
		return Val{c: t.k}
	}
	return Val{p: t}
}

func isSym(v Val) bool {
	_, ok := v.p.(*Term)
	return ok
}

func cint(i int) Val { return Val{c: uint64(i)} }
func cbool(b bool) Val {
	if b {
		return Val{c: 1}
	}
	return Val{}
}

// strings
func mkstr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{p: s}
}

func (in *Interp) strLen(v Val) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	case *Poison:
		in.unsupported("poison string: " + s.why)
	}
	panic(fmt.Sprintf("strLen %T", v.p))
}

func strAt(v Val, i int) Val {
	switch s := v.p.(type) {
	case string:
		return Val{c: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strSlice(v Val, i, j int) Val {
	switch s := v.p.(type) {
	case string:
		return mkstr(s[i:j])
	case *SymStr:
		return mkSymStr(s.b[i:j])
	}
	return Val{}
}

func mkSymStr(b []Val) Val {
	for _, x := range b {
		if x.p != nil {
			return Val{p: &SymStr{append([]Val(nil), b...)}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.c)
	}
	return mkstr(string(bs))
}

func strBytes(v Val) []Val {
	switch s := v.p.(type) {
	case string:
		r := make([]Val, len(s))
		for i := range r {
			r[i].c = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	return nil
}

func concStr(v Val) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (in *Interp) strEq(a, b Val) *Term {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return in.tt.Bool(x == y)
		}
	}
	n := in.strLen(a)
	if n != in.strLen(b) {
		return in.tt.False
	}
	r := in.tt.True
	for i := n - 1; i >= 0; i-- {
		r = in.tt.BAnd(in.tt.Eq(in.term(strAt(a, i), 8), in.term(strAt(b, i), 8)), r)
		if r == in.tt.False {
			return r
		}
	}
	return r
}

// strLess: a<b as term
func (in *Interp) strLess(a, b Val) *Term {
	na, nb := in.strLen(a), in.strLen(b)
	n := min(na, nb)
	r := in.tt.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := in.term(strAt(a, i), 8), in.term(strAt(b, i), 8)
		r = in.tt.BOr(in.tt.Ult(x, y), in.tt.BAnd(in.tt.Eq(x, y), r))
	}
	return r
}

func sliceOf(v Val) *Slice {
	if v.p == nil {
		return nil
	}
	if s, ok := v.p.(*Slice); ok {
		return s
	}
	if ps, ok := v.p.(*Poison); ok {
		panic(pathEnd{kind: endUnsupported, msg: "poison value: " + ps.why})
	}
	panic(fmt.Sprintf("sliceOf %T", v.p))
}

func (in *Interp) mkBytes(b []byte) Val {
	o := in.newObj(len(b), "bytes")
	for i, x := range b {
		if x != 0 {
			o.rawset(i, Val{c: uint64(x)})
		}
	}
	return Val{p: &Slice{o, 0, cint(len(b)), cint(len(b)), 1}}
}

func (in *Interp) mkValBytes(b []Val) Val {
	o := in.newObj(len(b), "bytes")
	for i, x := range b {
		o.rawset(i, x)
	}
	return Val{p: &Slice{o, 0, cint(len(b)), cint(len(b)), 1}}
}

// sliceVals returns the elements (1 slot each) of a slice with concretised length.
func (in *Interp) sliceVals(v Val) []Val {
	s := sliceOf(v)
	if s == nil {
		return nil
	}
	n := in.concInt(s.len)
	r := make([]Val, n*s.es)
	for i := range r {
		r[i] = s.o.get(s.off + i)
	}
	return r
}

func concBytes(vs []Val) ([]byte, bool) {
	b := make([]byte, len(vs))
	for i, x := range vs {
		if x.p != nil {
			return nil, false
		}
		b[i] = byte(x.c)
	}
	return b, true
}
