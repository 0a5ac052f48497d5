package main

// Symbolic values, the component heap and Go type layout.

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bigInt = big.Int

type Val interface{}

type IntV struct{ p *Poly }
type BoolV struct{ b *Bool }
type PtrV struct {
	comp      string // component root (+ path) the pointee lives in
	base, off *Poly
	end       *Poly // exclusive bound of the enclosing slice, nil if n/a
	elem      types.Type
	arr       bool // pointer to array whose elements are laid out at off..
	uns       bool // passed through unsafe.Pointer
	dyn       *Poly // element of a by-value array at a symbolic index: the pointee lives in comp#dyn (dyn < dynN)
	dynN      int64
}
type SliceV struct {
	base, off, len, cap *Poly
	elem                types.Type
}
type StructV struct {
	fs []Val
	t  types.Type
}
type ArrV struct {
	fs []Val
	t  types.Type
}
type TupleV struct{ fs []Val }
type FuncV struct {
	fn    *ssa.Function
	binds []Val
}
type IfaceV struct {
	t, x *Poly
	dyn  Val
	dynT types.Type
}
type OpaqueV struct {
	x *Poly
	t types.Type
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func qual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := u.Name()
		switch k {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return k
	case *types.Struct:
		if n, ok := t.(*types.Named); ok {
			return types.TypeString(n, qual)
		}
		return types.TypeString(t, qual)
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Pointer:
		return "*" + typeKeyShallow(u.Elem())
	case *types.Array:
		return "[" + strconv.FormatInt(u.Len(), 10) + "]" + typeKey(u.Elem())
	}
	return types.TypeString(t, qual)
}

func typeKeyShallow(t types.Type) string { return typeKey(t) }

var intRanges = map[types.BasicKind][2]*big.Int{}

func init() {
	sg := func(b uint) [2]*big.Int {
		return [2]*big.Int{new(big.Int).Neg(pow2big(b - 1)), new(big.Int).Sub(pow2big(b-1), bi(1))}
	}
	un := func(b uint) [2]*big.Int { return [2]*big.Int{bi(0), new(big.Int).Sub(pow2big(b), bi(1))} }
	intRanges[types.Int] = sg(64)
	intRanges[types.Int64] = sg(64)
	intRanges[types.Int32] = sg(32)
	intRanges[types.Int16] = sg(16)
	intRanges[types.Int8] = sg(8)
	intRanges[types.Uint] = un(64)
	intRanges[types.Uint64] = un(64)
	intRanges[types.Uint32] = un(32)
	intRanges[types.Uint16] = un(16)
	intRanges[types.Uint8] = un(8)
	intRanges[types.Uintptr] = un(64)
	intRanges[types.UntypedInt] = [2]*big.Int{nil, nil}
	intRanges[types.UntypedRune] = [2]*big.Int{nil, nil}
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}
func isInt(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}
func isSigned(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b := basicOf(t)
	r := intRanges[b.Kind()]
	return r[0], r[1]
}

type leaf struct {
	path   string
	lo, hi *big.Int
}

// Layout of a type in the component heap.
func leaves(t types.Type) []leaf {
	t = types.Unalias(t)
	if isBigInt(t) {
		return []leaf{{"/$v", nil, nil}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isInt(t) {
			lo, hi := intRange(t)
			return []leaf{{"", lo, hi}}
		}
		if isBool(t) {
			return []leaf{{"", bi(0), bi(1)}}
		}
		return []leaf{{".x", nil, nil}}
	case *types.Pointer:
		return []leaf{{".b", bi(0), nil}, {".o", bi(0), maxLen}}
	case *types.Slice:
		return []leaf{{".b", bi(0), nil}, {".o", bi(0), maxLen}, {".l", bi(0), maxLen}, {".c", bi(0), maxLen}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, leaf{"/" + u.Field(i).Name() + l.path, l.lo, l.hi})
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			unsup("array type %s too large for the by-value layout", t)
		}
		var out []leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				out = append(out, leaf{"#" + strconv.FormatInt(i, 10) + l.path, l.lo, l.hi})
			}
		}
		return out
	case *types.Interface:
		return []leaf{{".t", bi(0), nil}, {".x", nil, nil}}
	}
	return []leaf{{".x", nil, nil}}
}

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

type State struct {
	mem  map[string]*Mem
	pc   []*Bool
	dead bool
}

func (s *State) clone() *State {
	m := make(map[string]*Mem, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	return &State{mem: m, pc: append([]*Bool{}, s.pc...), dead: s.dead}
}

func (s *State) reach() *Bool { return And(s.pc...) }

func (s *State) assume(b *Bool) {
	if b == True {
		return
	}
	if b == False {
		s.dead = true
	}
	for _, x := range s.pc {
		if x == Not(b) {
			s.dead = true
		}
		if x == b {
			return
		}
	}
	s.pc = append(s.pc, b)
}

type writeRec struct {
	comp      string
	base, off *Poly // off nil: whole row; base nil: anything
	hi        *Poly
}

func (x *Exec) getMem(st *State, comp string, lo, hi *big.Int) *Mem {
	if m, ok := st.mem[comp]; ok {
		return m
	}
	n := comp + "@" + x.cfg + "!0"
	m := NewMemVar(comp, n, lo, hi)
	x.compIv[comp] = [2]*big.Int{lo, hi}
	st.mem[comp] = m
	return m
}

// offsets read by the program (instantiation hints of the full queries)
var readOffs = map[string]map[*Poly]bool{}

func (x *Exec) rd(st *State, comp string, l leaf, base, off *Poly) *Poly {
	if !off.hasBnd {
		if readOffs[comp+l.path] == nil {
			readOffs[comp+l.path] = map[*Poly]bool{}
		}
		readOffs[comp+l.path][off] = true
	}
	p := x.getMem(st, comp+l.path, l.lo, l.hi).Read(base, off)
	if c, ok := x.fixed[p]; ok {
		return c
	}
	return p
}

func (x *Exec) wr(st *State, comp string, l leaf, base, off, v *Poly) {
	m := x.getMem(st, comp+l.path, l.lo, l.hi)
	st.mem[comp+l.path] = m.Store(base, off, v)
	if x.writes != nil {
		*x.writes = append(*x.writes, writeRec{comp + l.path, base, off, nil})
	}
	if x.probe != nil {
		*x.probe = append(*x.probe, storeRec{comp + l.path, l.lo, l.hi, base, off, v, st.reach(), append([]innerPhi{}, x.probeLoops...)})
	}
}

// build a Val of type t from leaf terms produced by f.
func (x *Exec) build(t types.Type, prefix string, f func(l leaf) *Poly) Val {
	t = types.Unalias(t)
	if isBigInt(t) {
		return OpaqueV{f(leaf{prefix + "/$v", nil, nil}), t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isInt(t) {
			lo, hi := intRange(t)
			return IntV{f(leaf{prefix, lo, hi})}
		}
		if isBool(t) {
			p := f(leaf{prefix, bi(0), bi(1)})
			return BoolV{Ge(p, Const(1))}
		}
		return OpaqueV{f(leaf{prefix + ".x", nil, nil}), t}
	case *types.Pointer:
		b := f(leaf{prefix + ".b", bi(0), nil})
		o := f(leaf{prefix + ".o", bi(0), maxLen})
		return mkPtr(u.Elem(), b, o)
	case *types.Slice:
		s := SliceV{f(leaf{prefix + ".b", bi(0), nil}), f(leaf{prefix + ".o", bi(0), maxLen}),
			f(leaf{prefix + ".l", bi(0), maxLen}), f(leaf{prefix + ".c", bi(0), maxLen}), u.Elem()}
		x.addFactAlways(Le(s.len, s.cap))
		x.addFactAlways(Imp(Eq0(s.base), Eq0(s.cap)))
		return s
	case *types.Struct:
		sv := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, x.build(u.Field(i).Type(), prefix+"/"+u.Field(i).Name(), f))
		}
		return sv
	case *types.Array:
		av := ArrV{t: t}
		if u.Len() > 64 {
			unsup("array %s", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			av.fs = append(av.fs, x.build(u.Elem(), prefix+"#"+strconv.FormatInt(i, 10), f))
		}
		return av
	case *types.Interface:
		return IfaceV{t: f(leaf{prefix + ".t", bi(0), nil}), x: f(leaf{prefix + ".x", nil, nil})}
	}
	return OpaqueV{f(leaf{prefix + ".x", nil, nil}), t}
}

func mkPtr(elem types.Type, b, o *Poly) PtrV {
	if a, ok := elem.Underlying().(*types.Array); ok {
		return PtrV{comp: typeKey(a.Elem()), base: b, off: o, elem: elem, arr: true, end: o.AddC(a.Len())}
	}
	return PtrV{comp: typeKey(elem), base: b, off: o, elem: elem}
}

// flatten yields leaf terms of v in layout order.
func (x *Exec) flatten(t types.Type, prefix string, v Val, f func(l leaf, p *Poly)) {
	t = types.Unalias(t)
	if isBigInt(t) {
		f(leaf{prefix + "/$v", nil, nil}, v.(OpaqueV).x)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isInt(t) {
			lo, hi := intRange(t)
			f(leaf{prefix, lo, hi}, v.(IntV).p)
			return
		}
		if isBool(t) {
			f(leaf{prefix, bi(0), bi(1)}, Ind(v.(BoolV).b))
			return
		}
		f(leaf{prefix + ".x", nil, nil}, v.(OpaqueV).x)
	case *types.Pointer:
		p := v.(PtrV)
		if want := mkPtr(u.Elem(), p.base, p.off); want.comp != p.comp && !isZero(p.base) {
			unsup("interior pointer %s stored as *%s", p.comp, typeKey(u.Elem()))
		}
		f(leaf{prefix + ".b", bi(0), nil}, p.base)
		f(leaf{prefix + ".o", bi(0), maxLen}, p.off)
	case *types.Slice:
		s := v.(SliceV)
		f(leaf{prefix + ".b", bi(0), nil}, s.base)
		f(leaf{prefix + ".o", bi(0), maxLen}, s.off)
		f(leaf{prefix + ".l", bi(0), maxLen}, s.len)
		f(leaf{prefix + ".c", bi(0), maxLen}, s.cap)
	case *types.Struct:
		sv := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			x.flatten(u.Field(i).Type(), prefix+"/"+u.Field(i).Name(), sv.fs[i], f)
		}
	case *types.Array:
		av := v.(ArrV)
		for i := int64(0); i < u.Len(); i++ {
			x.flatten(u.Elem(), prefix+"#"+strconv.FormatInt(i, 10), av.fs[i], f)
		}
	case *types.Interface:
		iv, ok := v.(IfaceV)
		if !ok {
			unsup("flatten interface")
		}
		f(leaf{prefix + ".t", bi(0), nil}, iv.t)
		f(leaf{prefix + ".x", nil, nil}, iv.x)
	default:
		switch o := v.(type) {
		case OpaqueV:
			f(leaf{prefix + ".x", nil, nil}, o.x)
		case FuncV:
			f(leaf{prefix + ".x", nil, nil}, App("func:"+fnName(o.fn), nil, nil))
		default:
			unsup("flatten %s (%T)", t, v)
		}
	}
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "nil"
	}
	return f.String()
}

func isZero(p *Poly) bool {
	k, ok := p.IsConst()
	return ok && k.Sign() == 0
}

func (x *Exec) load(st *State, p PtrV, t types.Type) Val {
	if p.dyn != nil {
		var v Val
		for k := p.dynN - 1; k >= 0; k-- {
			e := x.load(st, p.at(k), t)
			if v == nil {
				v = e
			} else {
				v = x.iteVal(Eq(p.dyn, Const(k)), t, e, v)
			}
		}
		return v
	}
	if p.arr {
		a := t.Underlying().(*types.Array)
		av := ArrV{t: t}
		for i := int64(0); i < a.Len(); i++ {
			av.fs = append(av.fs, x.load(st, PtrV{comp: p.comp, base: p.base, off: p.off.AddC(i), elem: a.Elem()}, a.Elem()))
		}
		return av
	}
	v := x.build(t, "", func(l leaf) *Poly { return x.rd(st, p.comp, l, p.base, p.off) })
	x.typeFacts(st, p.comp, t, v)
	return v
}

// a loaded reference existed before every later allocation (encoded by ts)
func (x *Exec) typeFacts(st *State, comp string, t types.Type, v Val) {}

// at is the k-th element of the array that p points into.
func (p PtrV) at(k int64) PtrV {
	q := p
	q.comp += "#" + strconv.FormatInt(k, 10)
	q.dyn = nil
	return q
}

func (x *Exec) store(st *State, p PtrV, t types.Type, v Val) {
	if p.dyn != nil {
		for k := int64(0); k < p.dynN; k++ {
			e := p.at(k)
			x.store(st, e, t, x.iteVal(Eq(p.dyn, Const(k)), t, v, x.load(st, e, t)))
		}
		return
	}
	if p.arr {
		a := t.Underlying().(*types.Array)
		av := v.(ArrV)
		for i := int64(0); i < a.Len(); i++ {
			x.store(st, PtrV{comp: p.comp, base: p.base, off: p.off.AddC(i), elem: a.Elem()}, a.Elem(), av.fs[i])
		}
		return
	}
	x.flatten(t, "", v, func(l leaf, q *Poly) { x.wr(st, p.comp, l, p.base, p.off, q) })
}

func (x *Exec) zero(t types.Type) Val {
	t = types.Unalias(t)
	if isBigInt(t) {
		return OpaqueV{Const(0), t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if isInt(t) {
			return IntV{Const(0)}
		}
		if isBool(t) {
			return BoolV{False}
		}
		return OpaqueV{App("zero:"+typeKey(t), nil, nil), t}
	case *types.Pointer:
		return mkPtr(u.Elem(), Const(0), Const(0))
	case *types.Slice:
		return SliceV{Const(0), Const(0), Const(0), Const(0), u.Elem()}
	case *types.Struct:
		sv := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			sv.fs = append(sv.fs, x.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if u.Len() > 64 {
			unsup("zero of %s", t)
		}
		av := ArrV{t: t}
		for i := int64(0); i < u.Len(); i++ {
			av.fs = append(av.fs, x.zero(u.Elem()))
		}
		return av
	case *types.Interface:
		return IfaceV{t: Const(0), x: Const(0)}
	}
	return OpaqueV{Const(0), t}
}

// fresh arbitrary value of a type
func (x *Exec) fresh(t types.Type, name string) Val {
	return x.build(t, "", func(l leaf) *Poly { return FreshVar(name+l.path, l.lo, l.hi) })
}

// named (deterministic) arbitrary value
func (x *Exec) named(t types.Type, name string) Val {
	return x.build(t, "", func(l leaf) *Poly { return NamedVar(name+l.path, l.lo, l.hi) })
}

func (x *Exec) iteVal(c *Bool, t types.Type, a, b Val) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if tu, ok := t.(*types.Tuple); ok {
		av, bv := a.(TupleV), b.(TupleV)
		out := TupleV{}
		for i := 0; i < tu.Len(); i++ {
			out.fs = append(out.fs, x.iteVal(c, tu.At(i).Type(), av.fs[i], bv.fs[i]))
		}
		return out
	}
	switch av := a.(type) {
	case IntV:
		return IntV{IteP(c, av.p, b.(IntV).p)}
	case BoolV:
		return BoolV{IteB(c, av.b, b.(BoolV).b)}
	case OpaqueV:
		bv, ok := b.(OpaqueV)
		if !ok {
			unsup("merge of %T and %T", a, b)
		}
		return OpaqueV{IteP(c, av.x, bv.x), t}
	case PtrV:
		bv := b.(PtrV)
		comp := av.comp
		if bv.comp != av.comp {
			if isZero(av.base) {
				comp = bv.comp
			} else if !isZero(bv.base) {
				unsup("merge of pointers into %s and %s", av.comp, bv.comp)
			}
		}
		r := PtrV{comp: comp, base: IteP(c, av.base, bv.base), off: IteP(c, av.off, bv.off), elem: av.elem, arr: av.arr}
		if av.end != nil && bv.end != nil {
			r.end = IteP(c, av.end, bv.end)
		}
		return r
	case SliceV:
		bv := b.(SliceV)
		return SliceV{IteP(c, av.base, bv.base), IteP(c, av.off, bv.off), IteP(c, av.len, bv.len), IteP(c, av.cap, bv.cap), av.elem}
	case StructV:
		bv := b.(StructV)
		u := av.t.Underlying().(*types.Struct)
		out := StructV{t: av.t}
		for i := range av.fs {
			out.fs = append(out.fs, x.iteVal(c, u.Field(i).Type(), av.fs[i], bv.fs[i]))
		}
		return out
	case ArrV:
		bv := b.(ArrV)
		u := av.t.Underlying().(*types.Array)
		out := ArrV{t: av.t}
		for i := range av.fs {
			out.fs = append(out.fs, x.iteVal(c, u.Elem(), av.fs[i], bv.fs[i]))
		}
		return out
	case IfaceV:
		bv, ok := b.(IfaceV)
		if !ok {
			unsup("merge iface")
		}
		r := IfaceV{t: IteP(c, av.t, bv.t), x: IteP(c, av.x, bv.x)}
		return r
	case FuncV:
		if bv, ok := b.(FuncV); ok && bv.fn == av.fn && len(av.binds) == 0 {
			return a
		}
	}
	unsup("merge of values of type %s", t)
	return nil
}

func valKey(v Val) string {
	switch a := v.(type) {
	case IntV:
		return a.p.key
	case BoolV:
		return a.b.key
	case PtrV:
		return "p" + a.comp + "|" + a.base.key + "|" + a.off.key
	case SliceV:
		return "s" + a.base.key + "|" + a.off.key + "|" + a.len.key + "|" + a.cap.key
	case StructV:
		var s []string
		for _, f := range a.fs {
			s = append(s, valKey(f))
		}
		return "{" + strings.Join(s, ";") + "}"
	case ArrV:
		var s []string
		for _, f := range a.fs {
			s = append(s, valKey(f))
		}
		return "[" + strings.Join(s, ";") + "]"
	case OpaqueV:
		return "o" + a.x.key
	case IfaceV:
		return "i" + a.t.key + "|" + a.x.key
	case FuncV:
		return "f" + fnName(a.fn)
	}
	return fmt.Sprintf("%p", &v)
}
