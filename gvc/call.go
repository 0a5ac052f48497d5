package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *frame, cc *ssa.CallCommon, st *State, pos token.Pos, site ssa.Instruction) (Val, *State) {
	if cc.IsInvoke() {
		return x.invoke(fr, cc, st, pos)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, cc, st, pos)
	}
	fn := cc.StaticCallee()
	var binds []Val
	if fn == nil || isClosure(cc.Value) {
		fv, ok := x.val(fr, cc.Value).(FuncV)
		if !ok || fv.fn == nil {
			unsup("call through a function value at %s", x.posStr(pos))
		}
		fn, binds = fv.fn, fv.binds
	}
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(fr, a))
	}
	return x.callFn(fr, fn, binds, args, st, pos)
}

func isClosure(v ssa.Value) bool { _, ok := v.(*ssa.MakeClosure); return ok }

func (x *Exec) callFn(fr *frame, fn *ssa.Function, binds, args []Val, st *State, pos token.Pos) (Val, *State) {
	key := fnKey(fn)
	if r, nst, ok := x.intrinsic(fn, key, args, st, pos); ok {
		return r, nst
	}
	if c := x.contractFor(key); c != nil && binds == nil {
		if fn == x.rootFn && !c.assumed {
			unsup("recursive call of %s (no termination measure)", key)
		}
		return x.applyContract(c, fn, fn.Signature, args, st, pos)
	}
	if len(fn.Blocks) == 0 {
		unsup("call of %s: no contract and no source", key)
	}
	x.inlined[key] = true
	path := fr.path + "/" + x.posStr(pos)
	rs, nst := x.callBody(fn, args, binds, st, path)
	if len(rs) == 1 {
		return rs[0], nst
	}
	return TupleV{rs}, nst
}

func (x *Exec) invoke(fr *frame, cc *ssa.CallCommon, st *State, pos token.Pos) (Val, *State) {
	recv := x.val(fr, cc.Value)
	iv, ok := recv.(IfaceV)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(fr, a))
	}
	if ok && iv.dyn != nil {
		// known dynamic type: static dispatch
		ms := types.NewMethodSet(iv.dynT)
		sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name())
		if sel != nil {
			fn := x.prog.MethodValue(sel)
			if fn != nil {
				return x.callFn(fr, fn, nil, append([]Val{iv.dyn}, args...), st, pos)
			}
		}
	}
	it := cc.Value.Type()
	key := types.TypeString(it, qual) + "." + cc.Method.Name()
	c := x.contractFor(key)
	if c == nil {
		unsup("dynamic call %s at %s", key, x.posStr(pos))
	}
	sig := cc.Method.Type().(*types.Signature)
	env := append([]Val{recv}, args...)
	if len(c.parNames) == len(args) {
		env = args
	}
	return x.applyContract(c, nil, sig, env, st, pos)
}

func (x *Exec) builtin(fr *frame, b *ssa.Builtin, cc *ssa.CallCommon, st *State, pos token.Pos) (Val, *State) {
	switch b.Name() {
	case "len", "cap":
		switch s := x.val(fr, cc.Args[0]).(type) {
		case SliceV:
			if b.Name() == "len" {
				return IntV{s.len}, st
			}
			return IntV{s.cap}, st
		case ArrV:
			return IntV{Const(int64(len(s.fs)))}, st
		case PtrV:
			if a, ok := s.elem.Underlying().(*types.Array); ok {
				return IntV{Const(a.Len())}, st
			}
		case OpaqueV:
			return IntV{App("strlen", bi(0), maxLen, s.x)}, st
		}
		unsup("len of %T", x.val(fr, cc.Args[0]))
	case "copy":
		d, ok := x.val(fr, cc.Args[0]).(SliceV)
		s, ok2 := x.val(fr, cc.Args[1]).(SliceV)
		if !ok || !ok2 {
			unsup("copy of a string")
		}
		st = st.clone()
		n := IteP(Le(d.len, s.len), d.len, s.len)
		x.copyElems(st, d.base, d.off, s.base, s.off, n, d.elem)
		return IntV{n}, st
	case "append":
		return x.appendB(fr, cc, st, pos)
	case "panic":
		x.panics(st, pos, "panic")
		return TupleV{}, st
	case "min", "max":
		a := x.val(fr, cc.Args[0]).(IntV).p
		for _, y := range cc.Args[1:] {
			q := x.val(fr, y).(IntV).p
			if b.Name() == "min" {
				a = IteP(Le(a, q), a, q)
			} else {
				a = IteP(Ge(a, q), a, q)
			}
		}
		return IntV{a}, st
	case "ssa:wrapnilchk":
		return x.val(fr, cc.Args[0]), st
	}
	unsup("builtin %s", b.Name())
	return nil, nil
}

// copyElems: dst[0:n] = src[0:n] (memmove semantics)
func (x *Exec) copyElems(st *State, db, do, sb, so, n *Poly, elem types.Type) {
	comp := typeKey(elem)
	for _, l := range leaves(elem) {
		m := x.getMem(st, comp+l.path, l.lo, l.hi)
		if k, ok := n.IsConst(); ok && k.IsInt64() && k.Int64() <= 16 {
			var vs []*Poly
			for i := int64(0); i < k.Int64(); i++ {
				vs = append(vs, m.Read(sb, so.AddC(i)))
			}
			for i, v := range vs {
				x.wr(st, comp, l, db, do.AddC(int64(i)), v)
			}
			continue
		}
		row := FreshRow("copy_" + comp + l.path)
		m2 := m.SetRow(db, row)
		o := FreshBound("o")
		in := And(Ge(o.P(), do), Lt(o.P(), do.Add(n)))
		x.addFact(st, Forall([]*Atom{o}, And(
			Imp(in, Eq(m2.Read(db, o.P()), m.Read(sb, o.P().Sub(do).Add(so)))),
			Imp(Not(in), Eq(m2.Read(db, o.P()), m.Read(db, o.P()))))))
		st.mem[comp+l.path] = m2
		x.noteWrite(comp+l.path, db, nil)
	}
}

func (x *Exec) appendB(fr *frame, cc *ssa.CallCommon, st *State, pos token.Pos) (Val, *State) {
	a, ok := x.val(fr, cc.Args[0]).(SliceV)
	if !ok {
		unsup("append")
	}
	s, ok := x.val(fr, cc.Args[1]).(SliceV)
	if !ok {
		unsup("append of a string")
	}
	return x.appendSlices(a, s, st)
}

func (x *Exec) appendSlices(a, s SliceV, st *State) (Val, *State) {
	st = st.clone()
	nl := a.len.Add(s.len)
	if isZero(s.len) {
		return a, st
	}
	fits := Le(nl, a.cap)
	// case split: in place or reallocated
	nb := FreshAlloc()
	inPlace, realloc := st.clone(), st.clone()
	// in place
	x.copyElems(inPlace, a.base, a.off.Add(a.len), s.base, s.off, s.len, a.elem)
	// realloc
	x.zeroRows(realloc, typeKey(a.elem), a.elem, nb)
	x.copyElems(realloc, nb, Const(0), a.base, a.off, a.len, a.elem)
	comp := typeKey(a.elem)
	// the appended elements are read before the destination is written
	for _, l := range leaves(a.elem) {
		src := x.getMem(st, comp+l.path, l.lo, l.hi)
		m := x.getMem(realloc, comp+l.path, l.lo, l.hi)
		if k, ok := s.len.IsConst(); ok && k.IsInt64() && k.Int64() <= 16 {
			for i := int64(0); i < k.Int64(); i++ {
				x.wr(realloc, comp, l, nb, a.len.AddC(i), src.Read(s.base, s.off.AddC(i)))
			}
			continue
		}
		row := FreshRow("app_" + comp + l.path)
		m2 := m.SetRow(nb, row)
		o := FreshBound("o")
		in := And(Ge(o.P(), a.len), Lt(o.P(), nl))
		x.addFact(realloc, Forall([]*Atom{o}, And(
			Imp(in, Eq(m2.Read(nb, o.P()), src.Read(s.base, o.P().Sub(a.len).Add(s.off)))),
			Imp(Not(in), Eq(m2.Read(nb, o.P()), m.Read(nb, o.P()))))))
		realloc.mem[comp+l.path] = m2
		x.noteWrite(comp+l.path, nb, nil)
	}
	ncap := FreshVar("cap", bi(0), maxLen)
	x.addFactAlways(Ge(ncap, nl))
	if a.cap == Const(0) || (func() bool { _, h := a.cap.Interval(); return h != nil && h.Sign() == 0 })() {
		return SliceV{nb, Const(0), nl, ncap, a.elem}, realloc
	}
	// allocation size limit
	x.addFact(st, Le(nl, ConstB(maxLen)))
	inPlace.assume(fits)
	realloc.assume(Not(fits))
	ms, conds := x.mergeStates([]inEdge{{nil, inPlace}, {nil, realloc}})
	c := conds[0]
	if inPlace.dead {
		c = False
	} else if realloc.dead {
		c = True
	}
	return SliceV{IteP(c, a.base, nb), IteP(c, a.off, Const(0)), nl, IteP(c, a.cap, ncap), a.elem}, ms
}

func ints(args []Val) []*Poly {
	var out []*Poly
	for _, a := range args {
		if iv, ok := a.(IntV); ok {
			out = append(out, iv.p)
		} else {
			out = append(out, nil)
		}
	}
	return out
}

// intrinsic gives the semantics of the standard-library primitives the code
// is built on (trusted models; each one used is reported in the evidence).
func (x *Exec) intrinsic(fn *ssa.Function, key string, args []Val, st *State, pos token.Pos) (Val, *State, bool) {
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "fast-ksw") {
		return nil, nil, false
	}
	a := ints(args)
	tup := func(ps ...*Poly) Val {
		t := TupleV{}
		for _, p := range ps {
			t.fs = append(t.fs, IntV{p})
		}
		return t
	}
	trust := func() { x.trusted["model of "+key] = true }
	switch key {
	case "bits.Mul64":
		trust()
		p := a[0].Mul(a[1])
		return tup(DivC(p, bigR), ModC(p, bigR)), st, true
	case "bits.Add64":
		trust()
		p := a[0].Add(a[1]).Add(a[2])
		return tup(ModC(p, bigR), DivC(p, bigR)), st, true
	case "bits.Sub64":
		trust()
		p := a[0].Sub(a[1]).Sub(a[2])
		q := DivC(p, bigR)
		return tup(p.Sub(q.Scale(bigR)), q.Neg()), st, true
	case "bits.Len64", "bits.Len":
		trust()
		r := App("bitlen", bi(0), bi(64), a[0])
		x.addFactAlways(And(Imp(Ge(a[0], Const(1)), And(Ge(a[0], x.pow2(r.AddC(-1))), Lt(a[0], x.pow2(r)), Ge(r, Const(1)),
			Eq(x.pow2(r), x.pow2(r.AddC(-1)).Scale(bi(2))))), Imp(Eq0(a[0]), Eq0(r))))
		return IntV{r}, st, true
	case "bits.LeadingZeros64", "bits.LeadingZeros":
		bl, st2, _ := x.intrinsic(fn, strings.Replace(key, "LeadingZeros", "Len", 1), args, st, pos)
		return IntV{Const(64).Sub(bl.(IntV).p)}, st2, true
	case "bits.Div64":
		trust()
		x.oblige(st, "panic", "bits.Div64: y > hi", pos, Lt(a[0], a[2]))
		n := a[0].Scale(bigR).Add(a[1])
		return tup(DivV(n, a[2]), n.Sub(DivV(n, a[2]).Mul(a[2]))), st, true
	case "bits.Rem64":
		trust()
		x.oblige(st, "panic", "bits.Rem64: y > 0", pos, Ge(a[2], Const(1)))
		n := a[0].Scale(bigR).Add(a[1])
		return IntV{n.Sub(DivV(n, a[2]).Mul(a[2]))}, st, true
	case "bits.OnesCount64":
		trust()
		return IntV{App("popcount", bi(0), bi(64), a[0])}, st, true
	case "bits.Reverse64":
		trust()
		return IntV{App("rev64", bi(0), bigRm1, a[0])}, st, true
	case "binary.bigEndian.PutUint64", "binary.bigEndian.PutUint32", "binary.littleEndian.PutUint64", "binary.littleEndian.PutUint32", "binary.bigEndian.PutUint16", "binary.littleEndian.PutUint16":
		trust()
		n := int64(8)
		if strings.HasSuffix(key, "32") {
			n = 4
		}
		if strings.HasSuffix(key, "16") {
			n = 2
		}
		s := args[1].(SliceV)
		v := a[2]
		x.oblige(st, "bounds", key+": slice long enough", pos, Ge(s.len, Const(n)))
		st = st.clone()
		for i := int64(0); i < n; i++ {
			sh := uint(8 * i)
			d := DivC(v, pow2big(sh))
			byteV := d.Sub(DivC(v, pow2big(sh+8)).Scale(bi(256)))
			if i == n-1 {
				byteV = d
			}
			// a byte is in range by construction
			x.addFactAlways(And(Ge0(byteV), Le(byteV, Const(255))))
			idx := i
			if strings.HasPrefix(key, "binary.big") {
				idx = n - 1 - i
			}
			x.wr(st, "uint8", leaf{"", bi(0), bi(255)}, s.base, s.off.AddC(idx), byteV)
		}
		return TupleV{}, st, true
	case "binary.bigEndian.AppendUint64", "binary.bigEndian.AppendUint32", "binary.bigEndian.AppendUint16", "binary.littleEndian.AppendUint64", "binary.littleEndian.AppendUint32", "binary.littleEndian.AppendUint16":
		n, _ := strconv.Atoi(key[len(key)-2:])
		n /= 8
		dst := args[1].(SliceV)
		st = st.clone()
		tmp := SliceV{FreshAlloc(), Const(0), Const(int64(n)), Const(int64(n)), dst.elem}
		if n == 0 {
			return nil, nil, false
		}
		_, st, _ = x.intrinsic(fn, strings.Replace(key, "Append", "Put", 1), []Val{args[0], tmp, args[2]}, st, pos)
		r, st2 := x.appendSlices(dst, tmp, st)
		return r, st2, true
	case "binary.bigEndian.Uint64", "binary.bigEndian.Uint32", "binary.littleEndian.Uint64", "binary.littleEndian.Uint32", "binary.bigEndian.Uint16", "binary.littleEndian.Uint16":
		trust()
		n := int64(8)
		if strings.HasSuffix(key, "32") {
			n = 4
		}
		if strings.HasSuffix(key, "16") {
			n = 2
		}
		s := args[1].(SliceV)
		x.oblige(st, "bounds", key+": slice long enough", pos, Ge(s.len, Const(n)))
		if x.root != nil && x.root.opaqueBytes {
			hi := pow2big(uint(8 * n))
			return IntV{FreshVar("word", bi(0), hi.Sub(hi, bi(1)))}, st, true
		}
		v := Const(0)
		for i := int64(0); i < n; i++ {
			idx := i
			if strings.HasPrefix(key, "binary.big") {
				idx = n - 1 - i
			}
			b := x.rd(st, "uint8", leaf{"", bi(0), bi(255)}, s.base, s.off.AddC(idx))
			v = v.Add(b.Scale(pow2big(uint(8 * i))))
		}
		return IntV{v}, st, true
	case "errors.New", "fmt.Errorf":
		trust()
		return IfaceV{t: typeConst("errors.New and fmt.Errorf"), x: FreshVar("err", nil, nil)}, st, true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		trust()
		return x.fresh(types.Typ[types.String], "str"), st, true
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "math" {
		trust()
		var ps []*Poly
		for _, v := range args {
			switch y := v.(type) {
			case OpaqueV:
				ps = append(ps, y.x)
			case IntV:
				ps = append(ps, y.p)
			}
		}
		rt := fn.Signature.Results()
		if rt.Len() == 1 {
			if isInt(rt.At(0).Type()) {
				lo, hi := intRange(rt.At(0).Type())
				return IntV{App(key, lo, hi, ps...)}, st, true
			}
			if isBool(rt.At(0).Type()) {
				return BoolV{BoolApp(key, ps...)}, st, true
			}
			return OpaqueV{App(key, nil, nil, ps...), rt.At(0).Type()}, st, true
		}
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "math/big" {
		return x.bigIntrinsic(fn, key, args, st, pos)
	}
	return nil, nil, false
}

// math/big: a *big.Int is a cell holding an unbounded integer.
func (x *Exec) bigIntrinsic(fn *ssa.Function, key string, args []Val, st *State, pos token.Pos) (Val, *State, bool) {
	vl := leaf{"/$v", nil, nil}
	get := func(v Val) *Poly {
		p := v.(PtrV)
		return x.rd(st, p.comp, vl, p.base, p.off)
	}
	put := func(v Val, q *Poly) {
		p := v.(PtrV)
		st = st.clone()
		x.wr(st, p.comp, vl, p.base, p.off, q)
	}
	trust := func() { x.trusted["model of "+key] = true }
	bigT := func() PtrV {
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		p := x.allocate(st, pt.Elem())
		return p
	}
	z := func(q *Poly) (Val, *State, bool) {
		trust()
		put(args[0], q)
		return args[0], st, true
	}
	switch key {
	case "big.NewInt":
		trust()
		st = st.clone()
		p := bigT()
		x.wr(st, p.comp, vl, p.base, p.off, args[0].(IntV).p)
		return p, st, true
	case "big.Int.SetUint64", "big.Int.SetInt64":
		return z(args[1].(IntV).p)
	case "big.Int.Set":
		return z(get(args[1]))
	case "big.Int.Add":
		return z(get(args[1]).Add(get(args[2])))
	case "big.Int.Sub":
		return z(get(args[1]).Sub(get(args[2])))
	case "big.Int.Mul":
		return z(get(args[1]).Mul(get(args[2])))
	case "big.Int.Neg":
		return z(get(args[1]).Neg())
	case "big.Int.Lsh":
		return z(get(args[1]).Mul(x.pow2(args[2].(IntV).p)))
	case "big.Int.Rsh":
		return z(DivV(get(args[1]), x.pow2(args[2].(IntV).p)))
	case "big.Int.Quo", "big.Int.Div":
		n, d := get(args[1]), get(args[2])
		x.oblige(st, "divzero", key+": divisor is not zero", pos, Not(Eq0(d)))
		if key == "big.Int.Quo" {
			// truncated; equal to floor for non-negative dividends and positive divisors
			q := App("tdiv", nil, nil, n, d)
			if lo, _ := n.Interval(); lo != nil && lo.Sign() >= 0 {
				q2 := DivV(n, d)
				x.addFact(st, Imp(Ge(d, Const(1)), Eq(q, q2)))
				if l2, _ := d.Interval(); l2 != nil && l2.Sign() > 0 {
					return z(q2)
				}
				// d>0 provable?
				if x.dry > 0 || x.quick(Imp(st.reach(), Ge(d, Const(1)))) {
					return z(q2)
				}
				return z(q)
			}
			x.addFact(st, Imp(And(Ge0(n), Ge(d, Const(1))), Eq(q, DivV(n, d))))
			x.addFact(st, Imp(And(Lt(n, Const(0)), Ge(d, Const(1))), Eq(q, DivV(n.Neg(), d).Neg())))
			return z(q)
		}
		return z(DivV(n, d)) // Euclidean; floor for positive divisors
	case "big.Int.Mod":
		n, d := get(args[1]), get(args[2])
		x.oblige(st, "divzero", key+": divisor is positive (model)", pos, Ge(d, Const(1)))
		_, hd := d.Interval()
		r := App("emod", bi(0), hd, n, d)
		x.addFact(st, Imp(Ge(d, Const(1)), And(Eq(r, ModV(n, d)), Lt(r, d))))
		return z(r)
	case "big.Int.Uint64":
		trust()
		p := get(args[0])
		// low 64 bits of |x|
		r := ModC(p, bigR)
		x.oblige(st, "overflow", key+": value non-negative (model)", pos, Ge0(p))
		return IntV{r}, st, true
	case "big.Int.Sign":
		trust()
		p := get(args[0])
		return IntV{Ind(Ge(p, Const(1))).Sub(Ind(Lt(p, Const(0))))}, st, true
	case "big.Int.Cmp":
		trust()
		d := get(args[0]).Sub(get(args[1]))
		return IntV{Ind(Ge(d, Const(1))).Sub(Ind(Lt(d, Const(0))))}, st, true
	}
	_ = fmt.Sprint
	_ = big.NewInt
	return nil, nil, false
}

var typeConsts = map[string]int64{}
var typeConstsMu sync.Mutex

// typeConst numbers the dynamic types of interface values (0 is the nil interface).
func typeConst(name string) *Poly {
	typeConstsMu.Lock()
	defer typeConstsMu.Unlock()
	if typeConsts[name] == 0 {
		typeConsts[name] = int64(len(typeConsts) + 1)
	}
	return Const(typeConsts[name])
}
