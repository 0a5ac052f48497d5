package main

// Symbolic execution of go/ssa function bodies between cut points.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	name  string
	fn    string
	pos   string
	hyps  []*Bool
	goal  *Bool
	kind  string
	res   Result
	extra string
}

type Exec struct {
	maskCache  map[*Bool]bool
	pow2Args   []*Poly // terms the contract calls powers of two
	prog       *ssa.Program
	reg        *Registry
	root       *Contract
	rootFn     *ssa.Function
	cfg        string
	facts      []*Bool
	obls       []Obl
	silent     int // >0: do not record obligations (dry run / Houdini probing)
	dry        int
	writes     *[]writeRec
	compIv     map[string][2]*big.Int
	entry      *State
	env        *Env
	alloc0     *Poly
	loopAlloc  *Poly
	assuming   bool
	probe      *[]storeRec
	probeLoops []innerPhi
	nProbe     int
	outerStore []func(add func(key string, f func(st *State) *Bool))
	specMark   *Poly          // fresh(e): base(e) >= specMark (default: entry)
	iterMark   int            // clock value at the start of the current loop iteration
	owned      map[*Atom]bool // allocations whose first store has been recorded
	loops      map[string]*loopMem
	stack      []*frame
	invObls    []Obl
	caseBits   int
	fixed      map[*Poly]*Poly
	caseLits   []*Bool
	callCount  map[string]int
	used       map[string]bool // contracts used
	trusted    map[string]bool // assumed external models used
	houdiniTO  int
	loopPath   []string
	loopPhis   [][]phiInfo // enclosing loops' integer phis (outermost first)
	nLoops     int
	nCands     int
	deadline   func() bool
	targets    []target
	links      []*Poly
	linkCache  map[string]bool
	inlined    map[string]bool
}

type frame struct {
	fn    *ssa.Function
	regs  map[ssa.Value]Val
	loops *loopInfo
	rets  []retRec
	path  string
	binds []Val
}

type retRec struct {
	st *State
	v  []Val
}

func (x *Exec) addFact(st *State, b *Bool) {
	if b == True {
		return
	}
	x.facts = append(x.facts, Imp(st.reach(), b))
}

func (x *Exec) addFactAlways(b *Bool) {
	if b == True || b.hasBnd {
		return
	}
	x.facts = append(x.facts, b)
}

func (x *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Bool) {
	if x.silent > 0 || st.dead {
		return
	}
	g := Imp(st.reach(), goal)
	if g == True {
		return
	}
	p := ""
	if pos.IsValid() {
		pp := x.prog.Fset.Position(pos)
		p = fmt.Sprintf("%s:%d", shortFile(pp.Filename), pp.Line)
	}
	fn := fnKey(x.rootFn)
	x.obls = append(x.obls, Obl{name: name, fn: fn, pos: p, hyps: x.facts[:len(x.facts):len(x.facts)], goal: g, kind: kind})
}

func shortFile(f string) string {
	if i := strings.Index(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	return f
}

// key of a function: pkg.Func or pkg.Type.Method
func fnKey(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Pkg == nil && f.Object() == nil {
		return f.Name()
	}
	pkg := ""
	if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Name()
	} else if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pkg + "." + f.Name()
}

// ---- function bodies ----

func (x *Exec) callBody(fn *ssa.Function, args []Val, binds []Val, st *State, path string) ([]Val, *State) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	for _, f := range x.stack {
		if f.fn == fn {
			unsup("recursive call of %s without a contract", fnKey(fn))
		}
	}
	if len(x.stack) > 12 {
		unsup("inlining too deep at %s", fnKey(fn))
	}
	fr := &frame{fn: fn, regs: map[ssa.Value]Val{}, loops: loopsOf(fn), path: path, binds: binds}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fv] = binds[i]
	}
	x.stack = append(x.stack, fr)
	exits := x.region(fr, nil, fn.Blocks[0], []inEdge{{nil, st}})
	_ = exits
	x.stack = x.stack[:len(x.stack)-1]
	// merge returns
	var live []retRec
	for _, r := range fr.rets {
		if !r.st.dead {
			live = append(live, r)
		}
	}
	if len(live) == 0 {
		d := st.clone()
		d.dead = true
		d.pc = append(d.pc, False)
		var vs []Val
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			vs = append(vs, x.fresh(res.At(i).Type(), "dead"))
		}
		return vs, d
	}
	var edges []inEdge
	for _, r := range live {
		edges = append(edges, inEdge{nil, r.st})
	}
	ms, conds := x.mergeStates(edges)
	var out []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		v := live[len(live)-1].v[i]
		for k := len(live) - 2; k >= 0; k-- {
			v = x.iteVal(conds[k], res.At(i).Type(), live[k].v[i], v)
		}
		out = append(out, v)
	}
	return out, ms
}

type inEdge struct {
	from *ssa.BasicBlock
	st   *State
}

type outEdge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// mergeStates joins states; conds[k] is the condition (relative to the common
// prefix) selecting edge k.
func (x *Exec) mergeStates(in []inEdge) (*State, []*Bool) {
	var live []inEdge
	for _, e := range in {
		if !e.st.dead {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		s := in[0].st.clone()
		s.dead = true
		return s, make([]*Bool, len(in))
	}
	// common prefix
	pre := 0
	for {
		ok := true
		for _, e := range live {
			if pre >= len(e.st.pc) || e.st.pc[pre] != live[0].st.pc[pre] {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		pre++
	}
	conds := make([]*Bool, len(in))
	var liveConds []*Bool
	for i, e := range in {
		if e.st.dead {
			conds[i] = False
			continue
		}
		conds[i] = And(e.st.pc[pre:]...)
		liveConds = append(liveConds, conds[i])
	}
	out := &State{mem: map[string]*Mem{}, pc: append([]*Bool{}, live[0].st.pc[:pre]...)}
	j := joinCond(liveConds)
	if j != True {
		out.pc = append(out.pc, j)
	}
	comps := map[string]bool{}
	for _, e := range live {
		for k := range e.st.mem {
			comps[k] = true
		}
	}
	keys := make([]string, 0, len(comps))
	for k := range comps {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		iv := x.compIv[k]
		m := x.getMem(live[len(live)-1].st, k, iv[0], iv[1])
		for i := len(live) - 2; i >= 0; i-- {
			m = IteM(And(live[i].st.pc[pre:]...), x.getMem(live[i].st, k, iv[0], iv[1]), m)
		}
		out.mem[k] = m
	}
	return out, conds
}

// joinCond: disjunction with complementary-literal simplification
func joinCond(cs []*Bool) *Bool {
	if len(cs) == 1 {
		return cs[0]
	}
	lits := func(b *Bool) []*Bool {
		if b.kind == BAnd {
			return b.args
		}
		return []*Bool{b}
	}
	// iteratively combine pairs differing in one complementary literal
	cur := append([]*Bool{}, cs...)
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(cur); i++ {
			for j := i + 1; j < len(cur); j++ {
				a, b := lits(cur[i]), lits(cur[j])
				as, bs := map[*Bool]bool{}, map[*Bool]bool{}
				for _, l := range a {
					as[l] = true
				}
				for _, l := range b {
					bs[l] = true
				}
				var da, db []*Bool
				var common []*Bool
				for _, l := range a {
					if bs[l] {
						common = append(common, l)
					} else {
						da = append(da, l)
					}
				}
				for _, l := range b {
					if !as[l] {
						db = append(db, l)
					}
				}
				if len(da) == 1 && len(db) == 1 && da[0] == Not(db[0]) {
					cur[i] = And(common...)
					cur = append(cur[:j], cur[j+1:]...)
					changed = true
					break outer
				}
				if len(da) == 0 || len(db) == 0 {
					cur[i] = And(common...)
					cur = append(cur[:j], cur[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	return Or(cur...)
}

// region executes the blocks of a loop body (loop != nil, starting at its
// header with the given incoming state) or of a whole function.
func (x *Exec) region(fr *frame, lp *loop, start *ssa.BasicBlock, in []inEdge) []outEdge {
	var exits []outEdge
	if lp != nil {
		old := x.iterMark
		clock++
		x.iterMark = clock
		defer func() { x.iterMark = old }()
	}
	pending := map[*ssa.BasicBlock][]inEdge{start: in}
	for _, b := range fr.loops.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		inner := fr.loops.headerOf[b]
		if inner != nil && inner != lp {
			outs := x.loop(fr, inner, es)
			for _, o := range outs {
				if lp != nil && (!lp.blocks[o.to] || o.to == lp.header) {
					exits = append(exits, o)
				} else {
					pending[o.to] = append(pending[o.to], inEdge{o.from, o.st})
				}
			}
			continue
		}
		// skip blocks that belong to inner loops (executed by x.loop)
		if owner := fr.loops.innermost[b]; owner != lp && owner != nil && !(owner == lp) {
			if lp == nil || owner != lp {
				if isInside(owner, lp) {
					continue
				}
			}
		}
		var st *State
		if b == start && lp != nil {
			st = es[0].st // header state prepared by x.loop (phis assigned)
		} else {
			var ok bool
			st, ok = x.enter(fr, b, es)
			if !ok {
				continue
			}
		}
		outs := x.block(fr, b, st)
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			if lp != nil && (!lp.blocks[o.to] || o.to == lp.header) {
				exits = append(exits, o)
			} else {
				pending[o.to] = append(pending[o.to], inEdge{o.from, o.st})
			}
		}
	}
	return exits
}

func isInside(inner, outer *loop) bool {
	for l := inner; l != nil; l = l.parent {
		if l == outer {
			return true
		}
	}
	return outer == nil
}

// enter merges the incoming edges of a block and assigns its phis.
func (x *Exec) enter(fr *frame, b *ssa.BasicBlock, es []inEdge) (*State, bool) {
	var live []inEdge
	for _, e := range es {
		if !e.st.dead {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return nil, false
	}
	st, conds := x.mergeStates(live)
	vals := map[*ssa.Phi]Val{}
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		for k := len(live) - 1; k >= 0; k-- {
			ev := x.phiEdge(fr, b, ph, live[k].from)
			if v == nil {
				v = ev
			} else {
				v = x.iteVal(conds[k], ph.Type(), ev, v)
			}
		}
		vals[ph] = v
	}
	for p, v := range vals {
		fr.regs[p] = v
	}
	return st, true
}

func (x *Exec) phiEdge(fr *frame, b *ssa.BasicBlock, ph *ssa.Phi, from *ssa.BasicBlock) Val {
	for i, p := range b.Preds {
		if p == from {
			return x.val(fr, ph.Edges[i])
		}
	}
	unsup("phi edge")
	return nil
}

func (x *Exec) val(fr *frame, v ssa.Value) Val {
	if r, ok := fr.regs[v]; ok {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return FuncV{fn: c}
	case *ssa.Global:
		// address of a package-level variable
		b := NamedVar("global:"+c.String(), bi(1), nil)
		p := mkPtr(c.Type().(*types.Pointer).Elem(), b, Const(0))
		return p
	case *ssa.Builtin:
		return OpaqueV{Const(0), c.Type()}
	}
	unsup("value %s (%T) undefined in %s", v.Name(), v, fnKey(fr.fn))
	return nil
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch {
	case isInt(t):
		iv := constant.ToInt(c.Value)
		b := new(big.Int)
		if s, ok := b.SetString(iv.ExactString(), 10); ok {
			return IntV{ConstB(s)}
		}
		unsup("integer constant %s", c)
	case isBool(t):
		if constant.BoolVal(c.Value) {
			return BoolV{True}
		}
		return BoolV{False}
	}
	return OpaqueV{App("const:"+typeKey(t)+":"+c.Value.ExactString(), nil, nil), t}
}

// wrap reduces an exact result into the range of t. Signed overflow is an
// obligation (index arithmetic is checked, not wrapped).
func (x *Exec) wrap(st *State, p *Poly, t types.Type, pos token.Pos) *Poly {
	lo, hi := intRange(t)
	if lo == nil || p.In(lo, hi) {
		return p
	}
	width := new(big.Int).Add(new(big.Int).Sub(hi, lo), bi(1))
	if isSigned(t) {
		x.oblige(st, "overflow", "no signed overflow", pos, And(Ge(p, ConstB(lo)), Le(p, ConstB(hi))))
		x.addFact(st, And(Ge(p, ConstB(lo)), Le(p, ConstB(hi))))
		return p
	}
	// unsigned loop counters: try to show that no wrap-around happens
	if hasPhi(p) && x.dry == 0 {
		g := Imp(st.reach(), And(Ge0(p), Le(p, ConstB(hi))))
		if x.quick(g) {
			return p
		}
	}
	return ModC(p, width)
}

func hasPhi(p *Poly) bool {
	if len(p.ts) > 3 {
		return false
	}
	for _, t := range p.ts {
		for _, a := range t.m.as {
			if a.kind == AVar && a.isPhi {
				return true
			}
		}
	}
	return false
}

var quickCache = map[string]bool{}

func (x *Exec) quick(g *Bool) bool {
	if g == True {
		return true
	}
	var kb strings.Builder
	fmt.Fprintf(&kb, "%d|", g.id)
	for _, f := range x.facts {
		fmt.Fprintf(&kb, "%d,", f.id)
	}
	k := kb.String()
	if r, ok := quickCache[k]; ok {
		return r
	}
	r := proveBatch(x.facts, []*Bool{g}, quickTO, true)[0].ok
	quickCache[k] = r
	return r
}

func (x *Exec) intOp(st *State, op token.Token, a, b *Poly, t types.Type, pos token.Pos) *Poly {
	lo, hi := intRange(t)
	_ = lo
	switch op {
	case token.ADD:
		return x.wrap(st, a.Add(b), t, pos)
	case token.SUB:
		return x.wrap(st, a.Sub(b), t, pos)
	case token.MUL:
		if len(x.links) > 0 && x.dry == 0 && lo != nil && lo.Sign() == 0 {
			a, b = x.tryLink(st, a), x.tryLink(st, b)
			return ModCw(a.Mul(b), lo, hi)
		}
		if !isSigned(t) {
			a, b = selForm(a), selForm(b)
			if r := liftJoin(a, b, func(a, b *Poly) *Poly { return ModCw(a.Mul(b), lo, hi) }); r != nil {
				return r
			}
		}
		return x.wrap(st, a.Mul(b), t, pos)
	case token.QUO, token.REM:
		x.oblige(st, "divzero", "divisor is not zero", pos, Not(Eq0(b)))
		if isSigned(t) {
			la, _ := a.Interval()
			lb, _ := b.Interval()
			if la == nil || la.Sign() < 0 || lb == nil || lb.Sign() < 0 {
				// truncated division agrees with floor division on non-negative operands
				q := App("tdiv", nil, nil, a, b)
				x.addFact(st, Imp(And(Ge0(a), Ge(b, Const(1))), Eq(q, DivV(a, b))))
				if op == token.QUO {
					return q
				}
				r := App("trem", lo, hi, a, b)
				m := ModV(a, b)
				x.addFact(st, Imp(Ge(b, Const(1)), And(
					Imp(Ge0(a), Eq(r, m)),
					Imp(And(Lt(a, Const(0)), Eq0(m)), Eq0(r)),
					Imp(And(Lt(a, Const(0)), Ge(m, Const(1))), Eq(r, m.Sub(b))),
					Lt(r, b), Ge(r.Add(b), Const(1)))))
				x.addFact(st, Eq(a, q.Mul(b).Add(r)))
				return r
			}
		}
		if op == token.QUO {
			return DivV(a, b)
		}
		return ModV(a, b)
	case token.SHL, token.SHR:
		if _, ok := b.IsConst(); !ok {
			x.oblige(st, "shift", "shift count is not negative", pos, Ge0(b))
			x.addFact(st, Ge0(b))
		}
	}
	switch op {
	case token.SHL:
		if k, ok := b.IsConst(); ok {
			if k.Sign() < 0 || k.BitLen() > 16 {
				unsup("shift")
			}
			return x.wrap(st, a.Scale(pow2big(uint(k.Int64()))), t, pos)
		}
		pw := x.pow2(b)
		r := ModCw(a.Mul(pw), lo, hi)
		// shift counts >= 64 give 0 which pow2 mod 2^64 also gives; for signed
		// results an overflow obligation is generated
		if isSigned(t) {
			x.oblige(st, "overflow", "no signed overflow in shift", pos, And(Le(a.Mul(pw), ConstB(hi)), Ge(a.Mul(pw), ConstB(lo))))
			return a.Mul(pw)
		}
		return r
	case token.SHR:
		if k, ok := b.IsConst(); ok {
			if k.Sign() < 0 || k.BitLen() > 16 {
				unsup("shift")
			}
			return DivC(a, pow2big(uint(k.Int64())))
		}
		return DivV(a, x.pow2(b))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return x.bitop(st, op, a, b, t)
	}
	unsup("integer operator %s", op)
	return nil
}

func ModCw(p *Poly, lo, hi *big.Int) *Poly {
	w := new(big.Int).Add(new(big.Int).Sub(hi, lo), bi(1))
	return ModC(p, w)
}

func (x *Exec) pow2(e *Poly) *Poly {
	if k, ok := e.IsConst(); ok && k.Sign() >= 0 && k.BitLen() < 12 {
		return ConstB(pow2big(uint(k.Int64())))
	}
	return App("pow2", bi(1), nil, e)
}

func maskBits(k *big.Int) (uint, bool) {
	n := new(big.Int).Add(k, bi(1))
	if n.Sign() > 0 && n.TrailingZeroBits() == uint(n.BitLen()-1) {
		return uint(n.BitLen() - 1), true
	}
	return 0, false
}

func lo0(t types.Type) bool {
	lo, _ := intRange(t)
	return lo != nil && lo.Sign() == 0
}

// selForm writes a bit (y mod 2 or 1 - y mod 2) used as a factor with an indicator.
func selForm(p *Poly) *Poly {
	if p.hasBnd {
		return p
	}
	for _, t := range p.ts {
		if len(t.m.as) != 1 || t.m.as[0].kind != ADiv || t.m.as[0].c.Cmp(bi(2)) != 0 {
			continue
		}
		m := ModC(t.m.as[0].p, bi(2))
		i := Ind(Eq(m, Const(1)))
		if p == m {
			return i
		}
		if p == Const(1).Sub(m) {
			return Const(1).Sub(i)
		}
	}
	return p
}

// bitSupport gives a mask of the bits that can be set in the value of p, for
// sums of terms 2^k*x whose bits cannot overlap (nil if there is none).
func bitSupport(p *Poly) *big.Int {
	sup := new(big.Int)
	for _, t := range p.ts {
		var m *big.Int
		if t.c.Sign() < 0 {
			return nil
		}
		if len(t.m.as) == 0 {
			m = new(big.Int).Set(t.c)
		} else {
			lo, hi := mkPoly([]term{{t.m, bi(1)}}).Interval()
			k := t.c.TrailingZeroBits()
			if lo == nil || hi == nil || lo.Sign() < 0 || int(k) != t.c.BitLen()-1 {
				return nil
			}
			m = pow2big(uint(hi.BitLen()))
			m.Sub(m, bi(1))
			m.Lsh(m, k)
		}
		if new(big.Int).And(sup, m).Sign() != 0 {
			return nil
		}
		sup.Or(sup, m)
	}
	return sup
}

// liftJoin evaluates f separately for each case of a condition on which one of
// the operands is a constant in one of the cases (selection by 0/1 factors).
func liftJoin(a, b *Poly, f func(a, b *Poly) *Poly) *Poly {
	var c *Bool
	for _, p := range []*Poly{a, b} {
		for _, t := range p.ts {
			for _, at := range t.m.as {
				if c == nil && (at.kind == AInd || at.kind == AIte) && !at.b.hasBnd {
					s := newCaseSub([]*Bool{at.b}, 1)
					n := newCaseSub([]*Bool{at.b}, 0)
					_, k1 := s.Poly(p).IsConst()
					_, k2 := n.Poly(p).IsConst()
					if k1 || k2 {
						c = at.b
					}
				}
			}
		}
	}
	if c == nil {
		return nil
	}
	s, n := newCaseSub([]*Bool{c}, 1), newCaseSub([]*Bool{c}, 0)
	return IteP(c, f(s.Poly(a), s.Poly(b)), f(n.Poly(a), n.Poly(b)))
}

func (x *Exec) bitop(st *State, op token.Token, a, b *Poly, t types.Type) *Poly {
	ka, oka := a.IsConst()
	kb, okb := b.IsConst()
	if oka && okb && ka.Sign() >= 0 && kb.Sign() >= 0 {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(ka, kb)
		case token.OR:
			r.Or(ka, kb)
		case token.XOR:
			r.Xor(ka, kb)
		case token.AND_NOT:
			r.AndNot(ka, kb)
		}
		return ConstB(r)
	}
	if op == token.AND {
		if oka && !okb {
			a, b, ka, kb, oka, okb = b, a, kb, ka, okb, oka
		}
		if okb && kb.Sign() >= 0 {
			if n, ok := maskBits(kb); ok {
				return ModC(a, pow2big(n)) // exact for two's complement as well
			}
			// contiguous high mask
			w := new(big.Int)
			lo, hi := intRange(t)
			w.Sub(hi, lo)
			if n, ok := maskBits(new(big.Int).Xor(kb, w)); ok && lo.Sign() == 0 {
				return a.Sub(ModC(a, pow2big(n)))
			}
		}
	}
	if op == token.OR && okb && kb.Sign() == 0 {
		return a
	}
	if op == token.OR && oka && ka.Sign() == 0 {
		return b
	}
	if op == token.XOR && okb && kb.Sign() == 0 {
		return a
	}
	if op == token.XOR && lo0(t) {
		// exclusive or with a mask of the n low bits
		if oka && !okb {
			a, b, ka, okb = b, a, nil, true
			kb, _ = b.IsConst()
		}
		if okb {
			if n, ok := maskBits(kb); ok {
				return a.Add(b).Sub(ModC(a, pow2big(n)).Scale(bi(2)))
			}
		}
	}
	if op == token.OR || op == token.XOR || op == token.AND {
		// operands without a common bit
		if sa, sb := bitSupport(a), bitSupport(b); sa != nil && sb != nil && new(big.Int).And(sa, sb).Sign() == 0 {
			if op == token.AND {
				return Const(0)
			}
			return a.Add(b)
		}
	}
	if op == token.OR {
		if r := liftJoin(a, b, func(a, b *Poly) *Poly { return x.bitop(st, op, a, b, t) }); r != nil {
			return r
		}
	}
	if a.id > b.id && op != token.AND_NOT {
		a, b = b, a
	}
	name := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op]
	lo, hi := intRange(t)
	r := App("bv"+name, lo, hi, a, b)
	la, _ := a.Interval()
	lb, _ := b.Interval()
	nonneg := la != nil && lb != nil && la.Sign() >= 0 && lb.Sign() >= 0 || lo0(t)
	nn := And(Ge0(a), Ge0(b))
	if nonneg {
		nn = True
	}
	if op == token.AND && nonneg {
		// masking by 2^k - 1, where that is known
		for _, m := range []*Poly{a, b} {
			o := a
			if m == a {
				o = b
			}
			for _, w := range x.pow2Args {
				if x.masks(st, m, w) {
					return ModV(o, w)
				}
			}
		}
	}
	switch op {
	case token.AND:
		x.addFactAlways(Imp(nn, And(Ge0(r), Le(r, a), Le(r, b))))
		// masking by 2^k - 1
		for _, m := range []*Poly{a, b} {
			o := a
			if m == a {
				o = b
			}
			x.addFactAlways(Imp(And(BoolApp("ispow2", m.AddC(1)), Ge0(m)), Eq(r, ModV(o, m.AddC(1)))))
			for _, w := range x.pow2Args {
				if w != m.AddC(1) {
					x.addFactAlways(Imp(And(BoolApp("ispow2", w), Ge(w, Const(1)), Eq(w, m.AddC(1))), Eq(r, ModV(o, w))))
				}
			}
		}
	case token.OR, token.XOR:
		x.addFactAlways(Imp(nn, And(Ge0(r), Le(r, a.Add(b)))))
		if op == token.OR {
			x.addFactAlways(Imp(nn, And(Ge(r, a), Ge(r, b))))
		}
	}
	return r
}

// masks: m is known to be w - 1 for a power of two w.
func (x *Exec) masks(st *State, m, w *Poly) bool {
	if m == w.AddC(-1) {
		return true
	}
	// only a wrapped w - 1 is worth asking for
	if m.Sub(w.AddC(-1)).hasBnd || len(m.ts) > 4 {
		return false
	}
	goal := Imp(st.reach(), And(BoolApp("ispow2", w), Ge(w, Const(1)), Eq(w, m.AddC(1))))
	if r, ok := x.maskCache[goal]; ok {
		return r
	}
	r := proveBatch(x.facts, []*Bool{goal}, time.Second, true)[0].ok
	if x.maskCache == nil {
		x.maskCache = map[*Bool]bool{}
	}
	x.maskCache[goal] = r
	if r {
		x.invObls = append(x.invObls, Obl{name: "mask is one less than a power of two", fn: fnKey(x.rootFn), kind: "link", goal: goal, res: Result{ok: true, backend: "z3-5.3.2", status: "unsat"}})
	}
	return r
}

func (x *Exec) cmp(op token.Token, a, b *Poly) *Bool {
	switch op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	}
	unsup("comparison %s", op)
	return nil
}

// ---- instructions ----

func (x *Exec) block(fr *frame, b *ssa.BasicBlock, st *State) []outEdge {
	for _, ins := range b.Instrs {
		if st.dead {
			return nil
		}
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.val(fr, i.Cond).(BoolV).b
			for _, l := range x.caseLits { // decided by the case under verification
				if c == l {
					c = True
				} else if c == Not(l) {
					c = False
				}
			}
			t, e := st.clone(), st.clone()
			t.assume(c)
			e.assume(Not(c))
			var out []outEdge
			if c != False {
				out = append(out, outEdge{b, b.Succs[0], t})
			}
			if c != True {
				out = append(out, outEdge{b, b.Succs[1], e})
			}
			return out
		case *ssa.Jump:
			return []outEdge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var vs []Val
			for _, r := range i.Results {
				vs = append(vs, x.val(fr, r))
			}
			fr.rets = append(fr.rets, retRec{st, vs})
			return nil
		case *ssa.Panic:
			x.panics(st, i.Pos(), "explicit panic")
			return nil
		default:
			st = x.instr(fr, ins, st)
		}
	}
	return nil
}

func (x *Exec) panics(st *State, pos token.Pos, what string) {
	if x.root != nil && len(x.root.panics) > 0 && x.silent == 0 {
		// documented panics: the panic may only be reached when one of the
		// declared conditions holds at entry
		var cs []*Bool
		for _, e := range x.root.panics {
			cs = append(cs, x.evalBool(e, x.env, x.entry, x.entry))
		}
		x.oblige(st, "panic", "panic only under the documented condition ("+what+")", pos, Or(cs...))
	} else {
		x.oblige(st, "panic", what+" is unreachable", pos, False)
	}
	st.dead = true
}

func (x *Exec) instr(fr *frame, ins ssa.Instruction, st *State) *State {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.regs[i] = x.allocate(st, i.Type().(*types.Pointer).Elem())
	case *ssa.BinOp:
		fr.regs[i] = x.binop(st, i.Op, x.val(fr, i.X), x.val(fr, i.Y), i.X.Type(), i.Type(), i.Pos())
	case *ssa.UnOp:
		x.unop(fr, i, st)
	case *ssa.Call:
		var r Val
		r, st = x.call(fr, i.Common(), st, i.Pos(), i)
		fr.regs[i] = r
	case *ssa.ChangeType:
		fr.regs[i] = x.val(fr, i.X)
	case *ssa.Convert:
		fr.regs[i] = x.convert(fr, i, st)
	case *ssa.Extract:
		fr.regs[i] = x.val(fr, i.Tuple).(TupleV).fs[i.Index]
	case *ssa.Field:
		fr.regs[i] = x.val(fr, i.X).(StructV).fs[i.Field]
	case *ssa.FieldAddr:
		p := x.val(fr, i.X).(PtrV)
		x.nonNil(st, p.base, i.Pos())
		s := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		f := s.Field(i.Field)
		fr.regs[i] = PtrV{comp: p.comp + "/" + f.Name(), base: p.base, off: p.off, elem: f.Type()}
	case *ssa.Index:
		switch a := x.val(fr, i.X).(type) {
		case ArrV:
			idx := x.val(fr, i.Index).(IntV).p
			if k, ok := idx.IsConst(); ok {
				fr.regs[i] = a.fs[k.Int64()]
				break
			}
			x.oblige(st, "bounds", "array index in range", i.Pos(), And(Ge0(idx), Lt(idx, Const(int64(len(a.fs))))))
			v := a.fs[len(a.fs)-1]
			for k := len(a.fs) - 2; k >= 0; k-- {
				v = x.iteVal(Eq(idx, Const(int64(k))), i.Type(), a.fs[k], v)
			}
			fr.regs[i] = v
		default:
			fr.regs[i] = x.fresh(i.Type(), "idx")
		}
	case *ssa.IndexAddr:
		fr.regs[i] = x.indexAddr(fr, i, st)
	case *ssa.MakeSlice:
		n := x.val(fr, i.Len).(IntV).p
		c := x.val(fr, i.Cap).(IntV).p
		x.oblige(st, "bounds", "make: length is non-negative", i.Pos(), And(Ge0(n), Le(n, c)))
		fr.regs[i] = x.makeSlice(st, i.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.MakeInterface:
		v := x.val(fr, i.X)
		iv := IfaceV{t: typeConst(types.TypeString(i.X.Type(), qual)), x: FreshVar("iface", nil, nil), dyn: v, dynT: i.X.Type()}
		if p, ok := v.(PtrV); ok {
			iv.x = p.base
		}
		fr.regs[i] = iv
	case *ssa.ChangeInterface:
		fr.regs[i] = x.val(fr, i.X)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		fr.regs[i] = FuncV{fn: i.Fn.(*ssa.Function), binds: bs}
	case *ssa.Slice:
		fr.regs[i] = x.slice(fr, i, st)
	case *ssa.Store:
		p := x.val(fr, i.Addr).(PtrV)
		x.nonNil(st, p.base, i.Pos())
		v := x.val(fr, i.Val)
		x.claimRow(st, p, v)
		x.store(st, p, i.Val.Type(), v)
	case *ssa.TypeAssert:
		iv, ok := x.val(fr, i.X).(IfaceV)
		if !ok || iv.dyn == nil {
			if i.CommaOk {
				unsup("type assertion on an unknown dynamic type at %s", x.posStr(i.Pos()))
			}
			// x.(T) panics unless the dynamic type is T
			if _, isIf := i.AssertedType.Underlying().(*types.Interface); isIf {
				fr.regs[i] = iv
				break
			}
			if pt, isP := i.AssertedType.Underlying().(*types.Pointer); isP && ok {
				x.oblige(st, "assert", "type assertion succeeds", i.Pos(), Eq(iv.t, typeConst(types.TypeString(i.AssertedType, qual))))
				fr.regs[i] = mkPtr(pt.Elem(), iv.x, Const(0))
				break
			}
			unsup("type assertion to %s", i.AssertedType)
		}
		var match bool
		if it, isIf := i.AssertedType.Underlying().(*types.Interface); isIf {
			match = types.Implements(iv.dynT, it)
		} else {
			match = types.Identical(iv.dynT, i.AssertedType)
		}
		var v Val
		if match {
			v = iv.dyn
			if _, isIf := i.AssertedType.Underlying().(*types.Interface); isIf {
				v = iv
			}
		} else {
			v = x.zero(i.AssertedType)
		}
		if i.CommaOk {
			ok := False
			if match {
				ok = True
			}
			fr.regs[i] = TupleV{[]Val{v, BoolV{ok}}}
		} else {
			if !match {
				x.panics(st, i.Pos(), "failed type assertion")
			}
			fr.regs[i] = v
		}
	case *ssa.RunDefers:
	case *ssa.SliceToArrayPointer:
		s := x.val(fr, i.X).(SliceV)
		a := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.oblige(st, "bounds", "slice to array pointer", i.Pos(), Ge(s.len, Const(a.Len())))
		fr.regs[i] = PtrV{comp: typeKey(s.elem), base: s.base, off: s.off, end: s.off.AddC(a.Len()), elem: i.Type().Underlying().(*types.Pointer).Elem(), arr: true}
	default:
		unsup("instruction %T at %s", ins, x.posStr(ins.Pos()))
	}
	return st
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	pp := x.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", shortFile(pp.Filename), pp.Line)
}

func (x *Exec) nonNil(st *State, b *Poly, pos token.Pos) {
	if lo, _ := b.Interval(); lo != nil && lo.Sign() > 0 {
		return
	}
	if isZero(b) {
		x.panics(st, pos, "nil dereference")
	}
}

// claimRow: the first time a slice allocated in the current iteration is stored, the
// ghost functions U_owner and U_ridx record where: the slot of the slice of slices, or
// owner 0 for a slice held by a struct field. The choice is made once per allocation.
func (x *Exec) claimRow(st *State, p PtrV, v Val) {
	s, ok := v.(SliceV)
	if !ok {
		return
	}
	a := s.base.AsAtom()
	if a == nil || !a.alloc || a.ts < x.iterMark || x.owned[a] {
		return
	}
	if x.owned == nil {
		x.owned = map[*Atom]bool{}
	}
	x.owned[a] = true
	if p.end == nil {
		x.addFact(st, Eq0(rowOwner(s.base)))
		return
	}
	x.addFact(st, And(Eq(rowOwner(s.base), p.base), Eq(App("U_ridx", nil, nil, s.base), p.off)))
}

func (x *Exec) allocate(st *State, t types.Type) PtrV {
	b := FreshAlloc()
	p := mkPtr(t, b, Const(0))
	if a, ok := t.Underlying().(*types.Array); ok {
		x.zeroRows(st, typeKey(a.Elem()), a.Elem(), b)
		return p
	}
	x.zeroRows(st, p.comp, t, b)
	return p
}

var zeroRow = &Row{}

func (x *Exec) zeroRows(st *State, comp string, t types.Type, b *Poly) {
	for _, l := range leaves(t) {
		if strings.HasSuffix(l.path, ".x") {
			continue // opaque leaves: unconstrained initial content
		}
		m := x.getMem(st, comp+l.path, l.lo, l.hi)
		st.mem[comp+l.path] = m.SetRow(b, zeroRow)
		if x.writes != nil {
			*x.writes = append(*x.writes, writeRec{comp + l.path, b, nil, nil})
		}
	}
}

func (x *Exec) makeSlice(st *State, elem types.Type, n, c *Poly) SliceV {
	b := FreshAlloc()
	x.zeroRows(st, typeKey(elem), elem, b)
	x.addFact(st, And(Le(c, ConstB(maxLen))))
	return SliceV{b, Const(0), n, c, elem}
}

func (x *Exec) indexAddr(fr *frame, i *ssa.IndexAddr, st *State) Val {
	idx := x.val(fr, i.Index).(IntV).p
	switch a := x.val(fr, i.X).(type) {
	case SliceV:
		x.oblige(st, "bounds", "slice index in range", i.Pos(), And(Ge0(idx), Lt(idx, a.len)))
		x.addFact(st, And(Ge0(idx), Lt(idx, a.len)))
		return PtrV{comp: typeKey(a.elem), base: a.base, off: a.off.Add(idx), end: a.off.Add(a.len), elem: a.elem}
	case PtrV:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !a.arr {
			k, ok := idx.IsConst()
			if !ok {
				x.oblige(st, "bounds", "array index in range", i.Pos(), And(Ge0(idx), Lt(idx, Const(at.Len()))))
				x.addFact(st, And(Ge0(idx), Lt(idx, Const(at.Len()))))
				if !directUse(i) || a.dyn != nil || at.Len() > 64 {
					unsup("symbolic index into an array field at %s", x.posStr(i.Pos()))
				}
				return PtrV{comp: a.comp, base: a.base, off: a.off, elem: at.Elem(), dyn: idx, dynN: at.Len()}
			}
			if a.dyn != nil {
				unsup("nested array at a symbolic index at %s", x.posStr(i.Pos()))
			}
			return PtrV{comp: a.comp + "#" + k.String(), base: a.base, off: a.off, elem: at.Elem()}
		}
		if _, ok := idx.IsConst(); !ok {
			x.oblige(st, "bounds", "array index in range", i.Pos(), And(Ge0(idx), Lt(idx, Const(at.Len()))))
		}
		return PtrV{comp: a.comp, base: a.base, off: a.off.Add(idx), end: a.end, elem: at.Elem()}
	}
	unsup("IndexAddr")
	return nil
}

// directUse reports whether an address is only loaded from and stored to.
func directUse(i *ssa.IndexAddr) bool {
	for _, r := range *i.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if u.Addr != i {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (x *Exec) slice(fr *frame, i *ssa.Slice, st *State) Val {
	var lo, hi, mx *Poly
	if i.Low != nil {
		lo = x.val(fr, i.Low).(IntV).p
	} else {
		lo = Const(0)
	}
	if i.High != nil {
		hi = x.val(fr, i.High).(IntV).p
	}
	if i.Max != nil {
		mx = x.val(fr, i.Max).(IntV).p
	}
	switch a := x.val(fr, i.X).(type) {
	case SliceV:
		if hi == nil {
			hi = a.len
		}
		c := a.cap
		if mx != nil {
			c = mx
		}
		g := And(Ge0(lo), Le(lo, hi), Le(hi, a.cap))
		x.oblige(st, "bounds", "slice bounds in range", i.Pos(), g)
		x.addFact(st, g)
		return SliceV{a.base, a.off.Add(lo), hi.Sub(lo), c.Sub(lo), a.elem}
	case PtrV:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !a.arr {
			unsup("slicing an array field")
		}
		n := Const(at.Len())
		if hi == nil {
			hi = n
		}
		x.oblige(st, "bounds", "slice bounds in range", i.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, n)))
		return SliceV{a.base, a.off.Add(lo), hi.Sub(lo), n.Sub(lo), at.Elem()}
	case OpaqueV: // string slicing
		return x.fresh(i.Type(), "str")
	}
	unsup("slice of %T", x.val(fr, i.X))
	return nil
}

func (x *Exec) unop(fr *frame, i *ssa.UnOp, st *State) {
	v := x.val(fr, i.X)
	switch i.Op {
	case token.MUL:
		p := v.(PtrV)
		x.nonNil(st, p.base, i.Pos())
		if st.dead {
			fr.regs[i] = x.fresh(i.Type(), "dead")
			return
		}
		fr.regs[i] = x.load(st, p, i.Type())
	case token.SUB:
		iv, ok := v.(IntV)
		if !ok {
			fr.regs[i] = x.fresh(i.Type(), "neg")
			return
		}
		fr.regs[i] = IntV{x.wrap(st, iv.p.Neg(), i.Type(), i.Pos())}
	case token.NOT:
		fr.regs[i] = BoolV{Not(v.(BoolV).b)}
	case token.XOR:
		lo, hi := intRange(i.Type())
		if lo.Sign() == 0 {
			fr.regs[i] = IntV{ConstB(hi).Sub(v.(IntV).p)}
		} else {
			fr.regs[i] = IntV{v.(IntV).p.Neg().AddC(-1)}
		}
	default:
		unsup("unary %s", i.Op)
	}
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t, rt types.Type, pos token.Pos) Val {
	switch av := a.(type) {
	case IntV:
		bp := b.(IntV).p
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return BoolV{x.cmp(op, av.p, bp)}
		}
		return IntV{x.intOp(st, op, av.p, bp, rt, pos)}
	case BoolV:
		bb := b.(BoolV).b
		switch op {
		case token.EQL:
			return BoolV{Iff(av.b, bb)}
		case token.NEQ:
			return BoolV{Not(Iff(av.b, bb))}
		}
	case PtrV:
		bv, ok := b.(PtrV)
		if ok && (op == token.EQL || op == token.NEQ) {
			e := And(Eq(av.base, bv.base), Eq(av.off, bv.off))
			if isZero(bv.base) || isZero(av.base) {
				e = Eq(av.base, bv.base)
			}
			if op == token.NEQ {
				e = Not(e)
			}
			return BoolV{e}
		}
	case SliceV:
		bv, ok := b.(SliceV)
		if ok && (op == token.EQL || op == token.NEQ) { // only against nil
			e := Eq(av.base, bv.base)
			if op == token.NEQ {
				e = Not(e)
			}
			return BoolV{e}
		}
	case IfaceV:
		if bv, ok := b.(IfaceV); ok && (op == token.EQL || op == token.NEQ) {
			var e *Bool
			if isZero(bv.t) || isZero(av.t) {
				e = Eq(av.t, bv.t)
			} else {
				e = And(Eq(av.t, bv.t), Eq(av.x, bv.x))
			}
			if op == token.NEQ {
				e = Not(e)
			}
			return BoolV{e}
		}
	case StructV:
		if bv, ok := b.(StructV); ok && (op == token.EQL || op == token.NEQ) {
			u := av.t.Underlying().(*types.Struct)
			var es []*Bool
			for k := range av.fs {
				es = append(es, x.binop(st, token.EQL, av.fs[k], bv.fs[k], u.Field(k).Type(), types.Typ[types.Bool], pos).(BoolV).b)
			}
			e := And(es...)
			if op == token.NEQ {
				e = Not(e)
			}
			return BoolV{e}
		}
	case OpaqueV:
		bo, ok := b.(OpaqueV)
		if ok {
			switch op {
			case token.EQL, token.NEQ:
				e := Eq(av.x, bo.x)
				if isFloat(t) {
					e = BoolApp("feq", av.x, bo.x)
				}
				if op == token.NEQ {
					e = Not(e)
				}
				return BoolV{e}
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if av.x == bo.x && (op == token.LSS || op == token.GTR) {
					return BoolV{False}
				}
				return BoolV{BoolApp("cmp"+op.String(), av.x, bo.x)}
			default:
				return OpaqueV{App("op"+op.String()+typeKey(t), nil, nil, av.x, bo.x), rt}
			}
		}
	}
	unsup("binop %s on %T,%T at %s", op, a, b, x.posStr(pos))
	return nil
}

func isFloat(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func (x *Exec) convert(fr *frame, i *ssa.Convert, st *State) Val {
	v := x.val(fr, i.X)
	from, to := i.X.Type(), i.Type()
	if isInt(from) && isInt(to) {
		p := v.(IntV).p
		lo, hi := intRange(to)
		if p.In(lo, hi) {
			return IntV{p}
		}
		w := new(big.Int).Add(new(big.Int).Sub(hi, lo), bi(1))
		if lo.Sign() == 0 {
			if x.dry == 0 && hasPhi(p) && x.quick(Imp(st.reach(), And(Ge0(p), Le(p, ConstB(hi))))) {
				return IntV{p}
			}
			return IntV{ModC(p, w)}
		}
		// to signed: r = ((p - lo) mod w) + lo
		if x.dry == 0 && x.quick(Imp(st.reach(), And(Ge(p, ConstB(lo)), Le(p, ConstB(hi))))) {
			x.addFact(st, And(Ge(p, ConstB(lo)), Le(p, ConstB(hi))))
			return IntV{p}
		}
		return IntV{ModC(p.Sub(ConstB(lo)), w).Add(ConstB(lo))}
	}
	if to == types.Typ[types.UnsafePointer] || isUnsafe(to) {
		p := v.(PtrV)
		p.uns = true
		return p
	}
	if isUnsafe(from) {
		p := v.(PtrV)
		pt := to.Underlying().(*types.Pointer).Elem()
		if a, ok := pt.Underlying().(*types.Array); ok && typeKey(a.Elem()) == p.comp && p.end != nil {
			x.oblige(st, "bounds", fmt.Sprintf("unsafe [%d] view stays inside the slice", a.Len()), i.Pos(), Le(p.off.AddC(a.Len()), p.end))
			x.addFact(st, Le(p.off.AddC(a.Len()), p.end))
			return PtrV{comp: p.comp, base: p.base, off: p.off, end: p.off.AddC(a.Len()), elem: pt, arr: true}
		}
		unsup("unsafe conversion to %s at %s", to, x.posStr(i.Pos()))
	}
	// floats, strings, ...: uninterpreted
	switch ov := v.(type) {
	case IntV:
		if isFloat(to) {
			return OpaqueV{App("tofloat:"+typeKey(to), nil, nil, ov.p), to}
		}
	case OpaqueV:
		if isInt(to) {
			lo, hi := intRange(to)
			r := App("toint:"+typeKey(from)+typeKey(to), lo, hi, ov.x)
			x.floatFacts(r, ov.x)
			return IntV{r}
		}
		if isFloat(to) {
			return OpaqueV{App("conv:"+typeKey(from)+typeKey(to), nil, nil, ov.x), to}
		}
	}
	return x.fresh(to, "conv")
}

// floatFacts: what IEEE double arithmetic guarantees of an integer obtained
// from a quotient. The quotient of two integers below 2^26 is either an exact
// integer or at least 2^-26 away from one, and rounding moves it by less than
// 2^-27, so truncation, Floor and Ceil give the exact value. 2^64/float64(m) is
// within a factor (1+2^-52)^2 of the exact quotient (three roundings to nearest
// at most), so r*m exceeds 2^64 by less than 2^13, and (r+1)*m falls short of it
// by less than 2^13.
func (x *Exec) floatFacts(r, f *Poly) {
	app := func(p *Poly, n string, k int) []*Poly {
		if a := p.AsAtom(); a != nil && a.kind == AApp && a.name == n && len(a.args) == k {
			return a.args
		}
		return nil
	}
	ceil := false
	if a := app(f, "math.Ceil", 1); a != nil {
		f, ceil = a[0], true
	} else if a := app(f, "math.Floor", 1); a != nil {
		f = a[0]
	}
	d := app(f, "op/float64", 2)
	if d == nil {
		return
	}
	num, den := app(d[0], "tofloat:float64", 1), app(d[1], "tofloat:float64", 1)
	if den == nil {
		return
	}
	q := den[0]
	if num != nil {
		p := num[0]
		lim := Const(1 << 26)
		n := p
		if ceil {
			n = p.Add(q).AddC(-1)
		}
		x.trusted["float64 quotients of integers below 2^26 truncate, floor and ceil exactly"] = true
		x.addFactAlways(Imp(And(Ge0(p), Lt(p, lim), Ge(q, Const(1)), Lt(q, lim)), Eq(r, DivV(n, q))))
		return
	}
	if e := app(d[0], "math.Exp2", 1); e != nil && !ceil {
		if a := e[0].AsAtom(); a != nil && a.kind == AApp && a.name == "const:float64:64" {
			x.trusted["float64 2^64/m is within 2^-51 of the exact quotient"] = true
			x.addFactAlways(Imp(And(Ge(q, Const(3)), Le(q, ConstB(bigRm1))), And(
				Le(r.Mul(q), ConstB(bigR).AddC(1<<13)), Ge(r.AddC(1).Mul(q), ConstB(bigR).AddC(-(1<<13))), Ge0(r))))
		}
	}
}

func isUnsafe(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Kind() == types.UnsafePointer
}
