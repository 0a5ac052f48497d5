package main

// Natural loops of a function and their treatment by inferred (Houdini)
// invariants.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	id     int
	depth  int
}

type loopInfo struct {
	rpo       []*ssa.BasicBlock
	headerOf  map[*ssa.BasicBlock]*loop
	innermost map[*ssa.BasicBlock]*loop
	loops     []*loop
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(f *ssa.Function) *loopInfo {
	if l, ok := loopCache[f]; ok {
		return l
	}
	li := &loopInfo{headerOf: map[*ssa.BasicBlock]*loop{}, innermost: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.headerOf[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.headerOf[s] = l
					li.loops = append(li.loops, l)
				}
				// natural loop body
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					y := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range y.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(li.loops, func(i, j int) bool { return len(li.loops[i].blocks) > len(li.loops[j].blocks) })
	for i, l := range li.loops {
		l.id = i
		for j := i - 1; j >= 0; j-- {
			if li.loops[j].blocks[l.header] {
				l.parent = li.loops[j]
				l.depth = li.loops[j].depth + 1
				break
			}
		}
		for b := range l.blocks {
			li.innermost[b] = l // later (smaller) loops overwrite
		}
	}
	// rpo must visit loop bodies contiguously w.r.t. exits: a standard RPO of a
	// reducible CFG is enough because exits are queued in pending.
	loopCache[f] = li
	return li
}

// hoist: order so that all blocks of a loop come before the blocks after it.
// (x.loop consumes the whole loop when its header is reached; exits always
// come later in RPO than the header.)

type phiInfo struct {
	ph   *ssa.Phi
	name string
	v    *Poly // value at the header
	init *Poly // value on entry
	step *big.Int
	t    types.Type
}

type loopMem struct {
	dead map[string]bool // falsified candidates
}

type cand struct {
	key  string
	f    func(st *State, phis map[string]Val) *Bool
	goal *Bool
}

var (
	quickTO   = 3 * time.Second
	houdiniTO = 4 * time.Second
)

func (x *Exec) loop(fr *frame, lp *loop, in []inEdge) []outEdge {
	// 1. entry
	var phis []*ssa.Phi
	for _, ins := range lp.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	st0, ok := x.enter(fr, lp.header, in)
	if !ok || st0.dead {
		return nil
	}
	initVals := map[*ssa.Phi]Val{}
	for _, p := range phis {
		initVals[p] = fr.regs[p]
	}
	x.nLoops++
	key := fmt.Sprintf("%s|%s#%d", fr.path, fnKey(fr.fn), lp.id)
	if x.loops[key] == nil {
		x.loops[key] = &loopMem{dead: map[string]bool{}}
	}
	lm := x.loops[key]

	saveRegs := func() map[ssa.Value]Val {
		m := make(map[ssa.Value]Val, len(fr.regs))
		for k, v := range fr.regs {
			m[k] = v
		}
		return m
	}
	regs0 := saveRegs()
	nf0 := len(x.facts)
	nr0 := len(fr.rets)
	no0, ni0 := len(x.obls), len(x.invObls)

	// small constant trip count: unroll completely
	if outs, ok := x.tryUnroll(fr, lp, phis, st0, initVals); ok {
		return outs
	}
	x.obls, x.invObls = x.obls[:no0], x.invObls[:ni0]
	fr.regs = regs0
	regs0 = saveRegs()
	x.facts = x.facts[:nf0:nf0]
	fr.rets = fr.rets[:nr0]

	// 2. dry run: what does the body write?
	mark := clock
	loopAlloc := FreshAlloc()
	var rec []writeRec
	backInv := map[*ssa.Phi]bool{} // phi unchanged by the body
	{
		old, oprobe := x.writes, x.probe
		x.writes, x.probe = &rec, nil
		x.silent++
		x.dry++
		st := st0.clone()
		dryPhi := map[*ssa.Phi]Val{}
		for _, p := range phis {
			v := x.fresh(p.Type(), "dry_"+p.Comment)
			v = keepComp(v, initVals[p])
			fr.regs[p] = v
			dryPhi[p] = v
		}
		outs := x.region(fr, lp, lp.header, []inEdge{{nil, st}})
		for _, p := range phis {
			inv := true
			for _, o := range outs {
				if o.to == lp.header {
					if valKey(x.phiEdge(fr, lp.header, p, o.from)) != valKey(dryPhi[p]) {
						inv = false
					}
				}
			}
			backInv[p] = inv
		}
		x.dry--
		x.silent--
		x.writes, x.probe = old, oprobe
		if x.writes != nil {
			*x.writes = append(*x.writes, rec...)
		}
		fr.regs = regs0
		regs0 = saveRegs()
		x.facts = x.facts[:nf0:nf0]
		fr.rets = fr.rets[:nr0]
		if x.dry > 0 {
			if x.probe != nil {
				x.probeInner(fr, lp, phis, initVals, backInv, st0, key)
				op := x.probe
				x.probe = nil
				defer func() { x.probe = op }()
			}
			// inside an outer dry run: a single pass with havocked phis is
			// enough to know the write set; continue with the exits.
			for _, p := range phis {
				fr.regs[p] = keepComp(x.fresh(p.Type(), "dry_"+p.Comment), initVals[p])
			}
			st := st0.clone()
			x.havocMem(st, rec, mark, loopAlloc)
			outs := x.region(fr, lp, lp.header, []inEdge{{nil, st}})
			var ex []outEdge
			for _, o := range outs {
				if o.to != lp.header {
					ex = append(ex, o)
				}
			}
			return ex
		}
	}

	// 3. havoc
	hst := st0.clone()
	x.havocMem(hst, rec, mark, loopAlloc)
	hv := map[*ssa.Phi]Val{}
	var infos []phiInfo
	for _, p := range phis {
		if backInv[p] {
			hv[p] = initVals[p]
			continue
		}
		v := x.fresh(p.Type(), "phi_"+p.Comment)
		v = keepComp(v, initVals[p])
		hv[p] = v
		if iv, ok := v.(IntV); ok {
			if a := iv.p.AsAtom(); a != nil {
				a.isPhi = true
			}
			pi := phiInfo{ph: p, name: p.Comment, v: iv.p, init: initVals[p].(IntV).p, t: p.Type()}
			infos = append(infos, pi)
		}
	}
	// 4. candidates (also adds instances of proved lemmas as facts)
	x.loopAlloc = loopAlloc
	cands := x.candidates(fr, lp, phis, hv, infos, st0, hst, rec, initVals, backInv, key)
	nf1 := len(x.facts)
	var alive []*cand
	for _, c := range cands {
		if !lm.dead[c.key] {
			alive = append(alive, c)
		}
	}
	x.nCands += len(cands)
	reach0 := st0.reach()
	initMap := map[string]Val{}
	hvMap := map[string]Val{}
	for i, p := range phis {
		initMap[phiKey(i)] = initVals[p]
		hvMap[phiKey(i)] = hv[p]
	}
	// initiation
	{
		var goals []*Bool
		for _, c := range alive {
			g := x.evalCand(c, st0, initMap)
			if g == nil {
				g = False
			}
			goals = append(goals, Imp(reach0, g))
		}
		rs := proveBatch(x.facts[:nf0], goals, x.houdini(), true)
		var nxt []*cand
		for i, c := range alive {
			if rs[i].ok {
				nxt = append(nxt, c)
				c.goal = goals[i]
			} else {
				lm.dead[c.key] = true
				if debugLoops {
					fmt.Printf("  [loop %s] init fails (%s): %s\n", key, rs[i].status, c.key)
				}
			}
		}
		alive = nxt
	}
	initGoals := map[string]*Bool{}
	for _, c := range alive {
		initGoals[c.key] = c.goal
	}
	// preservation
	var outs []outEdge
	for iter := 0; ; iter++ {
		fr.regs = map[ssa.Value]Val{}
		for k, v := range regs0 {
			fr.regs[k] = v
		}
		fr.rets = fr.rets[:nr0]
		x.facts = x.facts[:nf1:nf1]
		st := hst.clone()
		for _, p := range phis {
			fr.regs[p] = hv[p]
		}
		for _, c := range alive {
			b := x.assumeCand(c, hst, hvMap)
			if b != nil {
				x.addFact(st, b)
			}
		}
		x.silent++
		x.loopPhis = append(x.loopPhis, infos)
		x.outerStore = append(x.outerStore, storesOf(key, alive, hvMap))
		outs = x.region(fr, lp, lp.header, []inEdge{{nil, st}})
		x.silent--
		// check at back edges
		type chk struct {
			c *cand
			g *Bool
		}
		var goals []*Bool
		var owner []int
		for _, o := range outs {
			if o.to != lp.header || o.st.dead {
				continue
			}
			bm := map[string]Val{}
			for i, p := range phis {
				bm[phiKey(i)] = x.phiEdge(fr, lp.header, p, o.from)
			}
			for ci, c := range alive {
				g := x.evalCand(c, o.st, bm)
				if g == nil {
					g = False
				}
				goals = append(goals, Imp(o.st.reach(), g))
				owner = append(owner, ci)
			}
		}
		rs := proveBatch(x.facts, goals, x.houdini(), true)
		if debugLoops {
			for i, r := range rs {
				if r.dur > 2*time.Second {
					fmt.Printf("  [slow %.1fs %v %s] %s\n", r.dur.Seconds(), r.ok, r.backend, alive[owner[i]].key)
				}
			}
		}
		bad := map[int]bool{}
		definite := false
		for _, r := range rs {
			if !r.ok && r.status == "sat" {
				definite = true
			}
		}
		for i, r := range rs {
			if !r.ok {
				if definite && r.status != "sat" {
					continue // undecided: retried once the refuted ones are gone
				}
				bad[owner[i]] = true
				if debugLoops {
					fmt.Printf("  [loop %s] step fails (%s): %s\n", key, r.status, alive[owner[i]].key)
				}
			}
		}
		if len(bad) == 0 {
			if x.silent == 0 {
				for i, g := range goals {
					x.invObls = append(x.invObls, Obl{name: "invariant preserved: " + alive[owner[i]].key, fn: fnKey(x.rootFn), kind: "invariant", goal: g, res: rs[i]})
				}
				for _, c := range alive {
					x.invObls = append(x.invObls, Obl{name: "invariant established: " + c.key, fn: fnKey(x.rootFn), kind: "invariant", goal: initGoals[c.key], res: Result{ok: true, backend: "z3-5.3.2"}})
				}
			}
			x.loopPhis = x.loopPhis[:len(x.loopPhis)-1]
			x.outerStore = x.outerStore[:len(x.outerStore)-1]
			break
		}
		x.loopPhis = x.loopPhis[:len(x.loopPhis)-1]
		x.outerStore = x.outerStore[:len(x.outerStore)-1]
		var nxt []*cand
		for i, c := range alive {
			if bad[i] {
				lm.dead[c.key] = true
			} else {
				nxt = append(nxt, c)
			}
		}
		alive = nxt
		if iter > 60 {
			unsup("invariant inference does not converge")
		}
	}
	if debugLoops && x.silent == 0 {
		fmt.Printf("  [loop %s] invariants:\n", key)
		for _, c := range alive {
			fmt.Printf("     %s\n", c.key)
		}
	}
	// 5. final pass recording obligations (invariants now assumed)
	if x.silent == 0 {
		fr.regs = map[ssa.Value]Val{}
		for k, v := range regs0 {
			fr.regs[k] = v
		}
		fr.rets = fr.rets[:nr0]
		x.facts = x.facts[:nf1:nf1]
		st := hst.clone()
		for _, p := range phis {
			fr.regs[p] = hv[p]
		}
		for _, c := range alive {
			b := x.assumeCand(c, hst, hvMap)
			if b != nil {
				x.addFact(st, b)
			}
		}
		x.loopPhis = append(x.loopPhis, infos)
		x.outerStore = append(x.outerStore, storesOf(key, alive, hvMap))
		outs = x.region(fr, lp, lp.header, []inEdge{{nil, st}})
		x.loopPhis = x.loopPhis[:len(x.loopPhis)-1]
		x.outerStore = x.outerStore[:len(x.outerStore)-1]
	}
	var ex []outEdge
	for _, o := range outs {
		if o.to != lp.header {
			ex = append(ex, o)
		}
	}
	return ex
}

var debugLoops = false

func phiKey(i int) string { return fmt.Sprintf("#%d", i) }

// keepComp: a fresh pointer keeps the component of its initial value
func keepComp(v, init Val) Val {
	pv, ok := v.(PtrV)
	if !ok {
		return v
	}
	if iv, ok := init.(PtrV); ok {
		pv.comp, pv.arr = iv.comp, iv.arr
		if iv.end == nil {
			pv.end = nil
		}
	}
	return pv
}

// tryUnroll executes loops whose trip count is a small literal constant.
func (x *Exec) tryUnroll(fr *frame, lp *loop, phis []*ssa.Phi, st0 *State, init map[*ssa.Phi]Val) ([]outEdge, bool) {
	// the header must branch on a comparison between a phi and a constant
	ifi, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	limit := int64(-1)
	isIV := func(v ssa.Value) bool {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == lp.header {
			if iv, ok := init[p].(IntV); ok {
				_, c := iv.p.IsConst()
				return c
			}
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Block() == lp.header && b.Op == token.ADD {
			if p, ok := b.X.(*ssa.Phi); ok && p.Block() == lp.header {
				if iv, ok := init[p].(IntV); ok {
					_, c := iv.p.IsConst()
					return c
				}
			}
		}
		return false
	}
	constOf := func(v ssa.Value) (int64, bool) {
		r, ok := fr.regs[v]
		if !ok {
			c, ok2 := v.(*ssa.Const)
			if !ok2 || !isInt(c.Type()) {
				return 0, false
			}
			r = x.constVal(c)
		}
		iv, ok := r.(IntV)
		if !ok {
			return 0, false
		}
		k, ok := iv.p.IsConst()
		if !ok || !k.IsInt64() {
			return 0, false
		}
		return k.Int64(), true
	}
	if isIV(bo.X) {
		if k, ok := constOf(bo.Y); ok {
			limit = k
		}
	} else if isIV(bo.Y) {
		if k, ok := constOf(bo.X); ok {
			limit = k
		}
	}
	if limit < 0 && len(x.fixed) > 0 && isIV(bo.X) {
		// a length fixed by the contract is read again in each iteration
		if in, ok := bo.Y.(ssa.Instruction); ok && lp.blocks[in.Block()] {
			limit = 8
		}
	}
	if limit < 0 || limit > 70 {
		// descending loops: i >= 0 with a constant start
		if !(isIV(bo.X) && limit == 0) {
			return nil, false
		}
	}
	if x.root != nil && x.root.noUnroll {
		return nil, false
	}
	if limit > 16 && len(lp.blocks) > 6 {
		return nil, false
	}
	cur := st0
	var exits []outEdge
	for it := 0; it < 80; it++ {
		outs := x.region(fr, lp, lp.header, []inEdge{{nil, cur}})
		var back []inEdge
		for _, o := range outs {
			if o.st.dead {
				continue
			}
			if o.to == lp.header {
				back = append(back, inEdge{o.from, o.st})
			} else {
				exits = append(exits, o)
			}
		}
		if len(back) == 0 {
			if len(exits) != 1 {
				// values defined in different iterations would be mixed up
				return nil, false
			}
			return exits, true
		}
		if len(exits) > 0 {
			return nil, false
		}
		st, ok := x.enter(fr, lp.header, back)
		if !ok {
			return nil, false
		}
		cur = st
	}
	return nil, false
}

// ---- memory havoc ----

func volatile(p *Poly, mark int, comps map[string]bool, seen map[interface{}]bool) bool {
	if p == nil || seen[p] {
		return false
	}
	seen[p] = true
	for _, t := range p.ts {
		for _, a := range t.m.as {
			if volatileAtom(a, mark, comps, seen) {
				return true
			}
		}
	}
	return false
}

func volatileAtom(a *Atom, mark int, comps map[string]bool, seen map[interface{}]bool) bool {
	if seen[a] {
		return false
	}
	seen[a] = true
	switch a.kind {
	case AVar:
		return a.ts > mark
	case ASel:
		if comps[a.mem.comp] {
			return true
		}
		if a.row != nil && a.row.ts > mark {
			return true
		}
		return volatile(a.base, mark, comps, seen) || volatile(a.off, mark, comps, seen)
	case AInd:
		return volatileB(a.b, mark, comps, seen)
	case ADiv, ADivV:
		return volatile(a.p, mark, comps, seen) || volatile(a.q, mark, comps, seen)
	case AApp:
		for _, y := range a.args {
			if volatile(y, mark, comps, seen) {
				return true
			}
		}
	case AIte:
		return volatileB(a.b, mark, comps, seen) || volatile(a.p, mark, comps, seen) || volatile(a.q, mark, comps, seen)
	}
	return false
}

func volatileB(b *Bool, mark int, comps map[string]bool, seen map[interface{}]bool) bool {
	if b == nil || seen[b] {
		return false
	}
	seen[b] = true
	if b.kind == BVar {
		return true
	}
	if volatile(b.p, mark, comps, seen) || volatile(b.q, mark, comps, seen) {
		return true
	}
	for _, y := range b.args {
		if volatileB(y, mark, comps, seen) {
			return true
		}
	}
	for _, y := range b.pargs {
		if volatile(y, mark, comps, seen) {
			return true
		}
	}
	return false
}

func (x *Exec) havocMem(st *State, rec []writeRec, mark int, loopAlloc *Poly) {
	comps := map[string]bool{}
	for _, w := range rec {
		comps[w.comp] = true
	}
	names := make([]string, 0, len(comps))
	for c := range comps {
		names = append(names, c)
	}
	sort.Strings(names)
	for _, c := range names {
		var inv []*Poly
		seen := map[*Poly]bool{}
		variable, freshW := false, false
		for _, w := range rec {
			if w.comp != c {
				continue
			}
			if w.base == nil {
				variable = true
				continue
			}
			if a := w.base.AsAtom(); a != nil && a.alloc && a.ts > mark {
				freshW = true
				continue
			}
			if volatile(w.base, mark, comps, map[interface{}]bool{}) {
				variable = true
				continue
			}
			if !seen[w.base] {
				seen[w.base] = true
				inv = append(inv, w.base)
			}
		}
		iv := x.compIv[c]
		m := x.getMem(st, c, iv[0], iv[1])
		if variable || freshW {
			m2 := NewMemVar(c, freshName(c+"@"+x.cfg+"~h"), iv[0], iv[1])
			if !variable {
				// only freshly allocated rows and the listed ones change
				b, o := FreshBound("b"), FreshBound("o")
				var alt []*Bool
				alt = append(alt, Ge(b.P(), loopAlloc))
				for _, w := range inv {
					alt = append(alt, Eq(b.P(), w))
				}
				alt = append(alt, Eq(m2.Read(b.P(), o.P()), m.Read(b.P(), o.P())))
				x.facts = append(x.facts, Forall([]*Atom{b, o}, Or(alt...)))
			}
			st.mem[c] = m2
			continue
		}
		for _, b := range inv {
			m = m.SetRow(b, FreshRow("row_"+c))
		}
		st.mem[c] = m
	}
}

// assumeCand is evalCand where the candidate is a hypothesis: by(lemma, g) is g there.
func (x *Exec) assumeCand(c *cand, st *State, phis map[string]Val) *Bool {
	was := x.assuming
	x.assuming = true
	defer func() { x.assuming = was }()
	return x.evalCand(c, st, phis)
}

func (x *Exec) evalCand(c *cand, st *State, phis map[string]Val) (b *Bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				b = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(st, phis)
}

// ---- candidate invariants ----

func (x *Exec) candidates(fr *frame, lp *loop, phis []*ssa.Phi, hv map[*ssa.Phi]Val, infos []phiInfo, st0, hst *State, rec []writeRec, init map[*ssa.Phi]Val, backInv map[*ssa.Phi]bool, lkey string) []*cand {
	var out []*cand
	add := func(key string, f func(st *State, ph map[string]Val) *Bool) {
		out = append(out, &cand{key: key, f: f})
	}
	idx := map[*ssa.Phi]int{}
	for i, p := range phis {
		idx[p] = i
	}
	getI := func(ph map[string]Val, i int) *Poly { return ph[phiKey(i)].(IntV).p }

	// bounds: comparisons on a phi (or phi+1) that decide an exit of the loop
	type bound struct {
		phi int
		off int64 // compared value is phi+off
		op  token.Token
		lim ssa.Value
	}
	var bounds []bound
	norm := func(v ssa.Value) (*ssa.Phi, int64, bool) {
		if c, ok := v.(*ssa.Convert); ok {
			v = c.X
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == lp.header && isInt(p.Type()) {
			return p, 0, true
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if p, ok := b.X.(*ssa.Phi); ok && p.Block() == lp.header {
				if c, ok := b.Y.(*ssa.Const); ok && isInt(c.Type()) {
					k := c.Int64()
					if b.Op == token.SUB {
						k = -k
					}
					return p, k, true
				}
			}
		}
		return nil, 0, false
	}
	for b := range lp.blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if lp.blocks[b.Succs[0]] && lp.blocks[b.Succs[1]] {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if p, k, ok := norm(bo.X); ok && !backInv[p] {
			bounds = append(bounds, bound{idx[p], k, bo.Op, bo.Y})
		}
		if p, k, ok := norm(bo.Y); ok && !backInv[p] {
			flip := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
			bounds = append(bounds, bound{idx[p], k, flip[bo.Op], bo.X})
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].phi < bounds[j].phi })

	steps := map[int][]int64{}
	for _, p := range phis {
		for _, e := range p.Edges {
			if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == ssa.Value(p) {
				if c, ok := b.Y.(*ssa.Const); ok && isInt(c.Type()) {
					k := c.Int64()
					if b.Op == token.SUB {
						k = -k
					}
					steps[idx[p]] = append(steps[idx[p]], k)
				}
			}
		}
	}
	for _, in := range infos {
		i := idx[in.ph]
		in := in
		nm := fmt.Sprintf("phi%d(%s)", i, in.name)
		add(nm+" >= init", func(st *State, ph map[string]Val) *Bool { return Ge(getI(ph, i), in.init) })
		add(nm+" <= init", func(st *State, ph map[string]Val) *Bool { return Le(getI(ph, i), in.init) })
		add(nm+" >= 0", func(st *State, ph map[string]Val) *Bool { return Ge0(getI(ph, i)) })
		for _, s := range steps[i] {
			s := s
			if s < 0 {
				s = -s
			}
			if s > 1 {
				add(fmt.Sprintf("(%s - init) %% %d == 0", nm, s), func(st *State, ph map[string]Val) *Bool {
					d := getI(ph, i).Sub(in.init)
					return Eq0(ModC(d, bi(s)))
				})
			}
		}
	}
	// pairs of integer phis advancing in lock step
	for a := 0; a < len(infos); a++ {
		for b := a + 1; b < len(infos); b++ {
			ia, ib := infos[a], infos[b]
			i, j := idx[ia.ph], idx[ib.ph]
			for _, sg := range []int64{1, -1} {
				sg := sg
				add(fmt.Sprintf("phi%d-init %s phi%d-init in lock step", i, map[int64]string{1: "==", -1: "== -"}[sg], j), func(st *State, ph map[string]Val) *Bool {
					return Eq(getI(ph, i).Sub(ia.init), getI(ph, j).Sub(ib.init).Scale(bi(sg)))
				})
			}
			sa, sb := steps[i], steps[j]
			if len(sa) == 1 && len(sb) == 1 && sa[0] != sb[0] && sa[0] != -sb[0] {
				add(fmt.Sprintf("phi%d, phi%d proportional", i, j), func(st *State, ph map[string]Val) *Bool {
					return Eq(getI(ph, i).Sub(ia.init).Scale(bi(sb[0])), getI(ph, j).Sub(ib.init).Scale(bi(sa[0])))
				})
			}
		}
	}
	// a phi with a symbolic, loop-invariant step against one with a constant step
	for _, ia := range infos {
		ia := ia
		i := idx[ia.ph]
		var sym *Poly
		for _, e := range ia.ph.Edges {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				continue
			}
			y := b.Y
			if b.Y == ssa.Value(ia.ph) {
				y = b.X
			} else if b.X != ssa.Value(ia.ph) {
				continue
			}
			if _, isC := y.(*ssa.Const); isC {
				continue
			}
			if iv, ok := fr.regs[y].(IntV); ok {
				sym = iv.p
			} else if v := x.invariantExpr(fr, lp, y, hst, backInv); v != nil {
				sym = v
			}
		}
		if sym == nil {
			continue
		}
		for _, ib := range infos {
			ib := ib
			j := idx[ib.ph]
			if i == j || len(steps[j]) != 1 {
				continue
			}
			add(fmt.Sprintf("phi%d = init + step * (phi%d - init)", i, j), func(st *State, ph map[string]Val) *Bool {
				return Eq(getI(ph, i).Sub(ia.init).Scale(bi(steps[j][0])), getI(ph, j).Sub(ib.init).Mul(sym))
			})
		}
	}
	type limInfo struct {
		phi int
		off int64
		lim *Poly
	}
	for n, bd := range bounds {
		bd := bd
		var limP *Poly
		if v, ok := fr.regs[bd.lim]; ok {
			if iv, ok := v.(IntV); ok {
				limP = iv.p
			}
		} else if c, ok := bd.lim.(*ssa.Const); ok && isInt(c.Type()) {
			limP = x.constVal(c).(IntV).p
		} else if v := x.invariantExpr(fr, lp, bd.lim, hst, backInv); v != nil {
			limP = v
		}
		if limP == nil {
			continue
		}
		s := int64(1)
		if st := steps[bd.phi]; len(st) > 0 {
			s = st[0]
			if s < 0 {
				s = -s
			}
		}
		nm := fmt.Sprintf("phi%d(%s)", bd.phi, phis[bd.phi].Comment)
		for _, d := range dedup([]int64{0, s - 1, 1, s, -1, 1 - s}) {
			d := d
			switch bd.op {
			case token.LSS, token.LEQ, token.GEQ, token.GTR, token.NEQ:
				add(fmt.Sprintf("%s <= lim%d%+d", nm, n, d), func(st *State, ph map[string]Val) *Bool { return Le(getI(ph, bd.phi), limP.AddC(d)) })
				if bd.op != token.LSS && bd.op != token.LEQ {
					add(fmt.Sprintf("%s >= lim%d%+d", nm, n, d), func(st *State, ph map[string]Val) *Bool { return Ge(getI(ph, bd.phi), limP.AddC(d)) })
				}
			}
		}
		// guarded variant: if lim >= init then phi <= lim
		add(fmt.Sprintf("%s <= max(init, lim%d)", nm, n), func(st *State, ph map[string]Val) *Bool {
			v := getI(ph, bd.phi)
			return Or(Le(v, limP), Le(v, x.initOf(infos, phis[bd.phi])))
		})
	}
	// lanes from the root contract
	x.laneCands(fr, lp, phis, infos, idx, add, st0, hst, rec)
	x.userCands(fr, lp, phis, infos, idx, add, st0, hst)
	// what the stores of the body leave behind
	for _, c := range x.storeCands(fr, lp, phis, infos, idx, init, backInv, st0, lkey) {
		c := c
		add(c.key, func(st *State, ph map[string]Val) *Bool { return c.f(st, getI(ph, c.cur)) })
	}
	for _, oc := range x.outerStore {
		oc(func(key string, f func(st *State) *Bool) {
			add(key, func(st *State, ph map[string]Val) *Bool { return f(st) })
		})
	}
	return out
}

func (x *Exec) initOf(infos []phiInfo, p *ssa.Phi) *Poly {
	for _, i := range infos {
		if i.ph == p {
			return i.init
		}
	}
	return Const(0)
}

func dedup(xs []int64) []int64 {
	var out []int64
	seen := map[int64]bool{}
	for _, v := range xs {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

// invariantExpr evaluates a loop-invariant SSA expression computed inside the
// loop (e.g. len(p1) or r.N re-read in the header).
func (x *Exec) invariantExpr(fr *frame, lp *loop, v ssa.Value, st *State, backInv map[*ssa.Phi]bool) (res *Poly) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	tmp := map[ssa.Value]Val{}
	var ev func(v ssa.Value) Val
	ev = func(v ssa.Value) Val {
		if r, ok := fr.regs[v]; ok {
			if ph, isPhi := v.(*ssa.Phi); isPhi && ph.Block() == lp.header && !backInv[ph] {
				unsup("variant")
			}
			if ins, isI := v.(ssa.Instruction); isI && lp.blocks[ins.Block()] {
				if _, isPhi := v.(*ssa.Phi); !isPhi {
					goto compute
				}
			}
			return r
		}
	compute:
		if r, ok := tmp[v]; ok {
			return r
		}
		switch i := v.(type) {
		case *ssa.Const:
			return x.constVal(i)
		case *ssa.BinOp:
			r := x.binop(st, i.Op, ev(i.X), ev(i.Y), i.X.Type(), i.Type(), token.NoPos)
			tmp[v] = r
			return r
		case *ssa.UnOp:
			if i.Op == token.MUL {
				return x.load(st, ev(i.X).(PtrV), i.Type())
			}
		case *ssa.FieldAddr:
			p := ev(i.X).(PtrV)
			s := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			f := s.Field(i.Field)
			return PtrV{comp: p.comp + "/" + f.Name(), base: p.base, off: p.off, elem: f.Type()}
		case *ssa.Field:
			return ev(i.X).(StructV).fs[i.Field]
		case *ssa.IndexAddr:
			if s, ok := ev(i.X).(SliceV); ok {
				return PtrV{comp: typeKey(s.elem), base: s.base, off: s.off.Add(ev(i.Index).(IntV).p), elem: s.elem}
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if s, ok := ev(i.Call.Args[0]).(SliceV); ok {
					return IntV{s.len}
				}
			}
		case *ssa.Convert:
			if isInt(i.X.Type()) && isInt(i.Type()) {
				p := ev(i.X).(IntV).p
				lo, hi := intRange(i.Type())
				if p.In(lo, hi) {
					return IntV{p}
				}
				if lo.Sign() != 0 {
					return IntV{p}
				}
			}
		}
		unsup("not invariant")
		return nil
	}
	x.silent++
	defer func() { x.silent-- }()
	if iv, ok := ev(v).(IntV); ok {
		return iv.p
	}
	return nil
}

func keyJoin(s ...string) string { return strings.Join(s, " ") }

// houdini: time limit for one candidate, longer where the contract asks for it.
func (x *Exec) houdini() time.Duration {
	if x.root != nil && x.root.timeout > 20 {
		return houdiniTO * time.Duration(x.root.timeout) / 20
	}
	return houdiniTO
}
