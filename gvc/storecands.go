package main

// Candidate invariants from the stores of a loop body: "every cell written by an
// iteration already done holds the value that iteration stores, in terms of the memory
// at the start of the loop". Like all candidates they are assumed only once proved.

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type storeRec struct {
	comp           string
	lo, hi         *big.Int
	base, off, val *Poly
	cond           *Bool
	inner          []innerPhi
}

type innerPhi struct {
	b    *Atom
	init *Poly
	up   bool
}

type storeCand struct {
	key string
	f   func(st *State, cur *Poly) *Bool
	cur int // index of the loop variable
}

func boundPhi(key string, lo, hi *big.Int) *Atom {
	if bndKey[key] == nil {
		b := FreshBound(key)
		m := new(big.Int).Lsh(bi(1), 62)
		b.lo, b.hi = new(big.Int).Neg(m), m
		if lo != nil && lo.Cmp(b.lo) > 0 {
			b.lo = lo
		}
		if hi != nil && hi.Cmp(b.hi) < 0 {
			b.hi = hi
		}
		bndKey[key] = b
	}
	return bndKey[key]
}

func inRange(b *Atom) *Bool { return And(Ge(b.P(), ConstB(b.lo)), Le(b.P(), ConstB(b.hi))) }

const maxProbe = 40

// probeLoop executes one symbolic iteration of the body at the state st0, its loop
// variables being bound atoms, and records the stores.
func (x *Exec) probeLoop(fr *frame, lp *loop, phis []*ssa.Phi, infos []phiInfo, init map[*ssa.Phi]Val, backInv map[*ssa.Phi]bool, st0 *State, key string) (recs []storeRec, bnd map[*ssa.Phi]*Atom) {
	regs := fr.regs
	nf, nr := len(x.facts), len(fr.rets)
	ow, op := x.writes, x.probe
	var out []storeRec
	bnd = map[*ssa.Phi]*Atom{}
	fr.regs = map[ssa.Value]Val{}
	for k, v := range regs {
		fr.regs[k] = v
	}
	defer func() {
		x.silent--
		x.dry--
		x.writes, x.probe = ow, op
		fr.regs = regs
		x.facts = x.facts[:nf:nf]
		fr.rets = fr.rets[:nr]
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				recs = nil
				return
			}
			panic(r)
		}
	}()
	x.silent++
	x.dry++
	x.writes = nil
	x.probe = &out
	for _, p := range phis {
		if backInv[p] {
			fr.regs[p] = init[p]
			continue
		}
		if isInt(p.Type()) {
			lo, hi := intRange(p.Type())
			b := boundPhi(fmt.Sprintf("st:%s:%s", key, p.Name()), lo, hi)
			bnd[p] = b
			fr.regs[p] = IntV{b.P()}
			continue
		}
		fr.regs[p] = keepComp(x.fresh(p.Type(), "pr_"+p.Comment), init[p])
	}
	x.region(fr, lp, lp.header, []inEdge{{nil, st0.clone()}})
	return out, bnd
}

// storeCands builds the candidates of a loop.
func (x *Exec) storeCands(fr *frame, lp *loop, phis []*ssa.Phi, infos []phiInfo, idx map[*ssa.Phi]int, init map[*ssa.Phi]Val, backInv map[*ssa.Phi]bool, st0 *State, key string) []storeCand {
	if x.root == nil || !x.root.stores {
		return nil
	}
	// the driving variable
	var drv *phiInfo
	step := int64(0)
	for i := range infos {
		s := phiStep(infos[i].ph)
		if s == 0 {
			continue
		}
		if drv == nil || step < 0 && s > 0 {
			drv, step = &infos[i], s
		}
	}
	if drv == nil {
		return nil
	}
	recs, bnd := x.probeLoop(fr, lp, phis, infos, init, backInv, st0, key)
	if len(recs) == 0 || len(recs) > maxProbe {
		return nil
	}
	b := bnd[drv.ph]
	// the other variables in lock step with it
	sub := binding{}
	for _, pi := range infos {
		if pi.ph == drv.ph {
			continue
		}
		s := phiStep(pi.ph)
		if a := bnd[pi.ph]; a != nil {
			if s == step || s == -step && s != 0 {
				d := b.P().Sub(drv.init)
				if s == -step {
					d = d.Neg()
				}
				sub[a] = pi.init.Add(d)
			}
		}
	}
	sb := NewSubst(sub)
	x.nProbe++
	for i := range recs {
		r := &recs[i]
		if len(sub) > 0 {
			r.base, r.off, r.val, r.cond = sb.Poly(r.base), sb.Poly(r.off), sb.Poly(r.val), sb.Bool(r.cond)
			for j := range r.inner {
				r.inner[j].init = sb.Poly(r.inner[j].init)
			}
		}
	}
	var out []storeCand
	abs := step
	if abs < 0 {
		abs = -abs
	}
	used := make([]bool, len(recs))
	// innermost recorded loop variables that advance by more than one are left alone
	for i := range recs {
		if used[i] {
			continue
		}
		r := recs[i]
		ok := true
		free := map[*Atom]bool{b: true}
		for _, p := range r.inner {
			free[p.b] = true
		}
		for a := range patVars(r.base, r.off, r.val) {
			ok = ok && free[a]
		}
		if !ok {
			continue
		}
		contiguous := abs == 1
		if abs > 1 {
			n := int64(1)
			for l := int64(1); l < abs; l++ {
				sh := NewSubst(binding{b: b.P().AddC(l)})
				for j := range recs {
					q := recs[j]
					if !used[j] && j != i && q.comp == r.comp && q.base == r.base && q.off == sh.Poly(r.off) && q.val == sh.Poly(r.val) && len(q.inner) == len(r.inner) {
						used[j] = true
						n++
						break
					}
				}
			}
			contiguous = n == abs
		}
		if !contiguous {
			continue
		}
		used[i] = true
		vars := []*Atom{b}
		g := []*Bool{inRange(b)}
		if step > 0 {
			g = append(g, Ge(b.P(), drv.init))
		} else {
			g = append(g, Le(b.P(), drv.init))
		}
		for _, p := range r.inner {
			vars = append(vars, p.b)
			g = append(g, inRange(p.b))
			if p.up {
				g = append(g, Ge(p.b.P(), p.init))
			} else {
				g = append(g, Le(p.b.P(), p.init))
			}
		}
		if abs == 1 {
			g = append(g, r.cond)
		}
		mk := func(tag string, lim func(cur *Poly) *Bool) {
			out = append(out, storeCand{fmt.Sprintf("store%d%s %s", i, tag, r.comp), func(st *State, cur *Poly) *Bool {
				m := x.getMem(st, r.comp, r.lo, r.hi)
				return Forall(vars, Imp(And(append(append([]*Bool{}, g...), lim(cur))...), Eq(m.Read(r.base, r.off), r.val)))
			}, idx[drv.ph]})
		}
		if step > 0 {
			mk("", func(cur *Poly) *Bool { return Lt(b.P(), cur) })
		} else {
			mk("", func(cur *Poly) *Bool { return Lt(cur, b.P()) })
		}
		// the rest of a row
		if !r.base.hasBnd && len(r.inner) == 0 {
			alone := true
			for j := range recs {
				if recs[j].comp == r.comp && recs[j].base == r.base && !(used[j] && abs > 1) && j != i {
					alone = false
				}
			}
			d := r.off.Sub(b.P())
			if alone && !d.hasBnd {
				o := FreshBoundKey("storerest")
				out = append(out, storeCand{fmt.Sprintf("storerest%d %s", i, r.comp), func(st *State, cur *Poly) *Bool {
					m, m0 := x.getMem(st, r.comp, r.lo, r.hi), x.getMem(st0, r.comp, r.lo, r.hi)
					lo, hi := drv.init, cur
					if step < 0 {
						lo, hi = cur.AddC(1), drv.init.AddC(1)
					}
					return Forall([]*Atom{o}, Or(And(Ge(o.P(), lo.Add(d)), Lt(o.P(), hi.Add(d))), Eq(m.Read(r.base, o.P()), m0.Read(r.base, o.P()))))
				}, idx[drv.ph]})
			}
		}
	}
	return out
}

func isStoreCand(key string) bool { return strings.HasPrefix(key, "store") }

// probeInner is probeLoop for a loop nested in one that is being probed.
func (x *Exec) probeInner(fr *frame, lp *loop, phis []*ssa.Phi, init map[*ssa.Phi]Val, backInv map[*ssa.Phi]bool, st0 *State, key string) {
	if len(*x.probe) > maxProbe {
		return
	}
	regs := fr.regs
	nf, nr, np := len(x.facts), len(fr.rets), len(x.probeLoops)
	ow := x.writes
	defer func() {
		x.writes = ow
		fr.regs = regs
		x.facts = x.facts[:nf:nf]
		fr.rets = fr.rets[:nr]
		x.probeLoops = x.probeLoops[:np]
	}()
	fr.regs = map[ssa.Value]Val{}
	for k, v := range regs {
		fr.regs[k] = v
	}
	x.writes = nil
	for _, p := range phis {
		if backInv[p] {
			fr.regs[p] = init[p]
			continue
		}
		iv, ok := init[p].(IntV)
		s := phiStep(p)
		if ok && isInt(p.Type()) && (s == 1 || s == -1) {
			lo, hi := intRange(p.Type())
			b := boundPhi(fmt.Sprintf("st:%s:%s", key, p.Name()), lo, hi)
			fr.regs[p] = IntV{b.P()}
			x.probeLoops = append(x.probeLoops, innerPhi{b, iv.p, s > 0})
			continue
		}
		fr.regs[p] = keepComp(x.fresh(p.Type(), "pr_"+p.Comment), init[p])
	}
	x.region(fr, lp, lp.header, []inEdge{{nil, st0.clone()}})
}

// storesOf offers the store candidates of a loop that are still standing to the loops
// nested in it, at the current value of its variable.
func storesOf(key string, alive []*cand, hv map[string]Val) func(add func(string, func(st *State) *Bool)) {
	return func(add func(string, func(st *State) *Bool)) {
		for _, c := range alive {
			if isStoreCand(c.key) {
				c := c
				add("of "+key+": "+c.key, func(st *State) *Bool { return c.f(st, hv) })
			}
		}
	}
}
