package main

// Proof obligations -> quantifier-free SMT-LIB 2 -> z3 / cvc5.
//
// Everything done here is a weakening of the query (instantiating universally
// quantified hypotheses, adding valid arithmetic facts, replacing a negated
// congruence by the negation of one concrete witness), so "unsat" answers are
// proofs of the obligation.

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result struct {
	ok      bool
	backend string
	dur     time.Duration
	detail  string
	status  string // unsat, sat, unknown
	level   int
}

var (
	solverNanos int64
	solverCalls int64
	dumpDir     = os.Getenv("GVC_DUMP")
	debugWit    = os.Getenv("GVC_WIT") != ""
)

type query struct {
	deep    bool
	asserts []*Bool // ground NNF assertions
	foralls []*Bool // universally quantified hypotheses (kind BForall)
	done    map[*Bool]bool
	instSet map[string]bool
	neg     []*Bool // negated goal literals with congruences still in place
	nInst   int
}

// nnf pushes negations to literals. pos=false means negate.
// Foralls in positive position are kept; in negative position skolemised.
func nnf(b *Bool, pos bool, outer []*Atom, skolem func() []*Atom) *Bool {
	switch b.kind {
	case BTrue, BFalse, BGe0, BVar, BApp:
		if pos {
			return b
		}
		return Not(b)
	case BEq0:
		if pos {
			return b
		}
		return Not(b)
	case BCong:
		if pos {
			return b
		}
		return Not(b)
	case BNot:
		return nnf(b.args[0], !pos, outer, skolem)
	case BAnd, BOr:
		args := make([]*Bool, len(b.args))
		for i, x := range b.args {
			args[i] = nnf(x, pos, outer, skolem)
		}
		if (b.kind == BAnd) == pos {
			return And(args...)
		}
		return Or(args...)
	case BForall:
		if pos {
			return Forall(b.vars, nnf(b.args[0], true, append(append([]*Atom{}, outer...), b.vars...), skolem))
		}
		m := map[*Atom]*Poly{}
		for _, v := range b.vars {
			if len(outer) == 0 {
				m[v] = SkolemVar("sk!" + strconv.Itoa(b.id) + "!" + v.name)
			} else {
				var args []*Poly
				for _, o := range outer {
					args = append(args, o.P())
				}
				m[v] = App("skf!"+strconv.Itoa(b.id)+"!"+v.name, nil, nil, args...)
			}
		}
		return nnf(NewSubst(m).Bool(b.args[0]), false, outer, skolem)
	}
	panic("nnf")
}

var nnfCache = map[*Bool]*Bool{}

func nnfHyp(b *Bool) *Bool {
	if r, ok := nnfCache[b]; ok {
		return r
	}
	r := nnf(b, true, nil, nil)
	nnfCache[b] = r
	return r
}

// negGoal negates a goal. Quantifiers reached through disjunctions only are
// asserted conjunctively after negation, so their skolem constants satisfy the
// guards: reads at such constants are resolved with those bounds.
func negGoal(g *Bool) *Bool {
	switch g.kind {
	case BOr:
		var as []*Bool
		for _, x := range g.args {
			as = append(as, negGoal(x))
		}
		return And(as...)
	case BForall:
		m := map[*Atom]*Poly{}
		for _, v := range g.vars {
			p := SkolemVar("skb!" + strconv.Itoa(g.id) + "!" + v.name)
			a := p.AsAtom()
			if _, ok := skBounds[a]; !ok {
				var bd skBound
				if g.args[0].kind == BOr {
					for _, l := range g.args[0].args {
						if e := upperGuard(l, v); e != nil {
							bd.ub = append(bd.ub, e.AddC(-1))
						}
						if e := lowerGuard(l, v); e != nil {
							bd.lb = append(bd.lb, e)
						}
					}
				}
				skBounds[a] = bd
			}
			m[v] = p
		}
		return negGoal(NewSubst(m).Bool(g.args[0]))
	}
	return nnf(g, false, nil, nil)
}

// prenexHyp turns an NNF assertion into a list of ground formulas and foralls:
// And is split; Or(g, Forall) becomes Forall(Or(g, body)).
func (q *query) addHyp(b *Bool) {
	if q.done[b] {
		return
	}
	q.done[b] = true
	switch b.kind {
	case BTrue:
		return
	case BAnd:
		for _, x := range b.args {
			q.addHyp(x)
		}
		return
	case BForall:
		body := b.args[0]
		// flatten nested foralls
		if body.kind == BForall {
			q.addHyp(Forall(append(append([]*Atom{}, b.vars...), body.vars...), body.args[0]))
			return
		}
		if body.kind == BOr {
			for i, x := range body.args {
				if x.kind == BForall {
					rest := append(append([]*Bool{}, body.args[:i]...), body.args[i+1:]...)
					q.addHyp(Forall(append(append([]*Atom{}, b.vars...), x.vars...), Or(append(rest, x.args[0])...)))
					return
				}
				if x.kind == BAnd && containsForall(x) {
					rest := append(append([]*Bool{}, body.args[:i]...), body.args[i+1:]...)
					for _, y := range x.args {
						q.addHyp(Forall(b.vars, Or(append(append([]*Bool{}, rest...), y)...)))
					}
					return
				}
			}
		}
		q.foralls = append(q.foralls, b)
		return
	case BOr:
		for i, x := range b.args {
			if x.kind == BForall {
				rest := append(append([]*Bool{}, b.args[:i]...), b.args[i+1:]...)
				q.addHyp(Forall(x.vars, Or(append(rest, x.args[0])...)))
				return
			}
			if x.kind == BAnd && containsForall(x) {
				rest := append(append([]*Bool{}, b.args[:i]...), b.args[i+1:]...)
				for _, y := range x.args {
					q.addHyp(Or(append(append([]*Bool{}, rest...), y)...))
				}
				return
			}
			if x.kind == BAnd && containsCongPos(x) {
				// keep as is: congruences handled literal-wise
			}
		}
	}
	q.asserts = append(q.asserts, b)
}

func containsForall(b *Bool) bool {
	if b.kind == BForall {
		return true
	}
	for _, x := range b.args {
		if containsForall(x) {
			return true
		}
	}
	return false
}
func containsCongPos(b *Bool) bool {
	if b.kind == BCong {
		return true
	}
	for _, x := range b.args {
		if containsCongPos(x) {
			return true
		}
	}
	return false
}

// collector walks terms gathering atoms, monomials, memory nodes.
type collector struct {
	atoms   []*Atom
	seenA   map[*Atom]bool
	seenP   map[*Poly]bool
	seenB   map[*Bool]bool
	seenM   map[*Mem]bool
	monos   map[string]mono
	monoOrd []string
	mems    []*Mem
	rows    map[string]bool
	bases   map[*Poly]bool
	baseOrd []*Poly
	offs    map[string]map[*Poly]bool // comp -> offsets read
	bools   []*Bool
}

func newCollector() *collector {
	return &collector{seenA: map[*Atom]bool{}, seenP: map[*Poly]bool{}, seenB: map[*Bool]bool{}, seenM: map[*Mem]bool{},
		monos: map[string]mono{}, rows: map[string]bool{}, bases: map[*Poly]bool{}, offs: map[string]map[*Poly]bool{}}
}

func (c *collector) base(p *Poly) {
	c.poly(p)
	if !c.bases[p] {
		c.bases[p] = true
		c.baseOrd = append(c.baseOrd, p)
	}
}

func (c *collector) off(comp string, p *Poly) {
	c.poly(p)
	if c.offs[comp] == nil {
		c.offs[comp] = map[*Poly]bool{}
	}
	c.offs[comp][p] = true
}

func (c *collector) poly(p *Poly) {
	if p == nil || c.seenP[p] {
		return
	}
	c.seenP[p] = true
	for _, t := range p.ts {
		for _, a := range t.m.as {
			c.atom(a)
		}
		if len(t.m.as) > 1 {
			c.mono(t.m)
		}
	}
}

func (c *collector) mono(m mono) {
	if len(m.as) < 2 {
		return
	}
	if _, ok := c.monos[m.key]; !ok {
		c.monos[m.key] = m
		c.monoOrd = append(c.monoOrd, m.key)
	}
}

func (c *collector) atom(a *Atom) {
	if c.seenA[a] {
		return
	}
	c.seenA[a] = true
	switch a.kind {
	case ASel:
		if a.row != nil {
			c.rows[a.row.name] = true
			c.off(a.mem.comp, a.off)
			c.poly(a.base)
		} else {
			c.mem(a.mem)
			c.base(a.base)
			c.off(a.mem.comp, a.off)
		}
	case AInd:
		c.bool(a.b)
	case ADiv:
		c.poly(a.p)
	case ADivV:
		c.poly(a.p)
		c.poly(a.q)
		c.poly(a.P().Mul(a.q))
	case AApp:
		for _, x := range a.args {
			c.poly(x)
		}
	case AIte:
		c.bool(a.b)
		c.poly(a.p)
		c.poly(a.q)
	}
	c.atoms = append(c.atoms, a)
}

func (c *collector) mem(m *Mem) {
	if m == nil || c.seenM[m] {
		return
	}
	c.seenM[m] = true
	c.mem(m.m)
	c.mem(m.m2)
	if m.base != nil {
		c.base(m.base)
	}
	if m.off != nil {
		c.off(m.comp, m.off)
	}
	if m.val != nil {
		c.poly(m.val)
	}
	if m.row != nil && m.row.name != "" {
		c.rows[m.row.name] = true
	}
	if m.c != nil {
		c.bool(m.c)
	}
	c.mems = append(c.mems, m)
}

func (c *collector) bool(b *Bool) {
	if b == nil || c.seenB[b] {
		return
	}
	c.seenB[b] = true
	c.poly(b.p)
	c.poly(b.q)
	for _, x := range b.args {
		c.bool(x)
	}
	for _, x := range b.pargs {
		c.poly(x)
	}
	c.bools = append(c.bools, b)
}

// triggers of a quantified formula: for every bound var, the offsets (per
// memory component) and function arguments in which it occurs linearly.
type trig struct {
	v    *Atom
	comp string // memory comp or "F:name:argidx"
	rest *Poly  // index expression minus v
	base *Poly  // ASel: the base read (nil when not usable)
	mem  *Mem
}

var trigCache = map[*Bool][]trig{}

func triggers(f *Bool) []trig {
	if t, ok := trigCache[f]; ok {
		return t
	}
	var out []trig
	c := newCollector()
	c.bool(f.args[0])
	isV := map[*Atom]bool{}
	for _, v := range f.vars {
		isV[v] = true
	}
	add := func(comp string, p *Poly) {
		for _, t := range p.ts {
			if len(t.m.as) == 1 && isV[t.m.as[0]] && t.c.CmpAbs(bi(1)) == 0 {
				v := t.m.as[0]
				rest := p.Sub(v.P().Scale(t.c))
				set := map[*Atom]bool{}
				freeBndPoly(rest, set, map[interface{}]bool{})
				if set[v] {
					continue
				}
				if t.c.Sign() < 0 {
					continue
				}
				out = append(out, trig{v: v, comp: comp, rest: rest})
			}
		}
	}
	for _, a := range c.atoms {
		if !a.hasBnd {
			continue
		}
		switch a.kind {
		case ASel:
			add(a.mem.comp, a.off)
			if at := a.base.AsAtom(); at != nil && isV[at] {
				add("@base", a.base)
			}
		case AApp:
			for i, x := range a.args {
				add("F:"+a.name+":"+strconv.Itoa(i), x)
			}
		}
	}
	for _, b := range c.bools {
		if b.kind == BApp {
			for i, x := range b.pargs {
				add("P:"+b.name+":"+strconv.Itoa(i), x)
			}
		}
	}
	// memory updates below reads
	for _, m := range c.mems {
		if m.hasB && m.off != nil {
			add(m.comp, m.off)
		}
	}
	trigCache[f] = out
	return out
}

type pool map[string]map[*Poly]bool

func (p pool) add(k string, x *Poly) {
	if x.hasBnd {
		return
	}
	if p[k] == nil {
		p[k] = map[*Poly]bool{}
	}
	p[k][x] = true
}

func buildPool(c *collector) pool {
	p := pool{}
	for comp, offs := range c.offs {
		for o := range offs {
			p.add(comp, o)
		}
	}
	for _, b := range c.baseOrd {
		p.add("@base", b)
	}
	for _, a := range c.atoms {
		if a.kind == AApp {
			for i, x := range a.args {
				p.add("F:"+a.name+":"+strconv.Itoa(i), x)
			}
		}
	}
	for _, b := range c.bools {
		if b.kind == BApp {
			for i, x := range b.pargs {
				p.add("P:"+b.name+":"+strconv.Itoa(i), x)
			}
		}
	}
	return p
}

func sortedPolys(m map[*Poly]bool) []*Poly {
	out := make([]*Poly, 0, len(m))
	for p := range m {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

const maxInst = 6000

func (q *query) instantiate(rounds int, hints bool) {
	c := newCollector()
	nA := 0
	for r := 0; r < rounds; r++ {
		for ; nA < len(q.asserts); nA++ {
			c.bool(q.asserts[nA])
		}
		pl := buildPool(c)
		if hints {
			for comp, offs := range readOffs {
				for o := range offs {
					known := true
					for _, t := range o.ts {
						for _, a := range t.m.as {
							known = known && (c.seenA[a] || !a.isPhi)
						}
					}
					if known {
						pl.add(comp, o)
					}
				}
			}
		}
		before := len(q.asserts)
		fs := q.foralls
		for _, f := range fs {
			tr := triggers(f)
			cands := make([]map[*Poly]bool, len(f.vars))
			// one-variable-at-a-time: rest may contain other bound vars ->
			// only use triggers whose rest is ground; the others are matched
			// after substituting the already chosen variables.
			var rec func(i int, m map[*Atom]*Poly)
			order := orderVars(f, tr)
			rec = func(i int, m map[*Atom]*Poly) {
				if q.nInst > maxInst {
					return
				}
				if i == len(order) {
					q.inst(f, m)
					return
				}
				v := order[i]
				set := map[*Poly]bool{}
				sub := NewSubst(m)
				hasTrig := false
				for _, t := range tr {
					if t.v != v {
						continue
					}
					hasTrig = true
					rest := sub.Poly(t.rest)
					if rest.hasBnd {
						continue
					}
					for o := range pl[t.comp] {
						x := o.Sub(rest)
						if !x.hasBnd {
							set[x] = true
						}
					}
				}
				if !hasTrig && f.args[0].kind == BOr {
					// v occurs in its range only: instantiate at the ends
					for _, l := range f.args[0].args {
						if e := lowerGuard(l, v); e != nil {
							set[e] = true
						}
						if e := upperGuard(l, v); e != nil {
							set[e.AddC(-1)] = true
						}
					}
				}
				for _, x := range sortedPolys(set) {
					m2 := map[*Atom]*Poly{}
					for k, y := range m {
						m2[k] = y
					}
					m2[v] = x
					rec(i+1, m2)
				}
			}
			_ = cands
			rec(0, map[*Atom]*Poly{})
		}
		if len(q.asserts) == before && len(q.foralls) == len(fs) {
			break
		}
	}
}

// variables with ground triggers first
func orderVars(f *Bool, tr []trig) []*Atom {
	var a, b []*Atom
	for _, v := range f.vars {
		ground := false
		for _, t := range tr {
			if t.v == v && !t.rest.hasBnd {
				ground = true
			}
		}
		if ground {
			a = append(a, v)
		} else {
			b = append(b, v)
		}
	}
	return append(a, b...)
}

func (q *query) inst(f *Bool, m map[*Atom]*Poly) {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(f.id))
	for _, v := range f.vars {
		sb.WriteByte(';')
		sb.WriteString(strconv.Itoa(m[v].id))
	}
	k := sb.String()
	if q.instSet[k] {
		return
	}
	q.instSet[k] = true
	q.nInst++
	q.addHyp(NewSubst(m).Bool(f.args[0]))
}

// ---- congruences ----

// posCong replaces positive congruence literals by explicit quotients and
// drops (weakens) negative ones except those in keep.
func elimCong(b *Bool, negW func(c *Bool) *Bool) *Bool {
	switch b.kind {
	case BCong:
		return Eq0(b.p.Sub(b.q.Mul(congWit(b))))
	case BNot:
		if b.args[0].kind == BCong {
			return negW(b.args[0])
		}
		return b
	case BAnd, BOr:
		if !containsCongPos(b) {
			return b
		}
		args := make([]*Bool, len(b.args))
		for i, x := range b.args {
			args[i] = elimCong(x, negW)
		}
		if b.kind == BAnd {
			return And(args...)
		}
		return Or(args...)
	}
	return b
}

func congWit(b *Bool) *Poly {
	return NamedVar("cw!"+strconv.Itoa(b.id), nil, nil)
}

// equalities available for the witness search
func eqLits(bs []*Bool) []*Poly {
	var out []*Poly
	seen := map[*Poly]bool{}
	var rec func(b *Bool, d int)
	rec = func(b *Bool, d int) {
		switch b.kind {
		case BEq0:
			if !seen[b.p] {
				seen[b.p] = true
				out = append(out, b.p)
			}
		case BAnd:
			for _, x := range b.args {
				rec(x, d)
			}
		case BOr:
			if d < 2 {
				for _, x := range b.args {
					rec(x, d+1)
				}
			}
		}
	}
	for _, b := range bs {
		rec(b, 0)
	}
	return out
}

// witnessSets: the sets of equalities to search a witness with. An equality that
// holds only conditionally (a frame, say) may mislead the search, so it is
// repeated without those that directly connect two terms of the congruence and
// with the unconditional and quotient equations alone.
func witnessSets(c *Bool, E []*Poly, hyps []*Bool) [][]*Poly {
	uncond := map[*Poly]bool{}
	for _, h := range hyps {
		if h.kind == BEq0 {
			uncond[h.p] = true
		}
	}
	in := map[string]bool{}
	for _, t := range c.p.ts {
		in[t.m.key] = true
	}
	var e1, e2 []*Poly
	for _, e := range E {
		if uncond[e] {
			e1, e2 = append(e1, e), append(e2, e)
			continue
		}
		n, quot := 0, false
		for _, t := range e.ts {
			if in[t.m.key] {
				n++
			}
			for _, a := range t.m.as {
				if a.kind == AVar && strings.HasPrefix(a.name, "cw!") {
					quot = true
				}
			}
		}
		if quot {
			e1, e2 = append(e1, e), append(e2, e)
		} else if !(len(e.ts) == 2 && n == 2) {
			e1 = append(e1, e)
		}
	}
	out := [][]*Poly{E}
	if len(e1) != len(E) {
		out = append(out, e1)
	}
	if len(e2) != len(e1) {
		out = append(out, e2)
	}
	return out
}

// findWitness searches W with G = q*W + sum lambda_j E_j (over the rationals,
// untrusted: the solver re-checks the instance).
func findWitness(G, q *Poly, E []*Poly) *Poly {
	if k, ok := q.IsConst(); ok {
		return witnessConst(G, k, E)
	}
	qa := q.AsAtom()
	if qa == nil {
		return nil
	}
	divisible := func(m mono) bool {
		for _, a := range m.as {
			if a == qa {
				return true
			}
		}
		return false
	}
	cur := elimWith(G, E, func(t term) bool { return !divisible(t.m) })
	if cur == nil {
		return nil
	}
	var ts []term
	for _, t := range cur.ts {
		if !divisible(t.m) {
			continue // left for the solver to show zero
		}
		var as []*Atom
		rm := false
		for _, a := range t.m.as {
			if a == qa && !rm {
				rm = true
				continue
			}
			as = append(as, a)
		}
		ts = append(ts, term{mkMono(as), t.c})
	}
	return mkPoly(ts)
}

func witnessConst(G *Poly, k *big.Int, E []*Poly) *Poly {
	bad := func(t term) bool { return new(big.Int).Mod(t.c, k).Sign() != 0 }
	cur := elimWith(G, E, bad)
	if cur == nil {
		return nil
	}
	var ts []term
	for _, t := range cur.ts {
		if bad(t) {
			continue
		}
		ts = append(ts, term{t.m, new(big.Int).Div(t.c, k)})
	}
	return mkPoly(ts)
}

type ratRow map[string]*big.Rat

// elimWith: Gaussian elimination of the "bad" monomials of G using E.
func elimWith(G *Poly, E []*Poly, bad func(t term) bool) *Poly {
	names := map[string]mono{}
	toRow := func(p *Poly) ratRow {
		r := ratRow{}
		for _, t := range p.ts {
			r[t.m.key] = new(big.Rat).SetInt(t.c)
			names[t.m.key] = t.m
		}
		return r
	}
	g := toRow(G)
	// only equalities transitively connected through bad monomials
	isBad := func(k string, c *big.Rat) bool {
		if !c.IsInt() {
			return true
		}
		return bad(term{names[k], c.Num()})
	}
	rows := make([]ratRow, 0, len(E))
	idx := map[string][]int{}
	for _, e := range E {
		r := toRow(e)
		for k, c := range r {
			if isBad(k, c) {
				idx[k] = append(idx[k], len(rows))
			}
		}
		rows = append(rows, r)
	}
	// connected component
	use := map[int]bool{}
	var queue []string
	seenK := map[string]bool{}
	push := func(r ratRow) {
		for k, c := range r {
			if isBad(k, c) && !seenK[k] {
				seenK[k] = true
				queue = append(queue, k)
			}
		}
	}
	push(g)
	for len(queue) > 0 && len(use) < 400 {
		k := queue[0]
		queue = queue[1:]
		for _, i := range idx[k] {
			if !use[i] {
				use[i] = true
				push(rows[i])
			}
		}
	}
	var sel []ratRow
	var ids []int
	for i := range use {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for _, i := range ids {
		sel = append(sel, rows[i])
	}
	// goal-directed elimination of the bad monomials of g
	used := make([]bool, len(sel))
	owned := make([]bool, len(sel))
	axpy := func(r ratRow, f *big.Rat, p ratRow) { // r -= f*p
		for kk, cc := range p {
			x, ok := r[kk]
			if !ok {
				x = new(big.Rat)
			}
			x = new(big.Rat).Sub(x, new(big.Rat).Mul(f, cc))
			if x.Sign() == 0 {
				delete(r, kk)
			} else {
				r[kk] = x
			}
		}
	}
	stuck := map[string]bool{}
	for step := 0; step < 300; step++ {
		best := ""
		for k, c := range g {
			if stuck[k] || !isBad(k, c) {
				continue
			}
			db, dk := 0, len(names[k].as)
			if best != "" {
				db = len(names[best].as)
			}
			if best == "" || dk > db || dk == db && k < best {
				best = k
			}
		}
		if best == "" {
			break
		}
		row, cost := -1, 0
		for i, r := range sel {
			c, ok := r[best]
			if used[i] || !ok {
				continue
			}
			n := 0
			for kk, cc := range r {
				if isBad(kk, cc) {
					if _, in := g[kk]; !in {
						n += 4
					}
				}
			}
			if !(c.IsInt() && c.Num().CmpAbs(bi(1)) == 0) {
				n++
			}
			if row < 0 || n < cost {
				row, cost = i, n
			}
		}
		if row < 0 {
			stuck[best] = true
			continue
		}
		used[row] = true
		p := sel[row]
		pc := p[best]
		axpy(g, new(big.Rat).Quo(g[best], pc), p)
		for i, r := range sel {
			if used[i] {
				continue
			}
			if c, ok := r[best]; ok {
				if !owned[i] {
					cp := ratRow{}
					for k, v := range r {
						cp[k] = v
					}
					sel[i], owned[i] = cp, true
					r = cp
				}
				axpy(r, new(big.Rat).Quo(c, pc), p)
			}
		}
	}
	var ts []term
	for k, c := range g {
		if !c.IsInt() {
			return nil
		}
		ts = append(ts, term{names[k], new(big.Int).Set(c.Num())})
	}
	return mkPoly(ts)
}

// ---- building ----

func divMono(m, l mono) (mono, bool) {
	// m / l as multisets
	i := 0
	var rest []*Atom
	for _, a := range m.as {
		if i < len(l.as) && a == l.as[i] {
			i++
			continue
		}
		rest = append(rest, a)
	}
	if i != len(l.as) {
		return mono{}, false
	}
	return mkMono(rest), true
}

func monoPoly(m mono) *Poly { return mkPoly([]term{{m, bi(1)}}) }

// leading monomial for the cofactor rule
func leading(p *Poly) (term, bool) {
	var best *term
	bestGhost := false
	for i := range p.ts {
		t := &p.ts[i]
		if len(t.m.as) == 0 {
			continue
		}
		ghost := false
		for _, a := range t.m.as {
			if ghostAtom[a] {
				ghost = true
			}
		}
		if len(t.m.as) < 2 && !ghost {
			continue
		}
		if best == nil || ghost && !bestGhost || ghost == bestGhost && len(t.m.as) > len(best.m.as) {
			best = t
			bestGhost = ghost
		}
	}
	if best == nil {
		return term{}, false
	}
	return *best, true
}

var ghostAtom = map[*Atom]bool{}

// cofactor: multiply equalities by the cofactors that occur in the query.
func (q *query) cofactors(extra []*Bool) {
	rounds, maxDeg := 2, 0
	if len(extra) > 0 && q.deep {
		rounds = 3
	}
	for round := 0; round < rounds; round++ {
		c := newCollector()
		for _, b := range q.asserts {
			c.bool(b)
		}
		for _, b := range extra {
			c.bool(b)
		}
		if round == 0 {
			for _, m := range c.monos {
				if len(m.as) > maxDeg {
					maxDeg = len(m.as)
				}
			}
		}
		// products by the atoms that occur in them
		byAtom := map[*Atom][]mono{}
		for _, k := range c.monoOrd {
			m := c.monos[k]
			if len(m.as) < 2 || len(m.as) > 6 || round == 2 && len(m.as) > maxDeg {
				continue
			}
			for i, a := range m.as {
				if i == 0 || m.as[i-1] != a {
					byAtom[a] = append(byAtom[a], m)
				}
			}
		}
		if len(byAtom) == 0 {
			return
		}
		var add []*Bool
		n := 0
		for _, b := range q.asserts {
			lits := []*Bool{b}
			if b.kind == BOr {
				lits = b.args
			}
			for _, l := range lits {
				if l.kind != BEq0 {
					continue
				}
				var lts []term
				if lt, ok := leading(l.p); ok {
					lts = append(lts, lt)
					if quotEq(l.p) {
						// x = y + q*w: rewrites x inside products
						for _, t := range l.p.ts {
							if len(t.m.as) == 1 && t.c.CmpAbs(bi(1)) == 0 && t.m.key != lt.m.key && occurs(l.p, t.m.as[0]) == 1 {
								lts = append(lts, t)
							}
						}
					}
				} else if len(l.p.ts) == 2 {
					// x = y: rewrites inside products
					for _, t := range l.p.ts {
						if len(t.m.as) == 1 && t.c.CmpAbs(bi(1)) == 0 {
							lts = append(lts, t)
						}
					}
				}
				for _, lt := range lts {
					cof := map[string]mono{}
					if len(lt.m.as) == 0 {
						continue
					}
					for _, m := range byAtom[lt.m.as[0]] {
						if len(m.as) <= len(lt.m.as) {
							continue
						}
						if r, ok := divMono(m, lt.m); ok {
							cof[r.key] = r
						}
					}
					keys := make([]string, 0, len(cof))
					for k := range cof {
						keys = append(keys, k)
					}
					sort.Strings(keys)
					for _, k := range keys {
						e := Eq0(l.p.Mul(monoPoly(cof[k])))
						var nb *Bool
						if b.kind == BOr {
							var as []*Bool
							for _, x := range b.args {
								if x != l {
									as = append(as, x)
								}
							}
							nb = Or(append(as, e)...)
						} else {
							nb = e
						}
						add = append(add, nb)
						n++
						if n > 400 {
							break
						}
					}
				}
			}
		}
		before := len(q.asserts)
		for _, b := range add {
			q.addHyp(b)
		}
		if len(q.asserts) == before {
			break
		}
	}
}

// impliedUnits: inequalities left of a disjunction whose other members are refuted
func (q *query) impliedUnits() []*Bool {
	is := map[*Bool]bool{}
	var out []*Bool
	for _, b := range q.asserts {
		is[b] = true
	}
	for round := 0; round < 2; round++ {
		for _, b := range q.asserts {
			if b.kind != BOr {
				continue
			}
			var last *Bool
			n := 0
			for _, l := range b.args {
				if !is[Not(l)] {
					last = l
					n++
				}
			}
			if n != 1 || is[last] {
				continue
			}
			ls := []*Bool{last}
			if last.kind == BAnd {
				ls = last.args
			}
			for _, l := range ls {
				if !is[l] && l.kind == BGe0 {
					is[l] = true
					out = append(out, l)
				}
			}
			is[last] = true
		}
	}
	return out
}

// inequality products: A>=0, y>=0 with all nonlinear monomials of A*y present
func (q *query) products(extra []*Bool) {
	c := newCollector()
	for _, b := range q.asserts {
		c.bool(b)
	}
	for _, b := range extra {
		c.bool(b)
	}
	have := func(p *Poly) bool {
		any := false
		for _, t := range p.ts {
			if len(t.m.as) >= 2 {
				if _, ok := c.monos[t.m.key]; !ok {
					return false
				}
				any = true
			}
		}
		return any
	}
	q.pow2Bounds(c)
	q.powProducts(c)
	var units []*Poly
	seen := map[*Poly]bool{}
	for _, b := range append(append([]*Bool{}, q.asserts...), q.impliedUnits()...) {
		if b.kind == BGe0 && len(b.p.ts) <= 4 && !seen[b.p] {
			seen[b.p] = true
			units = append(units, b.p)
		}
	}
	for _, a := range c.atoms {
		if a.kind == ADiv && len(a.p.ts) <= 4 {
			lo := a.p.Sub(a.P().Scale(a.c))
			for _, u := range []*Poly{lo, ConstB(new(big.Int).Sub(a.c, bi(1))).Sub(lo)} {
				if !seen[u] {
					seen[u] = true
					units = append(units, u)
				}
			}
		}
	}
	factors := map[*Atom]bool{}
	for _, k := range c.monoOrd {
		if len(c.monos[k].as) < 2 {
			continue
		}
		for _, a := range c.monos[k].as {
			factors[a] = true
		}
	}
	// multiples of a power of two may be compared through q*2^n
	for _, k := range append([]string{}, c.monoOrd...) {
		as := c.monos[k].as
		if len(as) != 2 {
			continue
		}
		for i, P := range as {
			if !(P.kind == AApp && P.name == "pow2") {
				continue
			}
			for _, u := range units {
				if len(u.ts) > 3 {
					continue
				}
				for _, t := range u.ts {
					if len(t.m.as) == 1 && t.m.as[0] == as[1-i] {
						for _, w := range u.Mul(P.P()).ts {
							c.mono(w.m)
							for _, a := range w.m.as {
								factors[a] = true
							}
						}
					}
				}
			}
		}
	}
	n := 0
	var add []*Bool
	try := func(p *Poly) {
		if n < 300 && have(p) {
			b := Ge0(p)
			if b != True && !q.done[b] {
				add = append(add, b)
				n++
			}
		}
	}
	var fs []*Atom
	for a := range factors {
		if a.lo != nil && a.lo.Sign() >= 0 {
			fs = append(fs, a)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	// every product with such a term contains all its atoms
	all := units
	units = nil
	for _, u := range all {
		ok := true
		for _, t := range u.ts {
			for _, a := range t.m.as {
				ok = ok && factors[a]
			}
		}
		if ok {
			units = append(units, u)
		}
	}
	for _, u := range units {
		for _, a := range fs {
			try(u.Mul(a.P()))
		}
	}
	for i, u := range units {
		for _, w := range units[i:] {
			if len(u.ts) <= 3 && len(w.ts) <= 3 {
				try(u.Mul(w))
			}
		}
	}
	for _, b := range add {
		q.addHyp(b)
	}
}

type smtText struct {
	text string
}

// deepFrames: the function under verification asks for frames between many memory
// versions to be resolved before solving (one function at a time per process)
var deepFrames bool

func buildQuery(hyps []*Bool, goal *Bool, level int) string {
	q := &query{done: map[*Bool]bool{}, instSet: map[string]bool{}}
	ng := negGoal(goal)
	if ng == False {
		return ""
	}
	hs := []*Bool{ng}
	for _, h := range hyps {
		hs = append(hs, nnfHyp(h))
	}
	for _, h := range unitPropagate(hs) {
		q.addHyp(h)
	}
	switch level {
	case 0, 1: // matching
		n := 4
		if deepFrames {
			n += 2 * level
		}
		q.ematch(n, level == 1)
	default:
		q.instantiate(3, level >= 3)
	}
	if deepFrames {
		q.frameUnits()
	}
	// congruences
	q.reducedEq()
	q.unifyModuli()
	q.cancelR()
	var negs []*Bool
	hasNeg := false
	for _, b := range q.asserts {
		if containsCongPos(b) {
			hasNeg = true
		}
	}
	if hasNeg {
		old := q.asserts
		q.asserts = nil
		q.done = map[*Bool]bool{}
		var pend []*Bool
		for _, b := range old {
			if !containsCongPos(b) {
				q.addHyp(b)
				continue
			}
			hasN := false
			nb := elimCong(b, func(c *Bool) *Bool { hasN = true; return True })
			if hasN {
				pend = append(pend, b)
			} else {
				q.addHyp(nb)
			}
		}
		if len(pend) > 0 {
			negs = pend
			var ex []*Bool
			for _, b := range pend {
				ex = append(ex, congShadow(b))
			}
			resolved := level >= 1
			var E []*Poly
			direct := map[*Bool]*Bool{}
			if resolved {
				E = q.resolveReads(eqLits(q.asserts), pend)
				for _, b := range pend {
					elimCong(b, func(c *Bool) *Bool {
						if nb, used := reduceCong(c, E); nb != nil {
							direct[c] = nb
							for _, u := range used {
								q.addHyp(Eq0(u))
							}
						}
						return True
					})
				}
			}
			all := resolved
			for _, b := range pend {
				elimCong(b, func(c *Bool) *Bool { all = all && direct[c] != nil; return True })
			}
			if !all {
				q.deep = resolved
				q.cofactors(ex)
				q.deep = false
				E = eqLits(q.asserts)
				if resolved {
					E = q.resolveReads(E, pend)
				}
			}
			for _, b := range pend {
				q.addHyp(elimCong(b, func(c *Bool) *Bool {
					if nb := direct[c]; nb != nil {
						return nb
					}
					var out []*Bool
					for _, es := range witnessSets(c, E, q.asserts) {
						w := findWitness(c.p, c.q, es)
						if resolved {
							// all the equalities hold: equal atoms are identified first
							gp, ge := canonAtoms(c.p, c.q, es)
							w2 := findWitness(gp, c.q, ge)
							if debugWit {
								fmt.Printf("  w2 => %s   of %s\n", w2, gp)
							}
							if w2 != nil && w2 != w {
								out = append(out, Not(Eq0(c.p.Sub(c.q.Mul(w2)))))
							}
						}
						if debugWit {
							fmt.Printf("WIT goal %s mod %s\n", c.p, c.q)
							for _, e := range es {
								fmt.Printf("   E %s\n", e)
							}
							if w != nil {
								fmt.Printf("  => %s\n", w)
							}
						}
						if w != nil {
							out = append(out, Not(Eq0(c.p.Sub(c.q.Mul(w)))))
						}
					}
					return And(out...)
				}))
			}
		}
	}
	_ = negs
	if goalContradicts(q) {
		return ""
	}
	q.cofactors(nil)
	if level >= 0 {
		q.products(nil)
	}
	if os.Getenv("GVC_WIT") == "2" {
		fmt.Printf("QUERY level %d goal %s\n", level, goal)
		for _, b := range q.asserts {
			fmt.Printf("  A %s\n", b)
		}
	}
	return q.emit()
}

// reducedEq: two different values in [0, q) are not congruent modulo q. Added for the
// disequalities of values that occur in congruences with a common modulus.
func (q *query) reducedEq() {
	type cell struct {
		a *Atom
		c string
		b *Poly
		o *Poly
	}
	key := func(a *Atom) cell { // the same cell in another memory version is the same
		if a.kind == ASel {
			return cell{nil, a.mem.comp, a.base, a.off}
		}
		return cell{a, "", nil, nil}
	}
	mods := map[cell][]*Poly{}
	var cong func(b *Bool)
	cong = func(b *Bool) {
		switch b.kind {
		case BCong:
			for _, t := range b.p.ts {
				if len(t.m.as) != 1 {
					continue
				}
				a := key(t.m.as[0])
				dup := false
				for _, m := range mods[a] {
					dup = dup || m == b.q
				}
				if !dup && len(mods[a]) < 3 {
					mods[a] = append(mods[a], b.q)
				}
			}
		case BAnd, BOr:
			for _, x := range b.args {
				cong(x)
			}
		}
	}
	var dis []*Poly
	seen := map[*Poly]bool{}
	var rec func(b *Bool, depth int)
	rec = func(b *Bool, depth int) {
		switch b.kind {
		case BNot:
			if c := b.args[0]; c.kind == BEq0 && !seen[c.p] {
				seen[c.p] = true
				dis = append(dis, c.p)
			}
		case BAnd, BOr:
			if depth < 2 {
				for _, x := range b.args {
					rec(x, depth+1)
				}
			}
		}
	}
	for _, b := range q.asserts {
		cong(b)
	}
	if len(mods) == 0 {
		return
	}
	for _, b := range q.asserts {
		rec(b, 0)
	}
	n := 0
	for _, p := range dis {
		if len(p.ts) != 2 || len(p.ts[0].m.as) != 1 || len(p.ts[1].m.as) != 1 || new(big.Int).Add(p.ts[0].c, p.ts[1].c).Sign() != 0 || new(big.Int).Abs(p.ts[0].c).Cmp(big.NewInt(1)) != 0 {
			continue
		}
		x, y := p.ts[0].m.as[0], p.ts[1].m.as[0]
		for _, m := range mods[key(x)] {
			for _, k := range mods[key(y)] {
				if m != k && !sameMod(m, k) {
					continue
				}
				if n++; n > 8 {
					return
				}
				q.addHyp(Or(Eq0(p), Lt(x.P(), Const(0)), Lt(y.P(), Const(0)), Ge(x.P(), m), Ge(y.P(), m), Not(Cong(p, m))))
			}
		}
	}
}

// unifyModuli: moduli that are reads of the same cell in different memory
// versions are replaced by one of them, under the condition that they are equal
// (a weakening of each assertion).
func (q *query) unifyModuli() {
	var mods []*Poly
	seen := map[*Poly]bool{}
	var rec func(b *Bool)
	rec = func(b *Bool) {
		if b.kind == BForall {
			return
		}
		if b.kind == BCong {
			if a := b.q.AsAtom(); a != nil && a.kind == ASel && !seen[b.q] {
				seen[b.q] = true
				mods = append(mods, b.q)
			}
		}
		for _, x := range b.args {
			rec(x)
		}
	}
	for _, b := range q.asserts {
		rec(b)
	}
	rep := map[*Poly]*Poly{}
	for i, m := range mods {
		for _, n := range mods[:i] {
			if sameMod(m, n) {
				if r := rep[n]; r != nil {
					n = r
				}
				rep[m] = n
				break
			}
		}
	}
	if len(rep) == 0 {
		return
	}
	var rw func(b *Bool) *Bool
	rw = func(b *Bool) *Bool {
		if !containsCongPos(b) {
			return b
		}
		switch b.kind {
		case BCong:
			if r := rep[b.q]; r != nil {
				return Or(Not(Eq(b.q, r)), Cong(b.p, r))
			}
		case BNot:
			if c := b.args[0]; c.kind == BCong {
				if r := rep[c.q]; r != nil {
					return Or(Not(Eq(c.q, r)), Not(Cong(c.p, r)))
				}
			}
		case BAnd, BOr:
			args := make([]*Bool, len(b.args))
			for i, x := range b.args {
				args[i] = rw(x)
			}
			if b.kind == BAnd {
				return And(args...)
			}
			return Or(args...)
		}
		return b
	}
	old := q.asserts
	q.asserts = nil
	q.done = map[*Bool]bool{}
	for _, b := range old {
		q.addHyp(rw(b))
	}
}

// cancelR: when the hypotheses say m*x = 1 mod 2^64 for the modulus m of a
// congruence to be shown, the congruence may be shown multiplied by 2^64
// (lemma cancelR in /verif/lean: q*x = 1 mod R and q | P*R give q | P).
func (q *query) cancelR() {
	R := pow2big(64)
	inv := map[*Poly]*Bool{}
	var rec func(b *Bool, f func(c *Bool, neg bool))
	rec = func(b *Bool, f func(c *Bool, neg bool)) {
		switch b.kind {
		case BCong:
			f(b, false)
		case BNot:
			if b.args[0].kind == BCong {
				f(b.args[0], true)
			}
		case BAnd, BOr:
			for _, x := range b.args {
				rec(x, f)
			}
		}
	}
	mods := map[*Poly]bool{}
	for _, b := range q.asserts {
		rec(b, func(c *Bool, neg bool) {
			if _, ok := c.q.IsConst(); neg && !ok {
				mods[c.q] = true
			}
		})
	}
	if len(mods) == 0 {
		return
	}
	for _, b := range q.asserts {
		rec(b, func(c *Bool, neg bool) {
			k, ok := c.q.IsConst()
			if neg || !ok || k.Cmp(R) != 0 {
				return
			}
			// q*x - 1
			if len(c.p.ts) != 2 {
				return
			}
			one := c.p.AddC(1)
			if len(one.ts) != 1 || len(one.ts[0].m.as) != 2 || one.ts[0].c.Cmp(bi(1)) != 0 {
				return
			}
			for _, a := range one.ts[0].m.as {
				for m := range mods {
					if a.P() == m || sameMod(a.P(), m) {
						o := Cong(c.p, c.q)
						if a.P() != m {
							o = And(o, Eq(a.P(), m))
						}
						if inv[m] == nil || a.P() == m {
							inv[m] = o
						}
					}
				}
			}
		})
	}
	if len(inv) == 0 {
		return
	}
	var rw func(b *Bool) *Bool
	rw = func(b *Bool) *Bool {
		switch b.kind {
		case BNot:
			if c := b.args[0]; c.kind == BCong {
				if g := inv[c.q]; g != nil && !hasMult(c.p, R) {
					return And(b, Or(nnfHyp(Not(g)), Not(Cong(c.p.Scale(R), c.q))))
				}
			}
		case BAnd, BOr:
			if !containsCongPos(b) {
				return b
			}
			args := make([]*Bool, len(b.args))
			for i, x := range b.args {
				args[i] = rw(x)
			}
			if b.kind == BAnd {
				return And(args...)
			}
			return Or(args...)
		}
		return b
	}
	old := q.asserts
	q.asserts = nil
	q.done = map[*Bool]bool{}
	for _, b := range old {
		q.addHyp(rw(b))
	}
}

// resolveReads asks a solver which of the conditional equalities between two
// reads hold here, so that the witness search is not misled by the others.
func (q *query) resolveReads(E []*Poly, pend []*Bool) []*Poly {
	uncond := map[*Poly]bool{}
	for _, h := range q.asserts {
		if h.kind == BEq0 {
			uncond[h.p] = true
		}
	}
	isRead := func(e *Poly) bool {
		r := len(e.ts) == 2
		for _, t := range e.ts {
			r = r && len(t.m.as) == 1 && t.m.as[0].kind == ASel && t.c.CmpAbs(bi(1)) == 0
		}
		return r
	}
	var keep, cand, other []*Poly
	for _, e := range E {
		switch {
		case uncond[e]:
			keep = append(keep, e)
		case isRead(e):
			cand = append(cand, e)
		default:
			other = append(other, e)
		}
	}
	// reads of updated memories
	col := newCollector()
	for _, b := range q.asserts {
		col.bool(b)
	}
	for _, b := range pend {
		col.bool(b)
	}
	seenE := map[*Poly]bool{}
	for _, a := range col.atoms {
		for d := 0; d < 3 && a.kind == ASel && a.mem != nil && a.row == nil; d++ {
			rs := a.mem.readCases(a.base, a.off)
			if len(rs) == 0 {
				break
			}
			for _, r := range rs {
				if e := a.P().Sub(r); !seenE[e] && len(e.ts) > 0 {
					seenE[e] = true
					cand = append(cand, e)
				}
			}
			na := rs[len(rs)-1].AsAtom()
			if na == nil {
				break
			}
			a = na
		}
	}
	// conditions of machine wrap-around that are decided here
	seenI := map[*Atom]bool{}
	for _, e := range E {
		for _, t := range e.ts {
			for _, a := range t.m.as {
				if a.kind == AInd && !a.hasBnd && !seenI[a] && len(seenI) < 12 {
					seenI[a] = true
					cand = append(cand, a.P().Sub(Const(1)), a.P())
				}
			}
		}
	}
	if len(cand)+len(other) <= 120 {
		cand = append(cand, other...)
	} else {
		keep = append(keep, other...)
	}
	if debugWit {
		fmt.Printf("RESOLVE? %d candidates\n", len(cand))
	}
	if len(cand) > 120 {
		cand = nearest(cand, pend, 120)
	}
	if len(cand) == 0 {
		return E
	}
	p := &query{done: map[*Bool]bool{}, instSet: map[string]bool{}}
	for _, b := range q.asserts {
		p.addHyp(b)
	}
	var flags []*Atom
	for i, e := range cand {
		f := NamedVar("probe!"+strconv.Itoa(i), nil, nil)
		flags = append(flags, f.AsAtom())
		p.addHyp(Or(Not(Eq0(f)), Not(Eq0(e))))
	}
	text := p.emit()
	i := strings.LastIndex(text, "(check-sat)")
	if i < 0 {
		return E
	}
	var sb strings.Builder
	sb.WriteString(text[:i])
	for _, f := range flags {
		fmt.Fprintf(&sb, "(push)\n(assert (= a%d 0))\n(check-sat)\n(pop)\n", f.id)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-smt2", "-t:300", "-in")
	cmd.Stdin = strings.NewReader(sb.String())
	var out bytes.Buffer
	cmd.Stdout = &out
	_ = cmd.Run()
	res := strings.Fields(out.String())
	if debugWit {
		fmt.Printf("RESOLVE %d cands: %s\n", len(cand), trunc(out.String(), 300))
	}
	if len(res) != len(cand) {
		return E
	}
	for i, e := range cand {
		if res[i] == "unsat" {
			keep = append(keep, e)
			q.addHyp(Eq0(e)) // entailed
		}
	}
	return keep
}

// nearest picks the n equalities closest to the goals (sharing atoms, step by step).
func nearest(cand []*Poly, pend []*Bool, n int) []*Poly {
	occ := map[*Atom][]int{}
	atoms := func(p *Poly, f func(a *Atom)) {
		for _, t := range p.ts {
			for _, a := range t.m.as {
				f(a)
			}
		}
	}
	for i, e := range cand {
		atoms(e, func(a *Atom) { occ[a] = append(occ[a], i) })
	}
	seen := map[*Atom]bool{}
	var queue []*Atom
	push := func(a *Atom) {
		if !seen[a] {
			seen[a] = true
			queue = append(queue, a)
		}
	}
	for _, b := range pend {
		elimCong(b, func(c *Bool) *Bool { atoms(c.p, push); return True })
	}
	in := map[int]bool{}
	var out []*Poly
	for len(queue) > 0 && len(out) < n {
		a := queue[0]
		queue = queue[1:]
		for _, i := range occ[a] {
			if !in[i] && len(out) < n {
				in[i] = true
				out = append(out, cand[i])
				atoms(cand[i], push)
			}
		}
	}
	return out
}

// congShadow exposes the monomials of a negated congruence (including those of
// the divisor multiples) to the cofactor rule.
func congShadow(b *Bool) *Bool {
	var ps []*Bool
	var rec func(b *Bool)
	rec = func(b *Bool) {
		if b.kind == BCong {
			ps = append(ps, BoolApp("shadow", b.p, b.q))
		}
		for _, x := range b.args {
			rec(x)
		}
	}
	rec(b)
	return And(ps...)
}

func goalContradicts(q *query) bool {
	for _, b := range q.asserts {
		if b == False {
			return true
		}
	}
	return false
}

func smtInt(c *big.Int) string {
	if c.Sign() < 0 {
		return "(- " + new(big.Int).Neg(c).String() + ")"
	}
	return c.String()
}

func (q *query) emit() string {
	c := newCollector()
	for _, b := range q.asserts {
		c.bool(b)
	}
	// closure of monomial facts (may add monomials)
	var facts []*Bool
	seenMono := map[string]bool{}
	for i := 0; i < len(c.monoOrd); i++ {
		k := c.monoOrd[i]
		if seenMono[k] {
			continue
		}
		seenMono[k] = true
		m := c.monos[k]
		mp := monoPoly(m)
		handled := false
		for j, a := range m.as {
			if j > 0 && m.as[j-1] == a {
				continue
			}
			rest, _ := divMono(m, mkMono([]*Atom{a}))
			rp := monoPoly(rest)
			if a.kind == AInd && !handled {
				f := And(Imp(a.b, Eq(mp, rp)), Imp(Not(a.b), Eq0(mp)))
				facts = append(facts, f)
				c.bool(f)
				handled = true
			}
			if a.kind == ADiv && !handled {
				// wrap-around quotients are usually 0 or +-1
				for v := int64(-1); v <= 1; v++ {
					f := Imp(Eq(a.P(), Const(v)), Eq(mp, rp.Scale(bi(v))))
					facts = append(facts, f)
					c.bool(f)
				}
			}
			if a.kind == AIte && !handled {
				f := And(Imp(a.b, Eq(mp, a.p.Mul(rp))), Imp(Not(a.b), Eq(mp, a.q.Mul(rp))))
				facts = append(facts, f)
				c.bool(f)
				handled = true
			}
		}
		if !handled {
			for j, a := range m.as {
				if j > 0 && m.as[j-1] == a {
					continue
				}
				rest, _ := divMono(m, mkMono([]*Atom{a}))
				rp := monoPoly(rest)
				rl, _ := rp.Interval()
				if rl == nil || rl.Sign() < 0 {
					continue
				}
				if a.hi != nil {
					f := Ge(rp.Scale(a.hi), mp)
					facts = append(facts, f)
					c.bool(f)
				}
				if a.lo != nil {
					f := Ge(mp, rp.Scale(a.lo))
					facts = append(facts, f)
					c.bool(f)
				}
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models false)\n(set-logic ALL)\n")
	for _, r := range sortedKeys(c.rows) {
		fmt.Fprintf(&sb, "(declare-const |%s| (Array Int Int))\n", r)
	}
	// declare function symbols
	fn := map[string]int{}
	pn := map[string]int{}
	for _, a := range c.atoms {
		if a.kind == AApp {
			fn[a.name] = len(a.args)
		}
	}
	for _, b := range c.bools {
		if b.kind == BApp {
			pn[b.name] = len(b.pargs)
		}
	}
	for _, n := range sortedKeysI(fn) {
		k := fn[n]
		fmt.Fprintf(&sb, "(declare-fun |%s| (%s) Int)\n", n, strings.TrimSpace(strings.Repeat("Int ", k)))
	}
	for _, n := range sortedKeysI(pn) {
		k := pn[n]
		fmt.Fprintf(&sb, "(declare-fun |p:%s| (%s) Bool)\n", n, strings.TrimSpace(strings.Repeat("Int ", k)))
	}
	for _, b := range c.bools {
		if b.kind == BVar {
			fmt.Fprintf(&sb, "(declare-const |%s| Bool)\n", b.name)
		}
	}
	e := &emitter{sb: &sb, a: map[*Atom]bool{}, m: map[*Mem]bool{}, b: map[*Bool]bool{}, mono: map[string]bool{}}
	for _, b := range q.asserts {
		s := e.bool(b)
		fmt.Fprintf(&sb, "(assert %s)\n", s)
	}
	for _, b := range facts {
		s := e.bool(b)
		fmt.Fprintf(&sb, "(assert %s)\n", s)
	}
	// allocation order facts
	var al []*Atom
	for _, a := range c.atoms {
		if a.alloc {
			al = append(al, a)
		}
	}
	sort.Slice(al, func(i, j int) bool { return al[i].ts < al[j].ts })
	for i := 0; i+1 < len(al); i++ {
		fmt.Fprintf(&sb, "(assert (< %s %s))\n", e.poly(al[i].P()), e.poly(al[i+1].P()))
	}
	for _, x := range c.baseOrd {
		xa := x.AsAtom()
		if xa == nil || xa.alloc {
			continue
		}
		for _, a := range al {
			if xa.ts < a.ts {
				fmt.Fprintf(&sb, "(assert (< %s %s))\n", e.poly(x), e.poly(a.P()))
				break
			}
		}
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

type emitter struct {
	sb   *strings.Builder
	a    map[*Atom]bool
	m    map[*Mem]bool
	b    map[*Bool]bool
	mono map[string]bool
	funs map[string]bool
}

func (e *emitter) mem(m *Mem) string {
	n := "M" + m.key
	if e.m[m] {
		return n
	}
	e.m[m] = true
	switch m.kind {
	case MVar:
		fmt.Fprintf(e.sb, "(declare-const %s (Array Int (Array Int Int)))\n", n)
	case MStore:
		mm, b, o, v := e.mem(m.m), e.poly(m.base), e.poly(m.off), e.poly(m.val)
		fmt.Fprintf(e.sb, "(define-fun %s () (Array Int (Array Int Int)) (store %s %s (store (select %s %s) %s %s)))\n", n, mm, b, mm, b, o, v)
	case MSetRow:
		mm, b := e.mem(m.m), e.poly(m.base)
		r := "((as const (Array Int Int)) 0)"
		if m.row.name != "" {
			r = "|" + m.row.name + "|"
		}
		fmt.Fprintf(e.sb, "(define-fun %s () (Array Int (Array Int Int)) (store %s %s %s))\n", n, mm, b, r)
	case MIte:
		c, x, y := e.bool(m.c), e.mem(m.m), e.mem(m.m2)
		fmt.Fprintf(e.sb, "(define-fun %s () (Array Int (Array Int Int)) (ite %s %s %s))\n", n, c, x, y)
	}
	return n
}

func (e *emitter) fun(name string, k int) {
	if e.funs[name] {
		return
	}
	if e.funs == nil {
		e.funs = map[string]bool{}
	}
	e.funs[name] = true
	fmt.Fprintf(e.sb, "(declare-fun |%s| (%s) Int)\n", name, strings.TrimSpace(strings.Repeat("Int ", k)))
}

func (e *emitter) atom(a *Atom) string {
	n := "a" + strconv.Itoa(a.id)
	if e.a[a] {
		return n
	}
	e.a[a] = true
	switch a.kind {
	case AVar, ABnd:
		fmt.Fprintf(e.sb, "(declare-const %s Int)\n", n)
	case ASel:
		if a.row != nil {
			o := e.poly(a.off)
			fmt.Fprintf(e.sb, "(define-fun %s () Int (select |%s| %s))\n", n, a.row.name, o)
		} else {
			m, b, o := e.mem(a.mem), e.poly(a.base), e.poly(a.off)
			fmt.Fprintf(e.sb, "(define-fun %s () Int (select (select %s %s) %s))\n", n, m, b, o)
		}
	case AInd:
		b := e.bool(a.b)
		fmt.Fprintf(e.sb, "(define-fun %s () Int (ite %s 1 0))\n", n, b)
		return n
	case ADiv:
		p := e.poly(a.p)
		c := smtInt(a.c)
		fmt.Fprintf(e.sb, "(declare-const %s Int)\n(assert (<= (* %s %s) %s))\n(assert (< %s (* %s (+ %s 1))))\n", n, c, n, p, p, c, n)
	case ADivV:
		p, qq := e.poly(a.p), e.poly(a.q)
		e.fun("divv", 2)
		fmt.Fprintf(e.sb, "(define-fun %s () Int (|divv| %s %s))\n", n, p, qq)
		dq := e.poly(a.P().Mul(a.q))
		fmt.Fprintf(e.sb, "(assert (=> (> %s 0) (and (<= %s %s) (< %s (+ %s %s)))))\n", qq, dq, p, p, dq, qq)
	case AApp:
		var s []string
		for _, x := range a.args {
			s = append(s, e.poly(x))
		}
		if len(s) == 0 {
			fmt.Fprintf(e.sb, "(define-fun %s () Int |%s|)\n", n, a.name)
		} else {
			fmt.Fprintf(e.sb, "(define-fun %s () Int (|%s| %s))\n", n, a.name, strings.Join(s, " "))
		}
	case AIte:
		b, x, y := e.bool(a.b), e.poly(a.p), e.poly(a.q)
		fmt.Fprintf(e.sb, "(define-fun %s () Int (ite %s %s %s))\n", n, b, x, y)
		return n
	}
	if a.lo != nil {
		fmt.Fprintf(e.sb, "(assert (>= %s %s))\n", n, smtInt(a.lo))
	}
	if a.hi != nil {
		fmt.Fprintf(e.sb, "(assert (<= %s %s))\n", n, smtInt(a.hi))
	}
	return n
}

func (e *emitter) monom(m mono) string {
	if len(m.as) == 1 {
		return e.atom(m.as[0])
	}
	n := "m" + strings.ReplaceAll(strings.TrimSuffix(m.key, "."), ".", "_")
	dv := false
	if !e.mono[m.key] {
		for _, a := range m.as {
			e.atom(a) // may emit this product
			dv = dv || a.kind == ADivV
		}
	}
	if !e.mono[m.key] {
		e.mono[m.key] = true
		if dv && len(m.as) == 2 {
			e.fun("mulv", 2)
			a, b := m.as[0], m.as[1]
			if a.kind == ADivV && b.kind != ADivV {
				a, b = b, a
			}
			fmt.Fprintf(e.sb, "(define-fun %s () Int (|mulv| %s %s))\n", n, e.atom(a), e.atom(b))
		} else {
			fmt.Fprintf(e.sb, "(declare-const %s Int)\n", n)
			nn := true
			for _, a := range m.as {
				nn = nn && a.lo != nil && a.lo.Sign() >= 0
			}
			if nn {
				fmt.Fprintf(e.sb, "(assert (>= %s 0))\n", n)
			}
		}
	}
	return n
}

func (e *emitter) poly(p *Poly) string {
	if k, ok := p.IsConst(); ok {
		return smtInt(k)
	}
	var s []string
	for _, t := range p.ts {
		if len(t.m.as) == 0 {
			s = append(s, smtInt(t.c))
			continue
		}
		x := e.monom(t.m)
		if t.c.Cmp(bi(1)) == 0 {
			s = append(s, x)
		} else {
			s = append(s, "(* "+smtInt(t.c)+" "+x+")")
		}
	}
	if len(s) == 1 {
		return s[0]
	}
	return "(+ " + strings.Join(s, " ") + ")"
}

func (e *emitter) bool(b *Bool) string {
	switch b.kind {
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	case BGe0:
		return "(>= " + e.poly(b.p) + " 0)"
	case BEq0:
		return "(= " + e.poly(b.p) + " 0)"
	case BNot:
		return "(not " + e.bool(b.args[0]) + ")"
	case BVar:
		return "|" + b.name + "|"
	case BApp:
		var s []string
		for _, x := range b.pargs {
			s = append(s, e.poly(x))
		}
		if len(s) == 0 {
			return "|p:" + b.name + "|"
		}
		return "(|p:" + b.name + "| " + strings.Join(s, " ") + ")"
	case BAnd, BOr:
		n := "b" + strconv.Itoa(b.id)
		if e.b[b] {
			return n
		}
		var s []string
		for _, x := range b.args {
			s = append(s, e.bool(x))
		}
		op := "and"
		if b.kind == BOr {
			op = "or"
		}
		fmt.Fprintf(e.sb, "(define-fun %s () Bool (%s %s))\n", n, op, strings.Join(s, " "))
		e.b[b] = true
		return n
	case BForall, BCong:
		// unreachable in ground queries; a quantifier nested where it could
		// not be hoisted is dropped by weakening to true
		return "true"
	}
	panic("emit bool")
}

// ---- solver processes ----

var solverSem = make(chan struct{}, 8)

func runSolver(name string, args []string, text string, to time.Duration) (string, time.Duration) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	ctx, cancel := context.WithTimeout(context.Background(), to+time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	d := time.Since(t0)
	atomic.AddInt64(&solverNanos, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch first {
	case "unsat", "sat", "unknown":
		// an (error ...) line would make the answer unreliable
		if strings.Contains(s, "error") {
			return "error: " + s, d
		}
		return first, d
	case "timeout":
		return "unknown", d
	}
	if strings.Contains(s, "error") {
		return "error: " + trunc(s, 300), d
	}
	return "unknown", d
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

type goalJob struct {
	hyps []*Bool
	goal *Bool
	text []string // per level
}

var dumpN int64

// solveText runs the portfolio on one prepared query.
func solveText(tag, t string, to time.Duration, houdini bool) Result {
	t0 := time.Now()
	if t == "" {
		return Result{ok: true, backend: "gvc-simplifier", dur: time.Since(t0), status: "unsat"}
	}
	dn := atomic.AddInt64(&dumpN, 1)
	ms := int(to / time.Millisecond)
	s, _ := runSolver("z3-new", []string{"-smt2", fmt.Sprintf("-t:%d", ms), "-in"}, t, to)
	if dumpDir != "" {
		os.WriteFile(fmt.Sprintf("%s/q%05d_%s_%d.smt2", dumpDir, dn, strings.SplitN(s, ":", 2)[0], int(time.Since(t0)/time.Millisecond)), []byte("; "+tag+"\n"+t), 0644)
	}
	if s == "unsat" {
		return Result{ok: true, backend: "z3-5.3.2", dur: time.Since(t0), status: s}
	}
	r := Result{status: s, backend: "z3-5.3.2", dur: time.Since(t0)}
	if !houdini && s != "sat" {
		s2, _ := runSolver("cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}, t, to)
		if s2 == "unsat" {
			return Result{ok: true, backend: "cvc5-1.1.2", dur: time.Since(t0), status: s2}
		}
		if s2 == "sat" {
			r.status = s2
		} else if strings.HasPrefix(r.status, "unknown") {
			r.status = s + "/" + s2
		}
	}
	r.dur = time.Since(t0)
	return r
}

var buildNanos, buildBytes, buildN [4]int64
var winL [4]int64

// termMu guards the term tables: queries are built one at a time, solvers run
// in parallel.
var termMu sync.Mutex

// solveGoal tries the query restricted to relevant hypotheses first, then the
// full one.
func solveGoal(hyps []*Bool, g *Bool, to time.Duration, houdini bool) Result {
	if g == True {
		return Result{ok: true, backend: "gvc-simplifier", status: "unsat"}
	}
	var r Result
	t0 := time.Now()
	prev := ""
	for l := 0; l < maxLevel; l++ {
		termMu.Lock()
		hs := hyps
		if l == 0 || l == 2 {
			hs = relevant(hyps, g)
		}
		t1 := time.Now()
		t := buildQuery(hs, g, l)
		atomic.AddInt64(&buildNanos[l], int64(time.Since(t1)))
		atomic.AddInt64(&buildBytes[l], int64(len(t)))
		atomic.AddInt64(&buildN[l], 1)
		termMu.Unlock()
		if l > 0 && t == prev {
			break
		}
		prev = t
		tag := ""
		if dumpDir != "" {
			tag = fmt.Sprintf("L%d %s", l, strings.ReplaceAll(g.String(), "\n", " "))
		}
		r = solveText(tag, t, to, houdini)
		r.level = l
		r.dur = time.Since(t0)
		if r.ok {
			atomic.AddInt64(&winL[l], 1)
			return r
		}
	}
	return r
}

var atomsOf = map[*Bool][]*Atom{}

func boolAtoms(b *Bool) []*Atom {
	if r, ok := atomsOf[b]; ok {
		return r
	}
	c := newCollector()
	c.bool(b)
	atomsOf[b] = c.atoms
	return c.atoms
}

// relevant keeps the hypotheses connected to the goal through their rare
// symbols (dropping hypotheses only weakens the query). Quantified hypotheses
// are always kept.
func relevant(hyps0 []*Bool, g *Bool) []*Bool {
	var hyps []*Bool
	for _, h := range hyps0 {
		if h.kind == BAnd {
			hyps = append(hyps, h.args...)
		} else {
			hyps = append(hyps, h)
		}
	}
	occ := map[*Atom]int{}
	for _, h := range hyps {
		for _, a := range boolAtoms(h) {
			occ[a]++
		}
	}
	rel := map[*Atom]bool{}
	for _, a := range boolAtoms(g) {
		rel[a] = true
	}
	in := make([]bool, len(hyps))
	for i, h := range hyps {
		if containsForall(h) {
			in[i] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for i, h := range hyps {
			if in[i] {
				continue
			}
			as := boolAtoms(h)
			min := 1 << 30
			for _, a := range as {
				if occ[a] < min {
					min = occ[a]
				}
			}
			ok := len(as) == 0
			for _, a := range as {
				if rel[a] && occ[a] <= 2*min+2 {
					ok = true
					break
				}
			}
			if ok {
				in[i] = true
				changed = true
				for _, a := range as {
					rel[a] = true
				}
			}
		}
	}
	var out []*Bool
	for i, h := range hyps {
		if in[i] {
			out = append(out, h)
		}
	}
	return out
}

// proveBatch proves goals under common hypotheses.
func proveBatch(hyps []*Bool, goals []*Bool, to time.Duration, houdini bool) []Result {
	res := make([]Result, len(goals))
	t0 := time.Now()
	var wg sync.WaitGroup
	for i, g := range goals {
		if g == True {
			res[i] = Result{ok: true, backend: "gvc-simplifier", status: "unsat"}
			continue
		}
		termMu.Lock()
		parts := splitGoal(g)
		parts = splitRanges(hyps, parts)
		termMu.Unlock()
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rs := make([]Result, len(parts))
			var wg2 sync.WaitGroup
			var failed int32
			for j := range parts {
				wg2.Add(1)
				go func(j int) {
					defer wg2.Done()
					if houdini && atomic.LoadInt32(&failed) != 0 {
						rs[j] = Result{status: "skipped"}
						return
					}
					rs[j] = solveGoal(hyps, parts[j], to, houdini)
					if !rs[j].ok {
						atomic.StoreInt32(&failed, 1)
					}
				}(j)
			}
			wg2.Wait()
			r := Result{ok: true, backend: "gvc-simplifier", status: "unsat"}
			for _, x := range rs {
				r.dur += x.dur
				if x.backend != "gvc-simplifier" && x.backend != "" {
					r.backend = x.backend
				}
				if !x.ok {
					r.ok = false
					if x.status != "skipped" {
						r.status = x.status
					}
				}
			}
			res[i] = r
		}(i)
	}
	wg.Wait()
	if debugLoops {
		slow, n := time.Duration(0), 0
		for _, r := range res {
			if r.dur > slow {
				slow = r.dur
			}
			if !r.ok {
				n++
			}
		}
		fmt.Printf("  [batch %d goals, %d hyps, %d not proved, %.1fs, slowest %.1fs]\n", len(goals), len(hyps), n, time.Since(t0).Seconds(), slow.Seconds())
	}
	return res
}

// splitRanges: a goal forall(k, lo, hi'+c) is cut at hi' (the end of a range
// known from a hypothesis) into forall(k, lo, hi') and c instances.
func splitRanges(hyps []*Bool, goals []*Bool) []*Bool {
	var ends []*Poly
	seen := map[*Poly]bool{}
	var find func(h *Bool, d int)
	find = func(h *Bool, d int) {
		if h.kind == BForall && h.args[0].kind == BOr {
			for _, l := range h.args[0].args {
				for _, v := range h.vars {
					if e := upperGuard(l, v); e != nil && !seen[e] {
						seen[e] = true
						ends = append(ends, e)
					}
				}
			}
			return
		}
		if d < 3 && (h.kind == BAnd || h.kind == BOr) {
			for _, x := range h.args {
				find(x, d+1)
			}
		}
	}
	any := false
	for _, g := range goals {
		if g.kind == BForall || g.kind == BOr && containsForall(g) {
			any = true
		}
	}
	if !any {
		return goals
	}
	for _, h := range hyps {
		find(h, 0)
	}
	var out []*Bool
	var cut func(g *Bool, wrap func(*Bool) *Bool)
	cut = func(g *Bool, wrap func(*Bool) *Bool) {
		if g.kind == BOr {
			for i, x := range g.args {
				if x.kind == BForall {
					rest := append(append([]*Bool{}, g.args[:i]...), g.args[i+1:]...)
					cut(x, func(b *Bool) *Bool { return wrap(Or(append(append([]*Bool{}, rest...), b)...)) })
					return
				}
			}
		}
		if g.kind == BForall && g.args[0].kind == BOr {
			for _, k := range g.vars {
				for _, l := range g.args[0].args {
					e := upperGuard(l, k)
					if e == nil {
						continue
					}
					for _, h := range ends {
						c, ok := e.Sub(h).IsConst()
						if !ok || c.Sign() <= 0 || c.Cmp(bi(64)) > 0 {
							continue
						}
						out = append(out, wrap(Forall(g.vars, Or(Ge(k.P(), h), g.args[0]))))
						var rest []*Atom
						for _, v := range g.vars {
							if v != k {
								rest = append(rest, v)
							}
						}
						for i := int64(0); i < c.Int64(); i++ {
							b := NewSubst(map[*Atom]*Poly{k: h.AddC(i)}).Bool(g.args[0])
							if len(rest) > 0 {
								b = Forall(rest, b)
							}
							out = append(out, wrap(b))
						}
						return
					}
				}
			}
		}
		out = append(out, wrap(g))
	}
	for _, g := range goals {
		cut(g, func(b *Bool) *Bool { return b })
	}
	return out
}

// upperGuard: l is "not (k < e)", i.e. k - e >= 0 -> e
func upperGuard(l *Bool, k *Atom) *Poly {
	if l.kind != BGe0 {
		return nil
	}
	e := k.P().Sub(l.p)
	if !e.hasBnd {
		return e
	}
	return nil
}

// lowerGuard: l is "not (lo <= k)", i.e. lo-1-k >= 0 -> lo
func lowerGuard(l *Bool, k *Atom) *Poly {
	if l.kind != BGe0 {
		return nil
	}
	e := l.p.Add(k.P()).AddC(1)
	if !e.hasBnd {
		return e
	}
	return nil
}

// splitGoal distributes conjunctions (also under quantifiers and guards).
func splitGoal(g *Bool) []*Bool {
	switch g.kind {
	case BAnd:
		var out []*Bool
		for _, x := range g.args {
			out = append(out, splitGoal(x)...)
		}
		return out
	case BOr:
		for i, x := range g.args {
			if x.kind == BAnd {
				rest := append(append([]*Bool{}, g.args[:i]...), g.args[i+1:]...)
				var out []*Bool
				for _, y := range x.args {
					out = append(out, splitGoal(Or(append(append([]*Bool{}, rest...), y)...))...)
				}
				if len(out) > 40 {
					return []*Bool{g}
				}
				return out
			}
			if x.kind == BForall && x.args[0].kind == BOr {
				// forall with conjunction inside an implication
				sub := splitGoal(x.args[0])
				if len(sub) > 1 {
					rest := append(append([]*Bool{}, g.args[:i]...), g.args[i+1:]...)
					var out []*Bool
					for _, y := range sub {
						out = append(out, Or(append(append([]*Bool{}, rest...), Forall(x.vars, y))...))
					}
					return out
				}
			}
		}
	case BForall:
		sub := splitGoal(g.args[0])
		if len(sub) > 1 {
			var out []*Bool
			for _, y := range sub {
				out = append(out, splitGoal(Forall(g.vars, y))...)
			}
			return out
		}
	}
	return []*Bool{g}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedKeysI(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var maxLevel = 2

// readCases: the values a read of an updated memory may have (the last one is the
// read of the memory before the update).
func (m *Mem) readCases(base, off *Poly) []*Poly {
	if base == nil || off == nil {
		return nil
	}
	switch m.kind {
	case MStore:
		return []*Poly{m.val, m.m.Read(base, off)}
	case MSetRow:
		if m.row.name == "" {
			return []*Poly{m.m.Read(base, off)}
		}
		return []*Poly{m.Read(m.base, off), m.m.Read(base, off)}
	}
	return nil
}

// canonAtoms replaces, in the monomials of G and E, each atom by a representative of
// the atoms that two-term equalities of E identify it with (the modulus, if it is one
// of them).
func canonAtoms(G, q *Poly, E []*Poly) (*Poly, []*Poly) {
	par := map[*Atom]*Atom{}
	var find func(a *Atom) *Atom
	find = func(a *Atom) *Atom {
		p, ok := par[a]
		if !ok || p == a {
			return a
		}
		r := find(p)
		par[a] = r
		return r
	}
	qa := q.AsAtom()
	for _, e := range E {
		if len(e.ts) != 2 || len(e.ts[0].m.as) != 1 || len(e.ts[1].m.as) != 1 {
			continue
		}
		if s := new(big.Int).Add(e.ts[0].c, e.ts[1].c); s.Sign() != 0 || e.ts[0].c.CmpAbs(bi(1)) != 0 {
			continue
		}
		a, b := find(e.ts[0].m.as[0]), find(e.ts[1].m.as[0])
		if a == b {
			continue
		}
		if a == qa || b != qa && a.ts < b.ts {
			par[b] = a
		} else {
			par[a] = b
		}
	}
	sub := func(p *Poly) *Poly {
		ch := false
		r := Const(0)
		for _, t := range p.ts {
			as := make([]*Atom, len(t.m.as))
			for i, a := range t.m.as {
				as[i] = find(a)
				ch = ch || as[i] != a
			}
			r = r.Add(mkPoly([]term{{mkMono(as), t.c}}))
		}
		if !ch {
			return p
		}
		return r
	}
	var out []*Poly
	for _, e := range E {
		if s := sub(e); len(s.ts) > 0 {
			out = append(out, s)
		}
	}
	return sub(G), out
}

// quotEq: the equation states a congruence (it has a quotient variable).
func quotEq(p *Poly) bool {
	for _, t := range p.ts {
		for _, a := range t.m.as {
			if a.kind == AVar && strings.HasPrefix(a.name, "cw!") || a.kind == ADivV {
				return true
			}
		}
	}
	return false
}

// pow2Bounds: 2^n <= 2^c for each power in the query and each bound n <= c.
func (q *query) pow2Bounds(c *collector) {
	for _, a := range c.atoms {
		if a.kind != AApp || a.name != "pow2" || len(a.args) != 1 {
			continue
		}
		e := a.args[0]
		for _, b := range append([]*Bool{}, q.asserts...) {
			if b.kind != BGe0 {
				continue
			}
			if k, ok := b.p.Add(e).IsConst(); ok && k.Sign() >= 0 && k.Cmp(bi(256)) <= 0 {
				q.addHyp(Ge0(ConstB(pow2big(uint(k.Int64()))).Sub(a.P())))
			}
		}
	}
}

// reduceCong rewrites the left-hand side of a congruence with the equations E (all of
// them entailed) until only multiples of the modulus remain. It returns the negation
// of the equation that is left to refute and the instances of E used; the solver
// re-checks the linear combination.
func reduceCong(c *Bool, E []*Poly) (*Bool, []*Poly) {
	qa := c.q.AsAtom()
	if qa == nil {
		return nil, nil
	}
	G, ce := canonAtoms(c.p, c.q, E)
	newer := func(a, b *Atom) bool {
		if a.ts != b.ts {
			return a.ts > b.ts
		}
		return a.id > b.id
	}
	isCw := func(a *Atom) bool { return a.kind == AVar && strings.HasPrefix(a.name, "cw!") }
	type rule struct {
		e *Poly
		t term
		k []*Atom // atoms of the pivot, newest first
	}
	key := func(m mono) []*Atom {
		k := append([]*Atom{}, m.as...)
		sort.Slice(k, func(i, j int) bool { return newer(k[i], k[j]) })
		return k
	}
	less := func(a, b []*Atom) bool { // a is older than b
		for i := 0; i < len(a) && i < len(b); i++ {
			if a[i] != b[i] {
				return newer(b[i], a[i])
			}
		}
		return len(a) < len(b)
	}
	var rules []rule
	for _, e := range ce {
		var best *rule
		for _, t := range e.ts {
			bad := len(t.m.as) == 0
			for _, a := range t.m.as {
				bad = bad || a == qa || isCw(a)
			}
			if bad {
				continue
			}
			k := key(t.m)
			if best == nil || less(best.k, k) {
				best = &rule{e, t, k}
			}
		}
		if best != nil {
			rules = append(rules, *best)
		}
	}
	var used []*Poly
	for step := 0; step < 80; step++ {
		var pick *term
		var pk []*Atom
		var pr *rule
		var pf mono
		stuck := false
		for i := range G.ts {
			t := G.ts[i]
			div := false
			for _, a := range t.m.as {
				div = div || a == qa
			}
			if div {
				continue
			}
			stuck = true
			k := key(t.m)
			if pick != nil && !less(pk, k) {
				continue
			}
			for j := range rules {
				r := &rules[j]
				f, ok := divMono(t.m, r.t.m)
				if !ok || new(big.Int).Rem(t.c, r.t.c).Sign() != 0 {
					continue
				}
				pick, pk, pr, pf = &G.ts[i], k, r, f
				break
			}
		}
		if !stuck {
			var ts []term
			for _, t := range G.ts {
				var as []*Atom
				rm := false
				for _, a := range t.m.as {
					if a == qa && !rm {
						rm = true
						continue
					}
					as = append(as, a)
				}
				ts = append(ts, term{mkMono(as), t.c})
			}
			return Not(Eq0(c.p.Sub(c.q.Mul(mkPoly(ts))))), used
		}
		if pick == nil {
			if debugWit {
				fmt.Printf("STUCK %s\n", G)
			}
			return nil, nil
		}
		f := new(big.Int).Quo(pick.c, pr.t.c)
		u := pr.e.Mul(monoPoly(pf))
		used = append(used, u)
		G = G.Sub(u.Scale(f))
	}
	return nil, nil
}

// hasMult: some non-constant term of p has a coefficient divisible by k.
func hasMult(p *Poly, k *big.Int) bool {
	for _, t := range p.ts {
		if len(t.m.as) > 0 && new(big.Int).Rem(t.c, k).Sign() == 0 {
			return true
		}
	}
	return false
}

// occurs counts the terms of p in which the atom occurs.
func occurs(p *Poly, a *Atom) int {
	n := 0
	for _, t := range p.ts {
		for _, x := range t.m.as {
			if x == a {
				n++
				break
			}
		}
	}
	return n
}

// unitPropagate simplifies the hypotheses with those that are literals (branch
// conditions of other paths disappear).
func unitPropagate(hs []*Bool) []*Bool {
	units := map[*Bool]bool{}
	var flat []*Bool
	var add func(b *Bool)
	add = func(b *Bool) {
		switch b.kind {
		case BTrue:
		case BAnd:
			for _, x := range b.args {
				add(x)
			}
		case BOr, BForall:
			flat = append(flat, b)
		default:
			if !units[b] {
				units[b] = true
				flat = append(flat, b)
			}
		}
	}
	for _, h := range hs {
		add(h)
	}
	var simp func(b *Bool, depth int) *Bool
	simp = func(b *Bool, depth int) *Bool {
		switch b.kind {
		case BOr, BAnd:
			ch := false
			args := make([]*Bool, 0, len(b.args))
			for _, x := range b.args {
				y := x
				if depth < 4 {
					y = simp(x, depth+1)
				}
				ch = ch || y != x
				args = append(args, y)
			}
			if !ch {
				return b
			}
			if b.kind == BOr {
				return Or(args...)
			}
			return And(args...)
		case BForall:
			if y := simp(b.args[0], depth+1); y != b.args[0] {
				return Forall(b.vars, y)
			}
			return b
		case BTrue, BFalse:
			return b
		}
		if units[b] {
			return True
		}
		if units[Not(b)] {
			return False
		}
		return b
	}
	for round := 0; round < 4; round++ {
		n, old := len(units), flat
		flat = nil
		for _, b := range old {
			switch b.kind {
			case BOr, BForall:
				add(simp(b, 0))
			default:
				flat = append(flat, b)
			}
		}
		if len(units) == n {
			break
		}
	}
	return flat
}

// frameUnits: when the goal has products, reads of one cell in different memory
// versions are identified where the frame conditions between them are decided by
// the owners of the memory blocks (unit propagation over the instances), so that
// the products become the same term.
func (q *query) frameUnits() {
	if len(q.asserts) == 0 {
		return
	}
	nonlin, owner := false, false
	var scan func(b *Bool)
	scan = func(b *Bool) {
		if b.p != nil {
			for _, t := range b.p.ts {
				sel := 0
				for _, a := range t.m.as {
					if a.kind == ASel {
						sel++
					}
					if a.kind == AApp && a.name == "U_owner" {
						owner = true
					}
				}
				if sel >= 2 {
					nonlin = true
				}
			}
		}
		for _, x := range b.args {
			scan(x)
		}
	}
	for _, b := range q.asserts {
		scan(b)
	}
	if !nonlin || !owner {
		return
	}
	isOwner := func(a *Atom) bool { return a.kind == AApp && a.name == "U_owner" }
	units := map[*Bool]bool{}
	val := map[*Atom]*Poly{} // known owners
	var ors []*Bool
	newUnit := false
	var add func(b *Bool)
	add = func(b *Bool) {
		switch b.kind {
		case BAnd:
			for _, x := range b.args {
				add(x)
			}
			return
		case BOr:
			ors = append(ors, b)
			return
		}
		if units[b] {
			return
		}
		units[b] = true
		newUnit = true
		if b.kind == BEq0 && len(b.p.ts) <= 2 {
			for _, t := range b.p.ts {
				if len(t.m.as) == 1 && isOwner(t.m.as[0]) && t.c.CmpAbs(bi(1)) == 0 && val[t.m.as[0]] == nil {
					r := b.p.Sub(mkPoly([]term{t}))
					if t.c.Sign() > 0 {
						r = Const(0).Sub(r)
					}
					if a := r.AsAtom(); a == nil || !isOwner(a) {
						val[t.m.as[0]] = r
					}
				}
			}
		}
	}
	for _, b := range q.asserts {
		add(b)
	}
	neverZero := func(p *Poly) bool {
		if c, ok := p.IsConst(); ok {
			return c.Sign() != 0
		}
		if units[Not(Eq0(p))] || units[Ge(p, Const(1))] || units[Ge(Const(0).Sub(p), Const(1))] {
			return true
		}
		return false
	}
	// refute: p >= 0 contradicts at most three of the known inequalities; an indicator
	// (of a minimum, say) is decided both ways
	var ineqs []*Poly
	nIneq := -1
	indOf := func(p *Poly) *Atom {
		for _, t := range p.ts {
			for _, a := range t.m.as {
				if a.kind == AInd {
					return a
				}
			}
		}
		return nil
	}
	setInd := func(p *Poly, ind *Atom, v int64) *Poly {
		r := Const(0)
		for _, t := range p.ts {
			var as []*Atom
			hit := false
			for _, a := range t.m.as {
				if a == ind {
					hit = true
				} else {
					as = append(as, a)
				}
			}
			if hit && v == 0 {
				continue
			}
			r = r.Add(mkPoly([]term{{mkMono(as), t.c}}))
		}
		return r
	}
	opp := func(p, u *Poly) bool { // u cancels a term of p
		for _, t := range p.ts {
			if len(t.m.as) == 0 {
				continue
			}
			for _, w := range u.ts {
				if sameMono(w.m, t.m) && new(big.Int).Add(w.c, t.c).Sign() == 0 {
					return true
				}
			}
		}
		return false
	}
	var refute func(p *Poly, us []*Poly, depth int) bool
	refute = func(p *Poly, us []*Poly, depth int) bool {
		if c, ok := p.IsConst(); ok {
			return c.Sign() < 0
		}
		if depth == 0 || len(p.ts) > 8 {
			return false
		}
		if ind := indOf(p); ind != nil {
			for v := int64(0); v < 2; v++ {
				var w []*Poly
				for _, u := range us {
					w = append(w, setInd(u, ind, v))
				}
				l := ind.b
				if v == 0 {
					l = Not(l)
				}
				if l.kind == BGe0 {
					w = append(w, l.p)
				} else if l.kind == BNot && l.args[0].kind == BGe0 {
					w = append(w, Const(-1).Sub(l.args[0].p))
				}
				if !refute(setInd(p, ind, v), w, depth) {
					return false
				}
			}
			return true
		}
		for _, u := range us {
			if opp(p, u) && len(p.Add(u).ts) <= len(p.ts)+1 && refute(p.Add(u), us, depth-1) {
				return true
			}
		}
		return false
	}
	refCache := map[*Poly]bool{}
	isFalse := func(b *Bool) bool {
		if units[Not(b)] {
			return true
		}
		if b.kind == BGe0 {
			if len(units) != nIneq {
				nIneq, ineqs = len(units), nil
				refCache = map[*Poly]bool{}
				for u := range units {
					switch {
					case u.kind == BGe0 && len(u.p.ts) <= 8:
						ineqs = append(ineqs, u.p)
					case u.kind == BEq0 && len(u.p.ts) <= 8:
						ineqs = append(ineqs, u.p, Const(0).Sub(u.p))
					}
				}
			}
			if r, ok := refCache[b.p]; ok {
				return r
			}
			r := refute(b.p, ineqs, 3)
			refCache[b.p] = r
			return r
		}
		if b.kind == BEq0 {
			p, ch := b.p, false
			for _, t := range b.p.ts {
				if len(t.m.as) == 1 && isOwner(t.m.as[0]) && val[t.m.as[0]] != nil {
					d := mkPoly([]term{t})
					v := val[t.m.as[0]].Mul(ConstB(t.c))
					p = p.Sub(d).Add(v)
					ch = true
				}
			}
			return ch && neverZero(p)
		}
		return false
	}
	for round := 0; round < 6; round++ {
		newUnit = false
		old := ors
		ors = nil
		for _, b := range old {
			var rest []*Bool
			sat := false
			for _, x := range b.args {
				f := isFalse(x)
				if x.kind == BAnd {
					for _, y := range x.args {
						f = f || isFalse(y)
					}
				}
				if units[x] {
					sat = true
				}
				if !f {
					rest = append(rest, x)
				}
			}
			if sat {
				ors = append(ors, b)
				continue
			}
			if len(rest) < len(b.args) {
				add(Or(rest...))
			} else {
				ors = append(ors, b)
			}
		}
		if !newUnit {
			break
		}
	}
	// identify the reads
	par := map[*Atom]*Atom{}
	var find func(a *Atom) *Atom
	find = func(a *Atom) *Atom {
		if p := par[a]; p != nil {
			r := find(p)
			par[a] = r
			return r
		}
		return a
	}
	var eqs []*Bool
	for b := range units {
		if b.kind == BEq0 {
			eqs = append(eqs, b)
		}
	}
	sort.Slice(eqs, func(i, j int) bool { return eqs[i].id < eqs[j].id })
	for _, b := range eqs {
		if len(b.p.ts) != 2 || len(b.p.ts[0].m.as) != 1 || len(b.p.ts[1].m.as) != 1 {
			continue
		}
		if s := new(big.Int).Add(b.p.ts[0].c, b.p.ts[1].c); s.Sign() != 0 || b.p.ts[0].c.CmpAbs(bi(1)) != 0 {
			continue
		}
		x, y := b.p.ts[0].m.as[0], b.p.ts[1].m.as[0]
		if x.kind != ASel || y.kind != ASel {
			continue
		}
		x, y = find(x), find(y)
		if x == y {
			continue
		}
		if x.ts < y.ts {
			par[y] = x
		} else {
			par[x] = y
		}
	}
	if len(par) == 0 {
		return
	}
	subP := func(p *Poly) *Poly {
		r, ch := Const(0), false
		for _, t := range p.ts {
			as := make([]*Atom, len(t.m.as))
			for i, a := range t.m.as {
				as[i] = find(a)
				ch = ch || as[i] != a
			}
			r = r.Add(mkPoly([]term{{mkMono(as), t.c}}))
		}
		if !ch {
			return p
		}
		return r
	}
	var subB func(b *Bool) *Bool
	subB = func(b *Bool) *Bool {
		switch b.kind {
		case BEq0:
			return Eq0(subP(b.p))
		case BGe0:
			return Ge(subP(b.p), Const(0))
		case BCong:
			return Cong(subP(b.p), subP(b.q))
		case BNot:
			return Not(subB(b.args[0]))
		case BAnd, BOr:
			args := make([]*Bool, len(b.args))
			for i, x := range b.args {
				args[i] = subB(x)
			}
			if b.kind == BOr {
				return Or(args...)
			}
			return And(args...)
		}
		return b
	}
	old := q.asserts
	q.asserts = nil
	q.done = map[*Bool]bool{}
	for _, b := range old {
		q.addHyp(subB(b))
	}
	for _, b := range eqs {
		q.addHyp(b)
	}
}

// powProducts: products of a power of two and another value are equal when both
// factors are (products are abstracted before solving).
func (q *query) powProducts(c *collector) {
	var ms []mono
	for _, k := range c.monoOrd {
		m := c.monos[k]
		if len(m.as) == 2 && (m.as[0].kind == AApp && m.as[0].name == "pow2") != (m.as[1].kind == AApp && m.as[1].name == "pow2") && !m.as[0].hasBnd && !m.as[1].hasBnd {
			ms = append(ms, m)
		}
	}
	split := func(m mono) (pw, o *Atom) {
		if m.as[0].kind == AApp && m.as[0].name == "pow2" {
			return m.as[0], m.as[1]
		}
		return m.as[1], m.as[0]
	}
	n := 0
	for i := range ms {
		p1, o1 := split(ms[i])
		for _, m2 := range ms[i+1:] {
			p2, o2 := split(m2)
			if o1.kind != o2.kind || o1.kind == ASel && o1.mem.comp != o2.mem.comp || p1 == p2 || n >= 40 {
				continue
			}
			n++
			q.addHyp(Imp(And(Eq(p1.P(), p2.P()), Eq(o1.P(), o2.P())), Eq(p1.P().Mul(o1.P()), p2.P().Mul(o2.P()))))
		}
	}
}

func sameMono(a, b mono) bool {
	if len(a.as) != len(b.as) {
		return false
	}
	for i := range a.as {
		if a.as[i] != b.as[i] {
			return false
		}
	}
	return true
}
