package main

// Instantiation by joint matching: a quantified hypothesis is instantiated
// where one of its reads (memory component, base, offset) or applications
// matches a ground one, memory versions ignored. Any instance of a true
// formula is true, so the choice of instances only affects completeness.

import (
	"sort"
	"strconv"
	"strings"
)

type pat struct {
	kind string // "R" read, "A" int application, "P" predicate application
	name string // component or function
	base *Poly
	off  *Poly
	args []*Poly
	vars map[*Atom]bool
}

var patCache = map[*Bool][]pat{}

func patVars(ps ...*Poly) map[*Atom]bool {
	s := map[*Atom]bool{}
	for _, p := range ps {
		if p != nil {
			freeBndPoly(p, s, map[interface{}]bool{})
		}
	}
	return s
}

func patterns(f *Bool) []pat {
	if r, ok := patCache[f]; ok {
		return r
	}
	c := newCollector()
	c.bool(f.args[0])
	isV := map[*Atom]bool{}
	for _, v := range f.vars {
		isV[v] = true
	}
	var out []pat
	add := func(p pat, ps ...*Poly) {
		p.vars = patVars(ps...)
		for v := range p.vars {
			if !isV[v] {
				delete(p.vars, v)
			}
		}
		if len(p.vars) > 0 {
			out = append(out, p)
		}
	}
	for _, a := range c.atoms {
		switch a.kind {
		case ASel:
			if a.hasBnd {
				add(pat{kind: "R", name: a.mem.comp, base: a.base, off: a.off}, a.base, a.off)
			}
		case AApp:
			if a.hasBnd {
				add(pat{kind: "A", name: a.name, args: a.args}, a.args...)
			}
		}
	}
	for _, b := range c.bools {
		if b.kind == BApp {
			add(pat{kind: "P", name: b.name, args: b.pargs}, b.pargs...)
		}
	}
	for _, m := range c.mems {
		if m.hasB && m.off != nil && m.base != nil {
			add(pat{kind: "R", name: m.comp, base: m.base, off: m.off}, m.base, m.off)
		}
	}
	// divisions serve as patterns for variables that nothing else mentions
	if len(out) == 0 {
		for _, a := range c.atoms {
			if a.kind == ADiv && a.hasBnd {
				add(pat{kind: "A", name: "div" + a.c.String(), args: []*Poly{a.p}}, a.p)
			}
		}
	}
	patCache[f] = out
	return out
}

type ground struct {
	base, off *Poly
	args      []*Poly
	key       string
}

type groundSet struct {
	by   map[string][]ground
	seen map[string]bool
}

func (g *groundSet) add(kind, name string, x ground) {
	var sb strings.Builder
	sb.WriteString(kind + name)
	if x.base != nil {
		sb.WriteString(";" + strconv.Itoa(x.base.id))
	}
	if x.off != nil {
		sb.WriteString(";" + strconv.Itoa(x.off.id))
	}
	for _, a := range x.args {
		sb.WriteString("," + strconv.Itoa(a.id))
	}
	k := sb.String()
	if g.seen[k] {
		return
	}
	g.seen[k] = true
	x.key = k
	g.by[kind+name] = append(g.by[kind+name], x)
}

func (g *groundSet) collect(c *collector, nA, nB, nM int) {
	for _, a := range c.atoms[nA:] {
		if a.hasBnd {
			continue
		}
		switch a.kind {
		case ASel:
			g.add("R", a.mem.comp, ground{base: a.base, off: a.off})
			// the read may be one of a replaced row
			if b := a.base.AsAtom(); a.row == nil && b != nil && b.kind == AVar {
				for m, d := a.mem, 0; m != nil && d < 8 && (m.kind == MSetRow || m.kind == MStore); m, d = m.m, d+1 {
					if m.kind == MSetRow && m.base != a.base && !m.base.hasBnd {
						g.add("R", a.mem.comp, ground{base: m.base, off: a.off})
					}
				}
			}
		case AApp:
			g.add("A", a.name, ground{args: a.args})
		case ADiv:
			g.add("A", "div"+a.c.String(), ground{args: []*Poly{a.p}})
		}
	}
	for _, b := range c.bools[nB:] {
		if b.kind == BApp {
			ok := true
			for _, p := range b.pargs {
				ok = ok && !p.hasBnd
			}
			if ok {
				g.add("P", b.name, ground{args: b.pargs})
			}
		}
	}
	for _, m := range c.mems[nM:] {
		if m.base != nil && m.off != nil && !m.base.hasBnd && !m.off.hasBnd {
			g.add("R", m.comp, ground{base: m.base, off: m.off})
		}
	}
}

type binding map[*Atom]*Poly

func (b binding) clone() binding {
	r := binding{}
	for k, v := range b {
		r[k] = v
	}
	return r
}

// sameMod: equal up to memory versions
func sameMod(a, b *Poly) bool {
	if a == b {
		return true
	}
	x, y := a.AsAtom(), b.AsAtom()
	if x == nil || y == nil || x.kind != ASel || y.kind != ASel || x.mem.comp != y.mem.comp {
		return false
	}
	return sameMod(x.base, y.base) && sameMod(x.off, y.off)
}

// mayAlias: base addresses read from the same array, at indices that may be equal
func mayAlias(a, b *Poly) bool {
	if sameMod(a, b) {
		return true
	}
	x, y := a.AsAtom(), b.AsAtom()
	return x != nil && y != nil && x.kind == ASel && y.kind == ASel && x.mem.comp == y.mem.comp && mayAlias(x.base, y.base)
}

// match extends bd so that pattern p equals g; false when they do not match.
func matchPoly(p, g *Poly, bd binding, isV map[*Atom]bool, loose bool) bool {
	if p.hasBnd && len(bd) > 0 {
		p = NewSubst(bd).Poly(p)
	}
	if !p.hasBnd {
		return sameMod(p, g) || loose
	}
	// p = (+-)v + rest with rest ground
	var lin *Atom
	var coef int
	n := 0
	for _, t := range p.ts {
		for _, a := range t.m.as {
			if !a.hasBnd {
				continue
			}
			n++
			if isV[a] && len(t.m.as) == 1 && t.c.CmpAbs(bi(1)) == 0 {
				lin, coef = a, t.c.Sign()
			} else {
				lin = nil
			}
		}
	}
	if n == 1 && lin != nil {
		rest := p.Sub(lin.P().Scale(bi(int64(coef))))
		x := g.Sub(rest)
		if coef < 0 {
			x = x.Neg()
		}
		if x.hasBnd {
			return false
		}
		bd[lin] = x
		return true
	}
	// p = v*m with m ground
	if len(p.ts) == 1 && n == 1 && len(p.ts[0].m.as) > 1 && p.ts[0].c.Cmp(bi(1)) == 0 {
		var v *Atom
		m := Const(1)
		for _, a := range p.ts[0].m.as {
			if isV[a] {
				v = a
			} else {
				m = m.Mul(a.P())
			}
		}
		if x := quotMono(g, m.ts[0].m.as); v != nil && x != nil && !x.hasBnd {
			bd[v] = x
			return true
		}
		return false
	}
	x, y := p.AsAtom(), g.AsAtom()
	if x != nil && y != nil && x.kind == y.kind {
		switch x.kind {
		case ASel:
			if x.mem.comp != y.mem.comp {
				return false
			}
			return matchPoly(x.base, y.base, bd, isV, false) && matchPoly(x.off, y.off, bd, isV, loose)
		case AApp:
			if x.name != y.name || len(x.args) != len(y.args) {
				return false
			}
			for i := range x.args {
				if !matchPoly(x.args[i], y.args[i], bd, isV, loose) {
					return false
				}
			}
			return true
		}
	}
	// off-header plus index: pattern  S(...)+k  after the base was matched
	return false
}

func (p *pat) match(g ground, bd0 binding, isV map[*Atom]bool) (binding, bool) {
	bd := bd0.clone()
	if p.kind == "R" {
		b := p.base
		if b.hasBnd && len(bd) > 0 {
			b = NewSubst(bd).Poly(b)
		}
		if !b.hasBnd {
			if !mayAlias(b, g.base) {
				return nil, false
			}
		} else if !matchPoly(b, g.base, bd, isV, false) {
			return nil, false
		}
		if !matchPoly(p.off, g.off, bd, isV, true) {
			return nil, false
		}
		return bd, true
	}
	if len(p.args) != len(g.args) {
		return nil, false
	}
	for i := range p.args {
		if !matchPoly(p.args[i], g.args[i], bd, isV, true) {
			return nil, false
		}
	}
	return bd, true
}

const maxEInst = 2500

func (q *query) ematch(rounds int, fallback bool) {
	c := newCollector()
	gs := &groundSet{by: map[string][]ground{}, seen: map[string]bool{}}
	nA := 0
	for r := 0; r < rounds; r++ {
		a0, b0, m0 := len(c.atoms), len(c.bools), len(c.mems)
		for ; nA < len(q.asserts); nA++ {
			c.bool(q.asserts[nA])
		}
		gs.collect(c, a0, b0, m0)
		for _, l := range gs.by {
			sort.SliceStable(l, func(i, j int) bool { return l[i].key < l[j].key })
		}
		before := len(q.asserts)
		fs := q.foralls
		for _, f := range fs {
			q.ematchOne(f, gs)
		}
		if len(q.asserts) == before && len(q.foralls) == len(fs) {
			break
		}
	}
	// nothing to match: the ends of the ranges, for parts that do not depend on the index
	if fallback {
		for _, f := range q.foralls {
			q.ematchEnds(f)
		}
	}
}

func (q *query) ematchEnds(f *Bool) {
	p := strconv.Itoa(f.id) + ";"
	for k := range q.instSet {
		if strings.HasPrefix(k, p) {
			return
		}
	}
	if f.args[0].kind != BOr {
		return
	}
	var rec func(bd binding, i int)
	rec = func(bd binding, i int) {
		if i == len(f.vars) {
			q.inst(f, bd)
			return
		}
		v := f.vars[i]
		set := map[*Poly]bool{}
		s := NewSubst(bd)
		for _, l := range f.args[0].args {
			if e := lowerGuard(l, v); e != nil {
				if e = s.Poly(e); !e.hasBnd {
					set[e] = true
				}
			}
		}
		for _, x := range sortedPolys(set) {
			b2 := bd.clone()
			b2[v] = x
			rec(b2, i+1)
		}
	}
	rec(binding{}, 0)
}

func (q *query) ematchOne(f *Bool, gs *groundSet) {
	ps := patterns(f)
	isV := map[*Atom]bool{}
	covered := map[*Atom]bool{}
	for _, v := range f.vars {
		isV[v] = true
	}
	full := false
	for _, p := range ps {
		for v := range p.vars {
			covered[v] = true
		}
		full = full || len(p.vars) == len(f.vars)
	}
	emit := func(bd binding) {
		if q.nInst > maxEInst {
			return
		}
		m := map[*Atom]*Poly{}
		for _, v := range f.vars {
			m[v] = bd[v]
		}
		q.inst(f, m)
	}
	// variables in no pattern: the ends of their ranges
	var finish func(bd binding, i int)
	finish = func(bd binding, i int) {
		for ; i < len(f.vars); i++ {
			v := f.vars[i]
			if bd[v] != nil {
				continue
			}
			if covered[v] || f.args[0].kind != BOr {
				return
			}
			set := map[*Poly]bool{}
			s := NewSubst(bd)
			for _, l := range f.args[0].args {
				if e := lowerGuard(l, v); e != nil {
					if e = s.Poly(e); !e.hasBnd {
						set[e] = true
					}
				}
				if e := upperGuard(l, v); e != nil {
					if e = s.Poly(e); !e.hasBnd {
						set[e.AddC(-1)] = true
					}
				}
			}
			for _, x := range sortedPolys(set) {
				b2 := bd.clone()
				b2[v] = x
				finish(b2, i+1)
			}
			return
		}
		emit(bd)
	}
	if full {
		for i := range ps {
			p := &ps[i]
			if len(p.vars) != len(f.vars) {
				continue
			}
			for _, g := range gs.by[p.kind+p.name] {
				if bd, ok := p.match(g, binding{}, isV); ok && len(bd) == len(f.vars) {
					emit(bd)
				}
			}
		}
		return
	}
	// several patterns are needed
	tried := map[string]bool{}
	var rec func(bd binding)
	rec = func(bd binding) {
		if q.nInst > maxEInst {
			return
		}
		missing := false
		for v := range covered {
			if bd[v] == nil {
				missing = true
			}
		}
		if !missing {
			finish(bd, 0)
			return
		}
		// the pattern with most unbound variables, ties by fewest of all
		bi := -1
		bn := 0
		for i := range ps {
			n := 0
			for v := range ps[i].vars {
				if bd[v] == nil {
					n++
				}
			}
			if n > bn {
				bi, bn = i, n
			}
		}
		if bi < 0 {
			return
		}
		// all patterns that bind the same number of variables are alternatives
		for i := range ps {
			n := 0
			for v := range ps[i].vars {
				if bd[v] == nil {
					n++
				}
			}
			if n != bn {
				continue
			}
			for _, g := range gs.by[ps[i].kind+ps[i].name] {
				b2, ok := ps[i].match(g, bd, isV)
				if !ok || len(b2) == len(bd) {
					continue
				}
				var sb strings.Builder
				for _, v := range f.vars {
					if x := b2[v]; x != nil {
						sb.WriteString(strconv.Itoa(x.id))
					}
					sb.WriteByte(';')
				}
				if tried[sb.String()] {
					continue
				}
				tried[sb.String()] = true
				rec(b2)
			}
		}
	}
	rec(binding{})
}

// quotMono divides every term of g by the product of the given atoms, or returns nil.
func quotMono(g *Poly, as []*Atom) *Poly {
	r := Const(0)
	for _, t := range g.ts {
		rest := append([]*Atom{}, t.m.as...)
		for _, a := range as {
			ok := false
			for i, b := range rest {
				if a == b {
					rest = append(rest[:i], rest[i+1:]...)
					ok = true
					break
				}
			}
			if !ok {
				return nil
			}
		}
		q := ConstB(t.c)
		for _, b := range rest {
			q = q.Mul(b.P())
		}
		r = r.Add(q)
	}
	return r
}
