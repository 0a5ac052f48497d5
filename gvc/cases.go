package main

import (
	"sort"
	"time"
)

// Case distinction on the conditions of merged control flow. After a join, a value that
// differs between the incoming paths is an if-then-else term; matching quantified facts
// against such terms is weak. For an obligation that is not proved directly, the
// conditions occurring in it are decided both ways and each case is proved separately.

type caseSub struct {
	lit map[*Bool]*Bool
	pc  map[*Poly]*Poly
	bc  map[*Bool]*Bool
	mc  map[*Mem]*Mem
}

func newCaseSub(conds []*Bool, bits int) *caseSub {
	s := &caseSub{map[*Bool]*Bool{}, map[*Poly]*Poly{}, map[*Bool]*Bool{}, map[*Mem]*Mem{}}
	for i, c := range conds {
		v := bits>>uint(i)&1 == 1
		s.lit[c], s.lit[Not(c)] = boolOf(v), boolOf(!v)
	}
	return s
}

func boolOf(v bool) *Bool {
	if v {
		return True
	}
	return False
}

func (s *caseSub) Poly(p *Poly) *Poly {
	if r, ok := s.pc[p]; ok {
		return r
	}
	res := Const(0)
	for _, t := range p.ts {
		x := ConstB(t.c)
		for _, a := range t.m.as {
			x = x.Mul(s.Atom(a))
		}
		res = res.Add(x)
	}
	s.pc[p] = res
	return res
}

func (s *caseSub) Atom(a *Atom) *Poly {
	switch a.kind {
	case ASel:
		m, b, o := s.Mem(a.mem), s.Poly(a.base), s.Poly(a.off)
		if m == a.mem && b == a.base && o == a.off {
			return a.P()
		}
		return m.Read(b, o)
	case AInd:
		return Ind(s.Bool(a.b))
	case ADiv:
		return DivC(s.Poly(a.p), a.c)
	case ADivV:
		return DivV(s.Poly(a.p), s.Poly(a.q))
	case AApp:
		args := make([]*Poly, len(a.args))
		for i := range args {
			args[i] = s.Poly(a.args[i])
		}
		return App(a.name, a.lo, a.hi, args...)
	case AIte:
		return IteP(s.Bool(a.b), s.Poly(a.p), s.Poly(a.q))
	}
	return a.P()
}

func (s *caseSub) Mem(m *Mem) *Mem {
	if r, ok := s.mc[m]; ok {
		return r
	}
	r := m
	switch m.kind {
	case MStore:
		a, b, c, d := s.Mem(m.m), s.Poly(m.base), s.Poly(m.off), s.Poly(m.val)
		if a != m.m || b != m.base || c != m.off || d != m.val {
			r = a.Store(b, c, d)
		}
	case MSetRow:
		a, b := s.Mem(m.m), s.Poly(m.base)
		if a != m.m || b != m.base {
			r = a.SetRow(b, m.row)
		}
	case MIte:
		r = IteM(s.Bool(m.c), s.Mem(m.m), s.Mem(m.m2))
	}
	s.mc[m] = r
	return r
}

func (s *caseSub) Bool(b *Bool) *Bool {
	if r, ok := s.lit[b]; ok {
		return r
	}
	if r, ok := s.bc[b]; ok {
		return r
	}
	r := b
	switch b.kind {
	case BGe0:
		r = Ge0(s.Poly(b.p))
	case BEq0:
		r = Eq0(s.Poly(b.p))
	case BCong:
		r = Cong(s.Poly(b.p), s.Poly(b.q))
	case BNot:
		r = Not(s.Bool(b.args[0]))
	case BAnd, BOr:
		args := make([]*Bool, len(b.args))
		for i := range args {
			args[i] = s.Bool(b.args[i])
		}
		if b.kind == BAnd {
			r = And(args...)
		} else {
			r = Or(args...)
		}
	case BApp:
		args := make([]*Poly, len(b.pargs))
		for i := range args {
			args[i] = s.Poly(b.pargs[i])
		}
		r = BoolApp(b.name, args...)
	case BForall:
		body := s.Bool(b.args[0])
		if body != b.args[0] {
			r = Forall(b.vars, body)
		}
	}
	s.bc[b] = r
	return r
}

// joinConds lists the conditions of if-then-else terms in a formula.
func joinConds(g *Bool) []*Bool {
	n := map[*Bool]int{}
	seen := map[interface{}]bool{}
	var fb func(*Bool)
	var fp func(*Poly)
	var fm func(*Mem)
	var note func(c *Bool)
	note = func(c *Bool) {
		if c.hasBnd {
			return
		}
		switch c.kind {
		case BNot:
			note(Not(c))
		case BAnd, BOr:
			for _, a := range c.args {
				note(a)
			}
		default:
			n[c]++
		}
	}
	fp = func(p *Poly) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		for _, t := range p.ts {
			for _, a := range t.m.as {
				if seen[a] {
					continue
				}
				seen[a] = true
				fp(a.base)
				fp(a.off)
				fp(a.p)
				fp(a.q)
				for _, q := range a.args {
					fp(q)
				}
				if a.mem != nil {
					fm(a.mem)
				}
				if a.b != nil {
					if a.kind == AIte || a.kind == AInd {
						note(a.b)
					}
					fb(a.b)
				}
			}
		}
	}
	fm = func(m *Mem) {
		if m == nil || seen[m] {
			return
		}
		seen[m] = true
		if m.kind == MIte {
			note(m.c)
			fb(m.c)
		}
		fm(m.m)
		fm(m.m2)
		fp(m.base)
		fp(m.off)
		fp(m.val)
	}
	fb = func(b *Bool) {
		if b == nil || seen[b] {
			return
		}
		seen[b] = true
		fp(b.p)
		fp(b.q)
		for _, a := range b.args {
			fb(a)
		}
		for _, q := range b.pargs {
			fp(q)
		}
	}
	fb(g)
	var out []*Bool
	for c := range n {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool {
		if n[out[i]] != n[out[j]] {
			return n[out[i]] > n[out[j]]
		}
		return out[i].String() < out[j].String()
	})
	return out
}

// proveByCases tries to prove goal separately under every decision of its join conditions.
func proveByCases(hyps []*Bool, goal *Bool, to time.Duration) (Result, bool) {
	cs := joinConds(goal)
	if len(cs) == 0 {
		return Result{}, false
	}
	if len(cs) > 3 {
		cs = cs[:3]
	}
	var last Result
	for bits := 0; bits < 1<<uint(len(cs)); bits++ {
		s := newCaseSub(cs, bits)
		g := s.Bool(goal)
		if g == True {
			continue
		}
		hs := make([]*Bool, 0, len(hyps)+len(cs))
		for _, h := range hyps {
			if k := s.Bool(h); k != True {
				hs = append(hs, k)
			}
		}
		for i, c := range cs {
			if bits>>uint(i)&1 == 1 {
				hs = append(hs, c)
			} else {
				hs = append(hs, Not(c))
			}
		}
		r := proveBatch(hs, []*Bool{g}, to, false)[0]
		r.dur += last.dur
		if !r.ok {
			return r, false
		}
		last = r
	}
	if last.backend == "" {
		last.backend = "simplifier"
	}
	last.ok = true
	return last, true
}
