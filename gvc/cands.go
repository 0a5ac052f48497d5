package main

// Candidate loop invariants derived from the root contract: partial versions
// of its quantified postconditions ("done so far"), the untouched rest of its
// modification targets, and its frame.  All candidates go through Houdini:
// only those proved to hold on entry and to be preserved are ever assumed.

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// headForall: number of variables of the outermost quantifier of a clause.
func (x *Exec) headForall(e ast.Expr) int {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.headForall(n.X)
	case *ast.CallExpr:
		id, ok := n.Fun.(*ast.Ident)
		if !ok {
			return 0
		}
		if id.Name == "forall" {
			return (len(n.Args) - 1) / 3
		}
		if id.Name == "imp" {
			return x.headForall(n.Args[1])
		}
		if id.Name == "let" {
			return x.headForall(n.Args[2])
		}
		if m := x.reg.macros[id.Name]; m != nil {
			return x.headForall(m.body)
		}
	}
	return 0
}

// progress of one integer phi, as seen from a loop body
type prog struct {
	name string
	asc  bool
	cur  func(ph map[string]Val) *Poly // index being processed
	own  bool
	step int64 // constant increment, 0 if unknown
}

func (p prog) ov(ph map[string]Val) rangeOv {
	if p.asc {
		return rangeOv{hi: p.cur(ph)}
	}
	return rangeOv{lo: p.cur(ph).AddC(1)}
}

func (p prog) rest(ph map[string]Val) rangeOv {
	if p.asc {
		return rangeOv{lo: p.cur(ph)}
	}
	return rangeOv{hi: p.cur(ph).AddC(1)}
}

func (x *Exec) progs(phis []*ssa.Phi, infos []phiInfo, idx map[*ssa.Phi]int) []prog {
	var out []prog
	mk := func(name string, pi phiInfo, get func(ph map[string]Val) *Poly, own bool) {
		d := int64(0)
		if k, ok := pi.init.IsConst(); ok && k.Cmp(bi(-1)) == 0 {
			d = 1
		}
		up, down := phiDirection(pi.ph)
		cur := func(ph map[string]Val) *Poly { return get(ph).AddC(d) }
		if up {
			out = append(out, prog{name, true, cur, own, phiStep(pi.ph)})
		}
		if down {
			out = append(out, prog{name + "↓", false, cur, own, -phiStep(pi.ph)})
		}
	}
	for _, pi := range infos {
		i := idx[pi.ph]
		mk(fmt.Sprintf("phi%d(%s)", i, pi.name), pi, func(ph map[string]Val) *Poly { return ph[phiKey(i)].(IntV).p }, true)
	}
	for l, enc := range x.loopPhis {
		for k, pi := range enc {
			v := pi.v
			mk(fmt.Sprintf("outer%d.%d(%s)", l, k, pi.name), pi, func(map[string]Val) *Poly { return v }, false)
		}
	}
	return out
}

// phiStep: the constant added to a phi in each iteration.
func phiStep(p *ssa.Phi) int64 {
	step := int64(0)
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok && b.X == ssa.Value(p) {
			if c, isC := b.Y.(*ssa.Const); isC && isInt(c.Type()) && c.Value != nil {
				k := c.Int64()
				if b.Op.String() == "-" {
					k = -k
				}
				if step != 0 && step != k {
					return 0
				}
				step = k
			}
		}
	}
	return step
}

func phiDirection(p *ssa.Phi) (up, down bool) {
	for _, e := range p.Edges {
		if b, ok := e.(*ssa.BinOp); ok {
			c, isC := b.Y.(*ssa.Const)
			if isC && isInt(c.Type()) && c.Value != nil {
				k := c.Int64()
				if b.Op.String() == "-" {
					k = -k
				}
				if k > 0 {
					up = true
				} else if k < 0 {
					down = true
				}
			} else if b.Op.String() == "+" {
				up = true
			}
		}
	}
	if !up && !down {
		up = true
	}
	return
}

func ovKey(m map[int]string) string {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var s []string
	for _, k := range ks {
		s = append(s, strconv.Itoa(k)+":"+m[k])
	}
	return strings.Join(s, ",")
}

func (x *Exec) laneCands(fr *frame, lp *loop, phis []*ssa.Phi, infos []phiInfo, idx map[*ssa.Phi]int, add func(key string, f func(st *State, ph map[string]Val) *Bool), st0, hst *State, rec []writeRec) {
	if x.root == nil || x.env == nil {
		return
	}
	ps := x.progs(phis, infos, idx)
	envs := x.resultEnvs(fr)
	clauses := append(append([]Clause{}, x.root.ensures...), x.root.loopinv...)
	for ci, c := range clauses {
		nv := x.headForall(c.e)
		if nv == 0 || c.conc {
			continue
		}
		c := c
		for ei, env := range envs {
			env := env
			mk := func(names map[int]string, ovf func(ph map[string]Val) map[int]rangeOv) {
				add(fmt.Sprintf("lane%d.%d[%s] %s", ci, ei, ovKey(names), c.text), func(st *State, ph map[string]Val) *Bool {
					e := &Env{vars: map[string]Val{}, up: env}
					e.over = &foralOver{ov: ovf(ph)}
					return x.evalBool(c.e, e, st, x.entry)
				})
			}
			mk(map[int]string{}, func(map[string]Val) map[int]rangeOv { return nil })
			for v := 0; v < nv; v++ {
				v := v
				for _, p := range ps {
					p := p
					mk(map[int]string{v: "<" + p.name}, func(ph map[string]Val) map[int]rangeOv { return map[int]rangeOv{v: p.ov(ph)} })
				}
			}
			if nv >= 2 {
				for v := 0; v < nv; v++ {
					for w := 0; w < nv; w++ {
						if v == w {
							continue
						}
						v, w := v, w
						for _, e := range ps {
							for _, p := range ps {
								if e.name == p.name || !p.own {
									continue
								}
								e, p := e, p
								mk(map[int]string{v: "=" + e.name, w: "<" + p.name}, func(ph map[string]Val) map[int]rangeOv {
									return map[int]rangeOv{v: {fix: e.cur(ph)}, w: p.ov(ph)}
								})
								// a block of an unrolled outer loop
								if e.asc && e.step > 1 {
									mk(map[int]string{v: "#" + e.name, w: "<" + p.name}, func(ph map[string]Val) map[int]rangeOv {
										return map[int]rangeOv{v: {lo: e.cur(ph), hi: e.cur(ph).AddC(e.step)}, w: p.ov(ph)}
									})
								}
							}
						}
					}
				}
			}
		}
	}
	x.accCands(fr, phis, ps, add)
	// untouched parts of the modification targets
	tg := x.rootTargets()
	comps := map[string]bool{}
	for _, w := range rec {
		comps[w.comp] = true
	}
	for _, ref := range []*State{x.entry, st0} {
		ref, rtag := ref, ""
		if ref == st0 {
			rtag = "loop "
		}
		// relative to the start of the loop, where that differs from the entry
		differs := func(c string) bool {
			iv := x.compIv[c]
			return ref != st0 || x.getMem(st0, c, iv[0], iv[1]) != x.getMem(x.entry, c, iv[0], iv[1])
		}
		for ti, t := range tg {
			t := t
			switch t.kind {
			case "slice":
				comp := typeKey(t.s.elem)
				for _, l := range leaves(t.s.elem) {
					if !comps[comp+l.path] || !differs(comp+l.path) {
						continue
					}
					l := l
					for _, p := range ps {
						p := p
						add(fmt.Sprintf(rtag+"rest%d%s[%s]", ti, l.path, p.name), func(st *State, ph map[string]Val) *Bool {
							k := FreshBoundKey("rest" + comp)
							r := p.rest(ph)
							g := []*Bool{Ge(k.P(), t.lo), Lt(k.P(), t.hi)}
							if r.lo != nil {
								g = append(g, Ge(k.P(), r.lo))
							}
							if r.hi != nil {
								g = append(g, Lt(k.P(), r.hi))
							}
							o := t.s.off.Add(k.P())
							return Forall([]*Atom{k}, Imp(And(g...), Eq(x.rd(st, comp, l, t.s.base, o), x.rd(ref, comp, l, t.s.base, o))))
						})
					}
				}
			case "rows":
				el := t.s.elem
				ec := typeKey(el.Underlying().(*types.Slice).Elem())
				if !comps[ec] || !differs(ec) {
					continue
				}
				row := func(r *Poly) SliceV {
					return x.load(x.entry, PtrV{comp: typeKey(el), base: t.s.base, off: t.s.off.Add(r), elem: el}, el).(SliceV)
				}
				unchanged := func(st *State, r *Poly, lo, hi *Poly) *Bool {
					k := FreshBoundKey("restk")
					s := row(r)
					g := []*Bool{Ge0(k.P()), Lt(k.P(), s.len)}
					if lo != nil {
						g = append(g, Ge(k.P(), lo))
					}
					if hi != nil {
						g = append(g, Lt(k.P(), hi))
					}
					o := s.off.Add(k.P())
					l := leaves(el.Underlying().(*types.Slice).Elem())[0]
					return Forall([]*Atom{k}, Imp(And(g...), Eq(x.rd(st, ec, l, s.base, o), x.rd(ref, ec, l, s.base, o))))
				}
				for _, p := range ps {
					p := p
					if len(ps) > 1 || x.hasInner(fr, lp) {
						// columns not yet reached, in all rows
						for _, d := range []int64{0, p.step} {
							d := d
							if !p.asc || d != 0 && p.own {
								continue
							}
							add(fmt.Sprintf(rtag+"restcols%d+%d[%s]", ti, d, p.name), func(st *State, ph map[string]Val) *Bool {
								r := FreshBoundKey("restr")
								return Forall([]*Atom{r}, Imp(And(Ge(r.P(), t.lo), Lt(r.P(), t.hi)), unchanged(st, r.P(), p.cur(ph).AddC(d), nil)))
							})
						}
						for _, e := range ps {
							e := e
							if e.name == p.name || !p.own || !e.asc {
								continue
							}
							add(fmt.Sprintf(rtag+"restblock%d[%s][%s]", ti, p.name, e.name), func(st *State, ph map[string]Val) *Bool {
								r := FreshBoundKey("restr")
								ov := p.rest(ph)
								g := []*Bool{Ge(r.P(), t.lo), Lt(r.P(), t.hi)}
								if ov.lo != nil {
									g = append(g, Ge(r.P(), ov.lo))
								}
								if ov.hi != nil {
									g = append(g, Lt(r.P(), ov.hi))
								}
								return Forall([]*Atom{r}, Imp(And(g...), unchanged(st, r.P(), e.cur(ph), nil)))
							})
						}
					}
					add(fmt.Sprintf(rtag+"restrows%d[%s]", ti, p.name), func(st *State, ph map[string]Val) *Bool {
						r := FreshBoundKey("restr")
						ov := p.rest(ph)
						g := []*Bool{Ge(r.P(), t.lo), Lt(r.P(), t.hi)}
						if ov.lo != nil {
							g = append(g, Ge(r.P(), ov.lo))
						}
						if ov.hi != nil {
							g = append(g, Lt(r.P(), ov.hi))
						}
						return Forall([]*Atom{r}, Imp(And(g...), unchanged(st, r.P(), nil, nil)))
					})
					if !p.own {
						add(fmt.Sprintf(rtag+"restrows>%d[%s]", ti, p.name), func(st *State, ph map[string]Val) *Bool {
							r := FreshBoundKey("restr")
							ov := p.rest(ph)
							g := []*Bool{Ge(r.P(), t.lo), Lt(r.P(), t.hi)}
							if ov.lo != nil {
								g = append(g, Ge(r.P(), ov.lo.AddC(1)))
							}
							if ov.hi != nil {
								g = append(g, Lt(r.P(), ov.hi.AddC(-1)))
							}
							return Forall([]*Atom{r}, Imp(And(g...), unchanged(st, r.P(), nil, nil)))
						})
					}
					for _, e := range ps {
						if e.name == p.name || !p.own {
							continue
						}
						e := e
						add(fmt.Sprintf(rtag+"restrow%d[%s][%s]", ti, e.name, p.name), func(st *State, ph map[string]Val) *Bool {
							ov := p.rest(ph)
							c := e.cur(ph)
							return Imp(And(Ge(c, t.lo), Lt(c, t.hi)), unchanged(st, c, ov.lo, ov.hi))
						})
					}
				}
			}
		}
	}
	// frame
	var cs []string
	for c := range comps {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		c := c
		add("frame "+c, func(st *State, ph map[string]Val) *Bool { return x.frameGoal(c, st, tg, "inv") })
		// what the function allocated before the loop is not written by it
		if la := x.loopAlloc; la != nil {
			add("fresh frame "+c, func(st *State, ph map[string]Val) *Bool {
				iv := x.compIv[c]
				cur, ent := x.getMem(st, c, iv[0], iv[1]), x.getMem(st0, c, iv[0], iv[1])
				if cur == ent {
					return True
				}
				b, o := FreshBoundKey("fbfresh"), FreshBoundKey("fofresh")
				return Forall([]*Atom{b, o}, Or(Lt(b.P(), x.alloc0), Ge(b.P(), la), Eq(cur.Read(b.P(), o.P()), ent.Read(b.P(), o.P()))))
			})
		}
	}
}

var bndKey = map[string]*Atom{}

func FreshBoundKey(k string) *Atom {
	if bndKey[k] == nil {
		bndKey[k] = FreshBound(k)
	}
	return bndKey[k]
}

// resultEnvs: environments in which `result…` denotes a value that is live at
// the loop and is returned later.
func (x *Exec) resultEnvs(fr *frame) []*Env {
	out := []*Env{x.env}
	if fr.fn != x.rootFn {
		return out
	}
	res := fr.fn.Signature.Results()
	if res.Len() == 0 {
		return out
	}
	e := &Env{vars: map[string]Val{}, up: x.env}
	found := false
	for _, b := range fr.fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, v := range r.Results {
			if val, ok := fr.regs[v]; ok {
				found = true
				e.vars["result"+strconv.Itoa(i)] = val
				if i == 0 {
					e.vars["result"] = val
				}
				n := res.At(i).Name()
				if i < len(x.root.resNames) {
					n = x.root.resNames[i]
				}
				if n != "" && n != "_" {
					e.vars[n] = val
				}
			}
		}
	}
	if found {
		out = []*Env{e}
	}
	return out
}

func (x *Exec) rootTargets() []target {
	if x.targets == nil {
		x.targets = []target{}
		if x.root != nil {
			for _, m := range x.root.modifies {
				x.targets = append(x.targets, x.evalTarget(m.e, x.env, x.entry)...)
			}
		}
	}
	return x.targets
}

// inTarget: cell (b,o) of component comp may be modified.
func (x *Exec) inTarget(comp string, tg []target, b, o *Poly) *Bool {
	r := False
	for _, t := range tg {
		switch t.kind {
		case "slice":
			for _, l := range leaves(t.s.elem) {
				if typeKey(t.s.elem)+l.path == comp {
					r = Or(r, And(Eq(b, t.s.base), Ge(o, t.s.off.Add(t.lo)), Lt(o, t.s.off.Add(t.hi))))
				}
			}
		case "rows":
			el := t.s.elem.Underlying().(*types.Slice).Elem()
			for _, l := range leaves(el) {
				if typeKey(el)+l.path == comp {
					r = Or(r, And(Eq(rowOwner(b), t.s.base), Ge(rowIdx(b), t.s.off.Add(t.lo)), Lt(rowIdx(b), t.s.off.Add(t.hi))))
				}
			}
		case "field":
			for _, l := range leaves(t.ft) {
				if t.p.comp+l.path == comp {
					r = Or(r, And(Eq(b, t.p.base), Eq(o, t.p.off)))
				}
			}
		}
	}
	return r
}

func (x *Exec) frameGoal(comp string, st *State, tg []target, tag string) *Bool {
	iv := x.compIv[comp]
	cur := x.getMem(st, comp, iv[0], iv[1])
	ent := x.getMem(x.entry, comp, iv[0], iv[1])
	if cur == ent {
		return True
	}
	b, o := FreshBoundKey("fb"+tag), FreshBoundKey("fo"+tag)
	return Forall([]*Atom{b, o}, Or(x.inTarget(comp, tg, b.P(), o.P()), Ge(b.P(), x.alloc0), Eq(cur.Read(b.P(), o.P()), ent.Read(b.P(), o.P()))))
}

// userCands: loop invariants suggested by the contract; phi1, phi2, … range
// over the integer loop variables in scope.
func (x *Exec) userCands(fr *frame, lp *loop, phis []*ssa.Phi, infos []phiInfo, idx map[*ssa.Phi]int, add func(key string, f func(st *State, ph map[string]Val) *Bool), st0, hst *State) {
	if x.root == nil {
		return
	}
	type src struct {
		name string
		get  func(ph map[string]Val) *Poly
		own  bool
	}
	var ss []src
	for _, pi := range infos {
		i := idx[pi.ph]
		ss = append(ss, src{fmt.Sprintf("phi%d(%s)", i, pi.name), func(ph map[string]Val) *Poly { return ph[phiKey(i)].(IntV).p }, true})
	}
	for l, enc := range x.loopPhis {
		for k, pi := range enc {
			v := pi.v
			ss = append(ss, src{fmt.Sprintf("outer%d.%d(%s)", l, k, pi.name), func(map[string]Val) *Poly { return v }, false})
		}
	}
	// instances of proved lemmas at the current values of the loop variables
	hv := map[string]Val{}
	for _, pi := range infos {
		hv[phiKey(idx[pi.ph])] = IntV{pi.v}
	}
	for _, c := range x.root.loopLem {
		n := 0
		for strings.Contains(c.text, fmt.Sprintf("phi%d", n+1)) {
			n++
		}
		var rec func(k int, sel []int)
		rec = func(k int, sel []int) {
			if k == n {
				e := &Env{vars: map[string]Val{}, up: x.env}
				for j, s := range sel {
					e.vars[fmt.Sprintf("phi%d", j+1)] = IntV{ss[s].get(hv)}
				}
				if b := x.tryEvalBool(c, e, hst); b != nil {
					x.facts = append(x.facts, b)
					x.trusted["lemma "+c.text] = true
				}
				return
			}
			for s := range ss {
				dup := false
				for _, t := range sel {
					dup = dup || t == s
				}
				if !dup {
					rec(k+1, append(append([]int{}, sel...), s))
				}
			}
		}
		rec(0, nil)
	}
	// sphi ranges over the slice variables of this loop
	slices := []int{-1}
	for _, p := range phis {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			slices = append(slices, idx[p])
		}
	}
	for cj := range x.root.loopinv {
		for _, sp := range slices {
			ci, c, sp := cj, x.root.loopinv[cj], sp
			if x.headForall(c.e) > 0 && !strings.Contains(c.text, "phi") {
				continue
			}
			if (sp >= 0) != strings.Contains(c.text, "sphi") {
				continue
			}
			n := 0
			for strings.Contains(c.text, fmt.Sprintf("phi%d", n+1)) {
				n++
			}
			var rec func(k int, sel []int)
			rec = func(k int, sel []int) {
				if k == n {
					own := n == 0 || sp >= 0
					var nm []string
					for _, s := range sel {
						own = own || ss[s].own
						nm = append(nm, ss[s].name)
					}
					if !own {
						return
					}
					sel := append([]int{}, sel...)
					add(fmt.Sprintf("user%d(%s) %s", ci, strings.Join(nm, ","), c.text), func(st *State, ph map[string]Val) *Bool {
						e := &Env{vars: map[string]Val{}, up: x.env}
						for j, s := range sel {
							e.vars[fmt.Sprintf("phi%d", j+1)] = IntV{ss[s].get(ph)}
						}
						if sp >= 0 {
							e.vars["sphi"] = ph[phiKey(sp)]
						}
						return x.evalBool(c.e, e, st, x.entry)
					})
					return
				}
				for s := range ss {
					dup := false
					for _, t := range sel {
						if t == s {
							dup = true
						}
					}
					if !dup {
						rec(k+1, append(sel, s))
					}
				}
			}
			rec(0, nil)
		}
	}
}

var _ = big.NewInt

// foralls lists the quantified subformulas of a clause.
func foralls(e ast.Expr) []*ast.CallExpr {
	var out []*ast.CallExpr
	ast.Inspect(e, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "forall" {
			out = append(out, c)
			return false
		}
		return true
	})
	return out
}

// accCands: loops that accumulate the result of the function in a scalar variable, or
// leave early. The postcondition restricted to the part already visited, with the
// result replaced by the loop variable; and its quantified parts alone.
func (x *Exec) accCands(fr *frame, phis []*ssa.Phi, ps []prog, add func(key string, f func(st *State, ph map[string]Val) *Bool)) {
	if fr.fn != x.rootFn || fr.fn.Signature.Results().Len() == 0 {
		return
	}
	res := fr.fn.Signature.Results()
	for ci, c := range x.root.ensures {
		fs := foralls(c.e)
		if c.conc || len(fs) == 0 || x.headForall(c.e) > 0 && len(fs) == 1 && !mentionsResult(c.e, res, x.root) {
			continue
		}
		c := c
		for fi, f := range fs {
			f := f
			for _, p := range ps {
				p := p
				add(fmt.Sprintf("part%d.%d[<%s] %s", ci, fi, p.name, c.text), func(st *State, ph map[string]Val) *Bool {
					e := &Env{vars: map[string]Val{}, up: x.env}
					e.over = &foralOver{ov: map[int]rangeOv{0: p.ov(ph)}}
					return x.evalBool(f, e, st, x.entry)
				})
			}
		}
		for fi, f := range fs {
			if nv := (len(f.Args) - 1) / 3; nv < 2 {
				continue
			}
			f := f
			for _, e0 := range ps {
				for _, p := range ps {
					if e0.name == p.name || !p.own {
						continue
					}
					e0, p := e0, p
					add(fmt.Sprintf("part%d.%d[=%s,<%s] %s", ci, fi, e0.name, p.name, c.text), func(st *State, ph map[string]Val) *Bool {
						e := &Env{vars: map[string]Val{}, up: x.env}
						e.over = &foralOver{ov: map[int]rangeOv{0: {fix: e0.cur(ph)}, 1: p.ov(ph)}}
						return x.evalBool(f, e, st, x.entry)
					})
				}
			}
		}
		for k := 0; k < res.Len(); k++ {
			for i, phi := range phis {
				if !types.Identical(phi.Type().Underlying(), res.At(k).Type().Underlying()) {
					continue
				}
				if _, ok := phi.Type().Underlying().(*types.Basic); !ok {
					continue
				}
				i, k := i, k
				for _, p := range ps {
					p := p
					add(fmt.Sprintf("acc%d[%d=phi%d,<%s] %s", ci, k, i, p.name, c.text), func(st *State, ph map[string]Val) *Bool {
						v, ok := ph[phiKey(i)]
						if !ok {
							return nil
						}
						e := &Env{vars: map[string]Val{}, up: x.env}
						bindResult(e, x.root, res, k, v)
						e.over = &foralOver{ov: map[int]rangeOv{0: p.ov(ph)}}
						return x.evalBool(c.e, e, st, x.entry)
					})
				}
			}
		}
	}
}

func bindResult(e *Env, c *Contract, res *types.Tuple, k int, v Val) {
	e.vars["result"+strconv.Itoa(k)] = v
	if k == 0 {
		e.vars["result"] = v
	}
	n := res.At(k).Name()
	if k < len(c.resNames) {
		n = c.resNames[k]
	}
	if n != "" && n != "_" {
		e.vars[n] = v
	}
}

func mentionsResult(e ast.Expr, res *types.Tuple, c *Contract) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			found = found || strings.HasPrefix(id.Name, "result")
			for k := 0; k < res.Len(); k++ {
				found = found || id.Name == res.At(k).Name() || k < len(c.resNames) && id.Name == c.resNames[k]
			}
		}
		return !found
	})
	return found
}

// hasInner: some loop is nested in lp.
func (x *Exec) hasInner(fr *frame, lp *loop) bool {
	for _, l := range fr.loops.loops {
		if l != lp && lp.blocks[l.header] {
			return true
		}
	}
	return false
}
