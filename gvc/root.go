package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblRep struct {
	Name    string  `json:"name"`
	Kind    string  `json:"kind"`
	Pos     string  `json:"pos,omitempty"`
	Cfg     string  `json:"config,omitempty"`
	OK      bool    `json:"ok"`
	Backend string  `json:"backend"`
	Ms      float64 `json:"ms"`
	Status  string  `json:"status,omitempty"`
}

type FnReport struct {
	Key      string   `json:"function"`
	File     string   `json:"file"`
	Contract string   `json:"contract"`
	Configs  int      `json:"alias_configurations"`
	Obls     []OblRep `json:"obligations"`
	Unsup    string   `json:"unsupported,omitempty"`
	Vacuous  string   `json:"vacuous,omitempty"`
	Used     []string `json:"contracts_used"`
	Trusted  []string `json:"trusted"`
	Loops    int      `json:"loops"`
	WallS    float64  `json:"wall_s"`
	Missing  bool     `json:"missing,omitempty"`
	Inlined  []string `json:"inlined,omitempty"`
}

func (r *FnReport) Failed() []string {
	var out []string
	if r.Missing {
		out = append(out, r.Key+": function not found in the source tree")
	}
	if r.Unsup != "" {
		out = append(out, r.Key+": outside the verifier's fragment: "+r.Unsup)
	}
	if r.Vacuous != "" {
		out = append(out, r.Key+": vacuous: "+r.Vacuous)
	}
	for _, o := range r.Obls {
		if !o.OK {
			out = append(out, fmt.Sprintf("%s: [%s] %s at %s (%s) %s", r.Key, o.Kind, o.Name, o.Pos, o.Status, o.Cfg))
		}
	}
	return out
}

// one verification run: an aliasing of the operands and a side of each case
type caseRun struct {
	part  []int
	cases int
}

// set partitions of 0..n-1 as class vectors
func partitions(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	var rec func(i, k int, cur []int)
	rec = func(i, k int, cur []int) {
		if i == n {
			out = append(out, append([]int{}, cur...))
			return
		}
		for c := 0; c <= k; c++ {
			nk := k
			if c == k {
				nk = k + 1
			}
			rec(i+1, nk, append(cur, c))
		}
	}
	rec(0, 0, nil)
	return out
}

// configs: how the split parameters are related; -1 is a nil pointer.
func (c *Contract) configs() [][]int {
	var opt []int
	for i, s := range c.split {
		for _, n := range c.nilable {
			if n == s {
				opt = append(opt, i)
			}
		}
	}
	var out [][]int
	for mask := 0; mask < 1<<uint(len(opt)); mask++ {
		isNil := map[int]bool{}
		for k, i := range opt {
			isNil[i] = mask>>uint(k)&1 == 1
		}
		n := 0
		for i := range c.split {
			if !isNil[i] {
				n++
			}
		}
		for _, p := range partitions(n) {
			full, k := make([]int, len(c.split)), 0
			for i := range c.split {
				if isNil[i] {
					full[i] = -1
					continue
				}
				full[i] = p[k]
				k++
			}
			out = append(out, full)
		}
	}
	return out
}

var fnTimeout = 20 * time.Second

func VerifyFn(prog *ssa.Program, reg *Registry, c *Contract, fn *ssa.Function) (rep *FnReport) {
	rep = &FnReport{Key: c.key, Contract: c.file}
	if fn == nil {
		rep.Missing = true
		return
	}
	pp := prog.Fset.Position(fn.Pos())
	rep.File = fmt.Sprintf("%s:%d", shortFile(pp.Filename), pp.Line)
	t0 := time.Now()
	used, trusted, inl := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var runs []caseRun
	for _, part := range c.configs() {
		for m := 0; m < 1<<uint(len(c.cases)); m++ {
			runs = append(runs, caseRun{part, m})
		}
	}
	for _, r := range runs {
		part := r.part
		rep.Configs++
		x := newExec(prog, reg)
		readOffs = map[string]map[*Poly]bool{}
		x.caseBits = r.cases
		err := x.verifyConfig(c, fn, part, rep)
		for k := range x.used {
			used[k] = true
		}
		for k := range x.trusted {
			trusted[k] = true
		}
		for k := range x.inlined {
			inl[k] = true
		}
		rep.Loops += x.nLoops
		if err != "" {
			rep.Unsup = err
			break
		}
	}
	rep.Used, rep.Trusted, rep.Inlined = keys(used), keys(trusted), keys(inl)
	rep.WallS = time.Since(t0).Seconds()
	return
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func newExec(prog *ssa.Program, reg *Registry) *Exec {
	return &Exec{prog: prog, reg: reg, compIv: map[string][2]*bigInt{}, loops: map[string]*loopMem{},
		callCount: map[string]int{}, used: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, linkCache: map[string]bool{}}
}

func (x *Exec) verifyConfig(c *Contract, fn *ssa.Function, part []int, rep *FnReport) (err string) {
	deepFrames = c.deepFrames
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = u.msg
				return
			}
			if os.Getenv("GVC_PANIC") != "" {
				panic(r)
			}
			err = fmt.Sprintf("internal error of the verifier: %v", r)
		}
	}()
	cfg := ""
	for i := 0; i < len(part); i++ {
		if part[i] < 0 {
			cfg += c.split[i] + "=nil "
		}
		for j := i + 1; j < len(part); j++ {
			if part[i] == part[j] && part[i] >= 0 {
				cfg += c.split[i] + "=" + c.split[j] + " "
			}
		}
	}
	for i, cs := range c.cases {
		if x.caseBits>>uint(i)&1 == 0 {
			cfg += "not "
		}
		cfg += cs.text + " "
	}
	cfg = strings.TrimSpace(cfg)
	x.cfg = c.key + "{" + cfg + "}"
	x.root, x.rootFn = c, fn
	x.alloc0 = FreshAlloc()
	st := &State{mem: map[string]*Mem{}}
	x.entry = st.clone()
	env := &Env{vars: map[string]Val{}}
	var args []Val
	byName := map[string]int{}
	for i, p := range fn.Params {
		n := p.Name()
		if i < len(c.parNames) {
			n = strings.TrimSpace(c.parNames[i])
		}
		pt := p.Type()
		for _, d := range c.dyns {
			if d[0] == n {
				if pt = x.typeNamed(d[1]); pt == nil {
					return "dyn: no type " + d[1]
				}
			}
		}
		v := x.named(pt, x.cfg+"."+p.Name())
		args = append(args, v)
		byName[n] = i
		env.vars[n] = v
	}
	// alias classes
	for i := range c.split {
		pi, ok := byName[c.split[i]]
		if !ok {
			return "split: no parameter " + c.split[i]
		}
		if part[i] < 0 {
			p, ok := args[pi].(PtrV)
			if !ok {
				return "split: nil for a parameter that is not a pointer"
			}
			p.base, p.off = Const(0), Const(0)
			args[pi] = p
			env.vars[c.split[i]] = p
			continue
		}
		for j := 0; j < i; j++ {
			pj := byName[c.split[j]]
			if part[i] == part[j] {
				switch a := args[pj].(type) {
				case PtrV:
					args[pi] = a
				case SliceV:
					b := args[pi].(SliceV)
					args[pi] = SliceV{a.base, a.off, b.len, b.cap, b.elem}
				}
				env.vars[c.split[i]] = args[pi]
				break
			}
		}
	}
	for i := range c.split {
		for j := 0; j < i; j++ {
			if part[i] == part[j] || part[i] < 0 || part[j] < 0 {
				continue
			}
			a, b := args[byName[c.split[i]]], args[byName[c.split[j]]]
			switch av := a.(type) {
			case PtrV:
				bv := b.(PtrV)
				x.distinct(av.base, bv.base)
				if x.isPoly(av) {
					x.distinct(x.selField(av, "Coeffs", x.entry).(SliceV).base, x.selField(bv, "Coeffs", x.entry).(SliceV).base)
				}
			case SliceV:
				x.distinct(av.base, b.(SliceV).base)
			}
		}
	}
	x.env = env
	x.addLets(c, env, x.entry)
	nilable := map[int]bool{}
	for _, n := range c.nilable {
		i, ok := byName[n]
		if !ok {
			return "nilable: no parameter " + n
		}
		nilable[i] = true
	}
	for i := range c.split {
		if part[i] >= 0 {
			nilable[byName[c.split[i]]] = false
		}
	}
	for i, a := range args {
		if p, ok := a.(PtrV); ok && !nilable[i] {
			x.facts = append(x.facts, Ge(p.base, Const(1)))
		} else if ok {
			x.facts = append(x.facts, Or(Ge(p.base, Const(1)), Eq0(p.off)))
		}
	}
	for _, f := range c.fixed {
		if err := x.fix(f, env, st); err != "" {
			return err
		}
	}
	for _, r := range c.requires {
		b := x.evalBool(r.e, env, st, x.entry)
		x.addFact(st, b)
		noteDistinct(b)
	}
	for i, cs := range c.cases { // each run takes one side; together they are exhaustive
		b := x.evalBool(cs.e, env, st, x.entry)
		if x.caseBits>>uint(i)&1 == 0 {
			b = Not(b)
		}
		x.caseLits = append(x.caseLits, b)
		x.addFact(st, b)
	}
	for _, l := range c.lemmas {
		if b := x.tryEvalBool(l, env, st); b != nil {
			x.facts = append(x.facts, b)
			x.trusted["lemma "+l.text] = true
		}
	}
	for _, g := range c.ghosts {
		p := x.evalInt(g.e, env, st, x.entry)
		x.links = append(x.links, p)
	}
	// the requirements must be satisfiable
	if len(c.requires) > 0 {
		if r := proveBatch(x.facts, []*Bool{False}, 1500*time.Millisecond, true); r[0].ok {
			rep.Vacuous = "requires clauses are contradictory {" + cfg + "}"
			return ""
		}
	}
	if x.rootTargets(); c.modAll {
		x.targets = nil
	}
	for _, d := range c.dyns {
		if i, ok := byName[d[0]]; ok {
			t := x.typeNamed(d[1])
			iv := IfaceV{t: typeConst(types.TypeString(t, qual)), x: FreshVar("iface", nil, nil), dyn: args[i], dynT: t}
			if p, ok := args[i].(PtrV); ok {
				iv.x = p.base
			}
			args[i] = iv
		}
	}
	rs, end := x.callBody(fn, args, nil, st.clone(), "")
	if !end.dead {
		x.bindResults(c, fn.Signature, env, rs)
		for _, v := range rs {
			x.claimRow(end, PtrV{}, v) // a returned slice is held by no slice of slices
		}
		for _, l := range c.lemmas {
			if b := x.tryEvalBool(l, env, end); b != nil {
				x.facts = append(x.facts, b)
			}
		}
		for _, e := range c.ensures {
			if e.names {
				continue
			}
			b := x.evalBool(e.e, env, end, x.entry)
			x.oblige(end, "ensures", e.text, fn.Pos(), b)
		}
		for _, f := range c.fresh {
			v := x.eval(f.e, env, end, x.entry)
			var b *Poly
			switch a := v.(type) {
			case SliceV:
				b = a.base
			case PtrV:
				b = a.base
			default:
				unsup("fresh %s", f.text)
			}
			x.oblige(end, "fresh", f.text+" is freshly allocated", fn.Pos(), Ge(b, x.alloc0))
		}
		if !c.modAll {
			var cs []string
			for k := range end.mem {
				cs = append(cs, k)
			}
			sort.Strings(cs)
			for _, k := range cs {
				g := x.frameGoal(k, end, x.rootTargets(), "root")
				x.oblige(end, "frame", "nothing but the declared targets changes in "+k, fn.Pos(), g)
			}
		}
		// vacuity of the whole path
		if r := proveBatch(x.facts, []*Bool{Not(end.reach())}, 2*time.Second, true); r[0].ok && len(c.panics) == 0 {
			rep.Vacuous = "no execution reaches the end under the assumptions {" + cfg + "}"
		}
	} else if len(c.ensures) > 0 && len(c.panics) == 0 {
		rep.Vacuous = "no execution reaches the end {" + cfg + "}"
	}
	to := fnTimeout
	if c.timeout > 0 {
		to = time.Duration(c.timeout) * time.Second
	}
	// discharge
	done := make([]bool, len(x.obls))
	for i := range x.obls {
		if done[i] {
			continue
		}
		var is []int
		var goals []*Bool
		for j := i; j < len(x.obls); j++ {
			if !done[j] && sameHyps(x.obls[i].hyps, x.obls[j].hyps) {
				done[j] = true
				is = append(is, j)
				goals = append(goals, x.obls[j].goal)
			}
		}
		rs := proveBatch(x.obls[i].hyps, goals, to, false)
		for k, j := range is {
			if !rs[k].ok {
				if r, ok := proveByCases(x.obls[j].hyps, goals[k], to/2); ok {
					rs[k] = r
				}
			}
			x.obls[j].res = rs[k]
		}
	}
	for _, o := range append(x.obls, x.invObls...) {
		rep.Obls = append(rep.Obls, OblRep{Name: o.name, Kind: o.kind, Pos: o.pos, Cfg: cfg, OK: o.res.ok, Backend: o.res.backend, Ms: float64(o.res.dur.Microseconds()) / 1000, Status: o.res.status})
	}
	return ""
}

func sameHyps(a, b []*Bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (x *Exec) tryEvalBool(l Clause, env *Env, st *State) (b *Bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				b = nil
				return
			}
			panic(r)
		}
	}()
	return x.evalBool(l.e, env, st, x.entry)
}

// noteDistinct records required base inequalities syntactically.
func noteDistinct(b *Bool) {
	switch b.kind {
	case BAnd:
		for _, a := range b.args {
			noteDistinct(a)
		}
	case BNot:
		if e := b.args[0]; e.kind == BEq0 && len(e.p.ts) == 2 && e.p.ConstPart().Sign() == 0 {
			t, u := e.p.ts[0], e.p.ts[1]
			if len(t.m.as) == 1 && len(u.m.as) == 1 && new(bigInt).Add(t.c, u.c).Sign() == 0 {
				distinctPairs[[2]*Atom{t.m.as[0], u.m.as[0]}] = true
			}
		}
	}
}

func (x *Exec) distinct(a, b *Poly) {
	x.facts = append(x.facts, Not(Eq(a, b)))
	if aa, ba := a.AsAtom(), b.AsAtom(); aa != nil && ba != nil {
		distinctPairs[[2]*Atom{aa, ba}] = true
	}
}

// tryLink: a wrapped product whose operand is congruent (mod 2^64) to one of
// the contract's ghost terms may be computed from the ghost term instead.
func (x *Exec) tryLink(st *State, v *Poly) *Poly {
	if len(x.links) == 0 || len(v.ts) < 2 {
		return v
	}
	var ts []term
	for _, t := range v.ts {
		if new(bigInt).Mod(t.c, bigR).Sign() != 0 {
			ts = append(ts, t)
		}
	}
	vr := mkPoly(ts)
	for _, g := range x.links {
		goal := Imp(st.reach(), Eq(vr, g))
		if goal == True {
			return g
		}
		k := fmt.Sprint(goal.id)
		r, ok := x.linkCache[k]
		if !ok {
			r = proveBatch(x.facts, []*Bool{goal}, 10*time.Second, true)[0].ok
			x.linkCache[k] = r
			if r {
				x.invObls = append(x.invObls, Obl{name: "operand equals the ghost quotient", fn: fnKey(x.rootFn), kind: "link", goal: goal, res: Result{ok: true, backend: "z3-5.3.2", status: "unsat"}})
			}
		}
		if r {
			return g
		}
	}
	return v
}

var _ = types.Identical

// typeNamed finds a type written as in dyn clauses: [*]pkg.Name.
func (x *Exec) typeNamed(s string) types.Type {
	ptr := strings.HasPrefix(s, "*")
	k := strings.TrimPrefix(s, "*")
	for _, p := range x.prog.AllPackages() {
		for n, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if ok && strings.HasSuffix(k, "."+n) && types.TypeString(t.Type(), qual) == k {
				if ptr {
					return types.NewPointer(t.Type())
				}
				return t.Type()
			}
		}
	}
	return nil
}

// fixTerms: the two sides of EXPR == N
func (x *Exec) fixTerms(f Clause, env *Env, st, pre *State) (l, r *Poly, err string) {
	e, ok := f.e.(*ast.BinaryExpr)
	if !ok || e.Op != token.EQL {
		return nil, nil, "fixed: want EXPR == N"
	}
	term := func(e ast.Expr) *Poly {
		switch v := x.eval(e, env, st, pre).(type) {
		case OpaqueV:
			return v.x
		case IntV:
			return v.p
		}
		return nil
	}
	l, r = term(e.X), term(e.Y)
	if l == nil || r == nil {
		return nil, nil, "fixed: not a number: " + f.text
	}
	return l, r, ""
}

// fix: EXPR == N; from here on reads of EXPR yield N.
func (x *Exec) fix(f Clause, env *Env, st *State) string {
	l, r, err := x.fixTerms(f, env, st, x.entry)
	if err != "" {
		return err
	}
	x.facts = append(x.facts, Eq(l, r))
	if l.AsAtom() != nil {
		if x.fixed == nil {
			x.fixed = map[*Poly]*Poly{}
		}
		x.fixed[l] = r
	}
	return ""
}
