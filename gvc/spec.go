package main

// Contract language: clauses in /verif/contracts/*.gvc, expressions in Go
// syntax evaluated over unbounded integers.

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resRange bounds an integer result.
type resRange struct {
	name   string
	lo, hi *big.Int
}

type Clause struct {
	text         string
	e            ast.Expr
	line         string
	conc         bool // a conclusion: not a source of invariant candidates
	ghost, names bool // see the clause keywords of the same name
}

type Contract struct {
	key         string
	props       []string
	split       []string
	requires    []Clause
	cases       []Clause
	fixed       []Clause    // EXPR N: the expression has the literal value N
	dyns        [][2]string // interface parameter, concrete type of its value
	ensures     []Clause
	modifies    []Clause
	panics      []ast.Expr
	ghosts      []Clause // link expressions
	stores      bool
	lemmas      []Clause
	loopinv     []Clause
	loopLem     []Clause
	fresh       []Clause
	lets        []letDef
	assumed     bool
	inline      bool
	nilable     []string
	noUnroll    bool
	modAll      bool
	timeout     int
	file        string
	ranges      []resRange
	resNames    []string
	opaqueBytes bool
	deepFrames  bool
	parNames    []string // for interface methods / external functions
	notes       []string
}

type letDef struct {
	name string
	c    Clause
}

type macro struct {
	params []string
	body   ast.Expr
	text   string
}

type Registry struct {
	cons   map[string]*Contract
	order  []string
	macros map[string]*macro
	lemmas map[string]*macro
}

func LoadContracts(dir string) (*Registry, error) {
	r := &Registry{cons: map[string]*Contract{}, macros: map[string]*macro{}, lemmas: map[string]*macro{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := r.loadFile(f); err != nil {
			return nil, err
		}
	}
	return r, nil
}

func (r *Registry) loadFile(f string) error {
	fh, err := os.Open(f)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	var cur []*Contract
	ln := 0
	acc := ""
	start := 0
	handle := func(line string, n int) error {
		line = strings.TrimSpace(line)
		if line == "" {
			return nil
		}
		sp := strings.IndexAny(line, " \t")
		kw, rest := line, ""
		if sp >= 0 {
			kw, rest = line[:sp], strings.TrimSpace(line[sp+1:])
		}
		where := fmt.Sprintf("%s:%d", filepath.Base(f), n)
		parse := func(s string) (ast.Expr, error) {
			e, err := parser.ParseExpr(s)
			if err != nil {
				return nil, fmt.Errorf("%s: %v in %q", where, err, s)
			}
			return e, nil
		}
		switch kw {
		case "def", "lemmadef":
			eq := strings.Index(rest, ") =")
			lp := strings.Index(rest, "(")
			if eq < 0 || lp < 0 {
				return fmt.Errorf("%s: bad def", where)
			}
			name := strings.TrimSpace(rest[:lp])
			var ps []string
			for _, p := range strings.Split(rest[lp+1:eq], ",") {
				if p = strings.TrimSpace(p); p != "" {
					ps = append(ps, p)
				}
			}
			body := strings.TrimSpace(rest[eq+3:])
			e, err := parse(body)
			if err != nil {
				return err
			}
			m := &macro{ps, e, body}
			if kw == "def" {
				r.macros[name] = m
			} else {
				r.lemmas[name] = m
			}
			return nil
		case "fn", "extern":
			cur = nil
			for _, k := range strings.Fields(rest) {
				c := &Contract{key: k, file: where}
				if i := strings.Index(k, "("); i >= 0 {
					c.key = k[:i]
					c.parNames = strings.Split(strings.TrimSuffix(k[i+1:], ")"), ",")
				}
				if kw == "extern" {
					c.assumed = true
				}
				if r.cons[c.key] != nil {
					return fmt.Errorf("%s: duplicate contract for %s", where, c.key)
				}
				r.cons[c.key] = c
				r.order = append(r.order, c.key)
				cur = append(cur, c)
			}
			return nil
		}
		if cur == nil {
			return fmt.Errorf("%s: clause outside fn", where)
		}
		for _, c := range cur {
			switch kw {
			case "prop":
				c.props = append(c.props, strings.Fields(rest)...)
			case "split":
				c.split = strings.Fields(rest)
			case "inline":
				c.inline = true
			case "nilable":
				c.nilable = strings.Fields(rest)
			case "assumed":
				c.assumed = true
			case "storecands":
				c.stores = true
			case "opaquebytes": // words read from bytes are arbitrary words
				c.opaqueBytes = true
			case "deepframes": // see frameUnits
				c.deepFrames = true
			case "dyn":
				f := strings.Fields(rest)
				if len(f) != 2 {
					return fmt.Errorf("%s: dyn PARAM TYPE", where)
				}
				c.dyns = append(c.dyns, [2]string{f[0], f[1]})
			case "nounroll":
				c.noUnroll = true
			case "note":
				c.notes = append(c.notes, rest)
			case "timeout":
				fmt.Sscanf(rest, "%d", &c.timeout)
			case "results":
				c.resNames = strings.Fields(rest)
			case "range": // range NAME LO HI: a postcondition that also bounds the result for callers
				w := strings.Fields(rest)
				lo, ok1 := new(big.Int).SetString(w[1], 10)
				hi, ok2 := new(big.Int).SetString(w[2], 10)
				if !ok1 || !ok2 {
					return fmt.Errorf("%s: bad range", where)
				}
				t := fmt.Sprintf("%s >= %s && %s <= %s", w[0], w[1], w[0], w[2])
				e, err := parse(t)
				if err != nil {
					return err
				}
				c.ensures = append(c.ensures, Clause{text: t, e: e, line: where})
				c.ranges = append(c.ranges, resRange{w[0], lo, hi})
			case "let":
				i := strings.Index(rest, "=")
				e, err := parse(strings.TrimSpace(rest[i+1:]))
				if err != nil {
					return err
				}
				c.lets = append(c.lets, letDef{strings.TrimSpace(rest[:i]), Clause{text: rest, e: e, line: where}})
			case "requires", "ghost", "ensures", "proves", "names", "concludes", "modifies", "panics", "link", "lemma", "loopinv", "looplemma", "fresh", "case", "fixed":
				if kw == "modifies" && rest == "*" {
					c.modAll = true
					continue
				}
				e, err := parse(rest)
				if err != nil {
					return err
				}
				cl := Clause{text: rest, e: e, line: where}
				switch kw {
				case "requires":
					c.requires = append(c.requires, cl)
				case "fixed": // EXPR == literal: also simplifies the execution
					c.fixed = append(c.fixed, cl)
					c.requires = append(c.requires, cl)
				case "case": // verified once with and once without the condition
					c.cases = append(c.cases, cl)
				case "ghost": // definition of a ghost function: assumed in the body, no obligation for callers
					cl.ghost = true
					c.requires = append(c.requires, cl)
				case "proves": // about ghost functions: proved, not visible to callers
					cl.ghost = true
					c.ensures = append(c.ensures, cl)
				case "names": // names the result of a deterministic function for callers
					cl.names, cl.conc = true, true
					c.ensures = append(c.ensures, cl)
				case "concludes":
					cl.conc = true
					c.ensures = append(c.ensures, cl)
				case "ensures":
					c.ensures = append(c.ensures, cl)
				case "modifies":
					c.modifies = append(c.modifies, cl)
				case "panics":
					c.panics = append(c.panics, e)
				case "link":
					c.ghosts = append(c.ghosts, cl)
				case "lemma":
					c.lemmas = append(c.lemmas, cl)
				case "looplemma":
					c.loopLem = append(c.loopLem, cl)
				case "loopinv":
					c.loopinv = append(c.loopinv, cl)
				case "fresh":
					c.fresh = append(c.fresh, cl)
				}
			default:
				return fmt.Errorf("%s: unknown clause %q", where, kw)
			}
		}
		return nil
	}
	for sc.Scan() {
		ln++
		t := sc.Text()
		if i := strings.Index(t, "//"); i >= 0 {
			t = t[:i]
		}
		t = strings.TrimSpace(t)
		if acc == "" {
			start = ln
		}
		if t == "" && acc == "" {
			continue
		}
		if strings.HasSuffix(t, "\\") {
			acc += strings.TrimSuffix(t, "\\") + " "
			continue
		}
		acc += t
		if strings.Count(acc, "(") > strings.Count(acc, ")") {
			acc += " "
			continue
		}
		if err := handle(acc, start); err != nil {
			return err
		}
		acc = ""
	}
	if acc != "" {
		return handle(acc, start)
	}
	return nil
}

// ---- evaluation ----

type Env struct {
	vars map[string]Val
	up   *Env
	// range overrides for the outermost forall of the clause under evaluation
	over *foralOver
}

type rangeOv struct {
	lo, hi *Poly // extra bounds lo <= v < hi, nil = none
	fix    *Poly
}
type foralOver struct {
	used bool
	ov   map[int]rangeOv
}

func (e *Env) get(n string) (Val, bool) {
	for ; e != nil; e = e.up {
		if v, ok := e.vars[n]; ok {
			return v, true
		}
	}
	return nil, false
}

func (e *Env) with(n string, v Val) *Env {
	return &Env{vars: map[string]Val{n: v}, up: e, over: e.over}
}

func (x *Exec) evalBool(e ast.Expr, env *Env, st, old *State) *Bool {
	v := x.eval(e, env, st, old)
	switch b := v.(type) {
	case BoolV:
		return b.b
	}
	unsup("boolean expected: %s", exprStr(e))
	return nil
}

func (x *Exec) evalInt(e ast.Expr, env *Env, st, old *State) *Poly {
	switch v := x.eval(e, env, st, old).(type) {
	case IntV:
		return v.p
	case BoolV:
		return Ind(v.b)
	case OpaqueV:
		return v.x
	}
	unsup("integer expected: %s", exprStr(e))
	return nil
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (x *Exec) eval(e ast.Expr, env *Env, st, old *State) Val {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return x.eval(n.X, env, st, old)
	case *ast.BasicLit:
		b := new(big.Int)
		if _, ok := b.SetString(strings.ReplaceAll(n.Value, "_", ""), 0); !ok {
			unsup("literal %s", n.Value)
		}
		return IntV{ConstB(b)}
	case *ast.Ident:
		if v, ok := env.get(n.Name); ok {
			return v
		}
		switch n.Name {
		case "true":
			return BoolV{True}
		case "false":
			return BoolV{False}
		case "R":
			return IntV{ConstB(bigR)}
		case "nil":
			return PtrV{base: Const(0), off: Const(0)}
		}
		unsup("spec: unknown identifier %s", n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return BoolV{Not(x.evalBool(n.X, env, st, old))}
		case token.SUB:
			return IntV{x.evalInt(n.X, env, st, old).Neg()}
		}
	case *ast.StarExpr:
		p := x.eval(n.X, env, st, old).(PtrV)
		return x.load(st, p, p.elem)
	case *ast.BinaryExpr:
		return x.evalBin(n, env, st, old)
	case *ast.SelectorExpr:
		return x.evalSel(n, env, st, old)
	case *ast.IndexExpr:
		b := x.eval(n.X, env, st, old)
		i := x.evalInt(n.Index, env, st, old)
		switch s := b.(type) {
		case SliceV:
			return x.load(st, PtrV{comp: typeKey(s.elem), base: s.base, off: s.off.Add(i), elem: s.elem}, s.elem)
		case ArrV:
			if k, ok := i.IsConst(); ok {
				return s.fs[k.Int64()]
			}
			v := s.fs[len(s.fs)-1]
			et := s.t.Underlying().(*types.Array).Elem()
			for k := len(s.fs) - 2; k >= 0; k-- {
				v = x.iteVal(Eq(i, Const(int64(k))), et, s.fs[k], v)
			}
			return v
		case PtrV:
			if a, ok := s.elem.Underlying().(*types.Array); ok {
				if s.arr {
					return x.load(st, PtrV{comp: s.comp, base: s.base, off: s.off.Add(i), elem: a.Elem()}, a.Elem())
				}
				if k, ok := i.IsConst(); ok {
					return x.load(st, PtrV{comp: s.comp + "#" + k.String(), base: s.base, off: s.off, elem: a.Elem()}, a.Elem())
				}
			}
		}
		unsup("spec: index of %T in %s", b, exprStr(e))
	case *ast.SliceExpr:
		s, ok := x.eval(n.X, env, st, old).(SliceV)
		if !ok {
			unsup("spec: slice expr")
		}
		lo, hi := Const(0), s.len
		if n.Low != nil {
			lo = x.evalInt(n.Low, env, st, old)
		}
		if n.High != nil {
			hi = x.evalInt(n.High, env, st, old)
		}
		return SliceV{s.base, s.off.Add(lo), hi.Sub(lo), s.cap.Sub(lo), s.elem}
	case *ast.CallExpr:
		return x.evalCall(n, env, st, old)
	}
	unsup("spec: cannot evaluate %s", exprStr(e))
	return nil
}

func (x *Exec) evalBin(n *ast.BinaryExpr, env *Env, st, old *State) Val {
	switch n.Op {
	case token.LAND:
		return BoolV{And(x.evalBool(n.X, env, st, old), x.evalBool(n.Y, env, st, old))}
	case token.LOR:
		return BoolV{Or(x.evalBool(n.X, env, st, old), x.evalBool(n.Y, env, st, old))}
	}
	a := x.eval(n.X, env, st, old)
	b := x.eval(n.Y, env, st, old)
	if n.Op == token.EQL || n.Op == token.NEQ {
		var r *Bool
		switch av := a.(type) {
		case BoolV:
			bb, ok := b.(BoolV)
			if !ok {
				unsup("spec: == on bool and %T", b)
			}
			r = Iff(av.b, bb.b)
		case PtrV:
			r = x.specEqRef(av.base, av.off, b)
		case SliceV:
			if bs, ok := b.(SliceV); ok {
				r = And(Eq(av.base, bs.base), Eq(av.off, bs.off), Eq(av.len, bs.len))
			} else {
				r = Eq0(av.base)
			}
		case IfaceV:
			if bi2, ok := b.(IfaceV); ok {
				r = And(Eq(av.t, bi2.t), Eq(av.x, bi2.x))
			} else {
				r = Eq0(av.t)
			}
		case StructV:
			r = x.binop(st, token.EQL, a, b, av.t, types.Typ[types.Bool], token.NoPos).(BoolV).b
		}
		if r != nil {
			if n.Op == token.NEQ {
				r = Not(r)
			}
			return BoolV{r}
		}
	}
	p, q := asInt(a, n.X), asInt(b, n.Y)
	switch n.Op {
	case token.ADD:
		return IntV{p.Add(q)}
	case token.SUB:
		return IntV{p.Sub(q)}
	case token.MUL:
		return IntV{p.Mul(q)}
	case token.QUO:
		return IntV{DivV(p, q)}
	case token.REM:
		return IntV{ModV(p, q)}
	case token.SHL:
		return IntV{p.Mul(x.pow2(q))}
	case token.SHR:
		return IntV{DivV(p, x.pow2(q))}
	case token.AND:
		return IntV{x.bitop(st, token.AND, p, q, types.Typ[types.Uint64])}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return BoolV{x.cmp(n.Op, p, q)}
	}
	unsup("spec: operator %s", n.Op)
	return nil
}

func (x *Exec) specEqRef(base, off *Poly, b Val) *Bool {
	switch bv := b.(type) {
	case PtrV:
		if isZero(bv.base) {
			return Eq0(base)
		}
		return And(Eq(base, bv.base), Eq(off, bv.off))
	case SliceV:
		return Eq0(bv.base)
	case IfaceV:
		return Eq0(bv.t)
	}
	unsup("spec: reference comparison with %T", b)
	return nil
}

func asInt(v Val, e ast.Expr) *Poly {
	switch a := v.(type) {
	case IntV:
		return a.p
	case BoolV:
		return Ind(a.b)
	case OpaqueV:
		return a.x
	}
	unsup("spec: integer expected, got %T: %s", v, exprStr(e))
	return nil
}

func (x *Exec) evalSel(n *ast.SelectorExpr, env *Env, st, old *State) Val {
	v := x.eval(n.X, env, st, old)
	return x.selField(v, n.Sel.Name, st)
}

func (x *Exec) selField(v Val, name string, st *State) Val {
	var t types.Type
	switch a := v.(type) {
	case PtrV:
		t = a.elem
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			_ = pt
		}
	case StructV:
		t = a.t
	default:
		unsup("spec: selector .%s on %T", name, v)
	}
	obj, index, _ := types.LookupFieldOrMethod(t, true, pkgOf(t), name)
	if _, ok := obj.(*types.Var); !ok {
		unsup("spec: no field %s in %s", name, t)
	}
	cur := v
	ct := t
	for k, ix := range index {
		if p, ok := ct.Underlying().(*types.Pointer); ok {
			_ = p
			pv := cur.(PtrV)
			ct = pv.elem
		}
		s := ct.Underlying().(*types.Struct)
		f := s.Field(ix)
		switch c := cur.(type) {
		case PtrV:
			np := PtrV{comp: c.comp + "/" + f.Name(), base: c.base, off: c.off, elem: f.Type()}
			if k == len(index)-1 {
				// keep arrays/structs addressable lazily
				switch f.Type().Underlying().(type) {
				case *types.Struct:
					if !isBigInt(f.Type()) {
						return np
					}
				}
				cur = x.load(st, np, f.Type())
			} else {
				if _, isS := f.Type().Underlying().(*types.Struct); isS {
					cur = np
				} else {
					cur = x.load(st, np, f.Type())
				}
			}
		case StructV:
			cur = c.fs[ix]
		}
		ct = f.Type()
	}
	return cur
}

func pkgOf(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (x *Exec) evalCall(n *ast.CallExpr, env *Env, st, old *State) Val {
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		unsup("spec: call %s", exprStr(n))
	}
	arg := func(i int) Val { return x.eval(n.Args[i], env, st, old) }
	argI := func(i int) *Poly { return x.evalInt(n.Args[i], env, st, old) }
	argB := func(i int) *Bool { return x.evalBool(n.Args[i], env, st, old) }
	switch id.Name {
	case "len":
		switch s := arg(0).(type) {
		case SliceV:
			return IntV{s.len}
		case ArrV:
			return IntV{Const(int64(len(s.fs)))}
		}
		unsup("spec: len")
	case "cap":
		return IntV{arg(0).(SliceV).cap}
	case "base":
		switch s := arg(0).(type) {
		case SliceV:
			return IntV{s.base}
		case PtrV:
			return IntV{s.base}
		case IfaceV:
			return IntV{s.x}
		}
		unsup("spec: base")
	case "off":
		switch s := arg(0).(type) {
		case SliceV:
			return IntV{s.off}
		case PtrV:
			return IntV{s.off}
		}
		unsup("spec: off")
	case "old":
		return x.eval(n.Args[0], env, old, old)
	case "imp":
		a := argB(0)
		if a == False {
			return BoolV{True}
		}
		return BoolV{Imp(a, argB(1))}
	case "by":
		// by(lemma(..), goal): the goal, proved with an instance of a lemma of lean/Lemmas.lean
		if lc, ok := n.Args[0].(*ast.CallExpr); !ok || x.reg.lemmas[exprStr(lc.Fun)] == nil {
			unsup("spec: by needs a lemma")
		}
		if x.assuming {
			return BoolV{argB(1)}
		}
		l := argB(0)
		return BoolV{Imp(l, argB(1))}
	case "iff":
		return BoolV{Iff(argB(0), argB(1))}
	case "ite":
		c := argB(0)
		a, b := arg(1), arg(2)
		if ab, ok := a.(BoolV); ok {
			return BoolV{IteB(c, ab.b, b.(BoolV).b)}
		}
		return IntV{IteP(c, asInt(a, n.Args[1]), asInt(b, n.Args[2]))}
	case "cong":
		return BoolV{Cong(argI(0).Sub(argI(1)), argI(2))}
	case "div":
		return IntV{DivV(argI(0), argI(1))}
	case "mod":
		return IntV{ModV(argI(0), argI(1))}
	case "min":
		a, b := argI(0), argI(1)
		return IntV{IteP(Le(a, b), a, b)}
	case "max":
		a, b := argI(0), argI(1)
		return IntV{IteP(Ge(a, b), a, b)}
	case "rev64":
		return IntV{App("rev64", bi(0), bigRm1, argI(0))}
	case "bitlen":
		return IntV{App("bitlen", bi(0), bi(64), argI(0))}
	case "pow2":
		return IntV{x.pow2(argI(0))}
	case "ispow2":
		p := argI(0)
		if k, ok := p.IsConst(); ok {
			if _, ok := maskBits(new(big.Int).Sub(k, bi(1))); ok {
				return BoolV{True}
			}
			return BoolV{False}
		}
		if !p.hasBnd {
			x.pow2Args = append(x.pow2Args, p)
		}
		return BoolV{BoolApp("ispow2", p)}
	case "val": // mathematical value of a *big.Int
		switch p := arg(0).(type) {
		case PtrV:
			return IntV{x.rd(st, p.comp, leaf{"/$v", nil, nil}, p.base, p.off)}
		case OpaqueV:
			return IntV{p.x}
		}
	case "fresh": // allocated during the call
		mark := x.specMark
		if mark == nil {
			mark = x.alloc0
		}
		switch p := arg(0).(type) {
		case PtrV:
			return BoolV{Ge(p.base, mark)}
		case SliceV:
			return BoolV{Ge(p.base, mark)}
		}
	case "separate": // identical or disjoint
		return BoolV{x.aliasOK(arg(0), arg(1), st)}
	case "isnil":
		switch p := arg(0).(type) {
		case PtrV:
			return BoolV{Eq0(p.base)}
		case SliceV:
			return BoolV{Eq0(p.base)}
		case IfaceV:
			return BoolV{Eq0(p.t)}
		}
	case "forall":
		return BoolV{x.evalForall(n, env, st, old)}
	case "all": // unbounded quantifier: all(x, y, …, body)
		e2 := env
		var vars []*Atom
		for i := 0; i < len(n.Args)-1; i++ {
			v := FreshBoundFor(n, i, n.Args[i].(*ast.Ident).Name)
			vars = append(vars, v)
			e2 = e2.with(n.Args[i].(*ast.Ident).Name, IntV{v.P()})
		}
		return BoolV{Forall(vars, x.evalBool(n.Args[len(n.Args)-1], e2, st, old))}
	case "let":
		nm := n.Args[0].(*ast.Ident).Name
		return x.eval(n.Args[2], env.with(nm, arg(1)), st, old)
	case "dyntype": // dynamic type identity of an interface value
		return IntV{arg(0).(IfaceV).t}
	case "typeid":
		s := strings.Trim(n.Args[0].(*ast.BasicLit).Value, "\"`")
		return IntV{typeConst(s)}
	}
	if strings.HasPrefix(id.Name, "U_") { // uninterpreted integer function
		var ps []*Poly
		for i := range n.Args {
			ps = append(ps, argI(i))
		}
		return IntV{App(id.Name, nil, nil, ps...)}
	}
	if strings.HasPrefix(id.Name, "P_") {
		var ps []*Poly
		for i := range n.Args {
			ps = append(ps, argI(i))
		}
		return BoolV{BoolApp(id.Name, ps...)}
	}
	m := x.reg.macros[id.Name]
	if m == nil {
		m = x.reg.lemmas[id.Name]
	}
	if m != nil {
		if len(n.Args) != len(m.params) {
			unsup("spec: %s wants %d arguments", id.Name, len(m.params))
		}
		ne := &Env{vars: map[string]Val{}}
		ne.over = env.over
		for i, p := range m.params {
			ne.vars[p] = arg(i)
		}
		return x.eval(m.body, ne, st, old)
	}
	unsup("spec: unknown function %s", id.Name)
	return nil
}

func (x *Exec) evalForall(n *ast.CallExpr, env *Env, st, old *State) *Bool {
	nv := (len(n.Args) - 1) / 3
	if len(n.Args)%3 != 1 || nv == 0 {
		unsup("spec: forall arity")
	}
	var vars []*Atom
	var guards []*Bool
	e := env
	over := env.over
	if over != nil && over.used {
		over = nil
	}
	if over != nil {
		over.used = true
	}
	for i := 0; i < nv; i++ {
		nm := n.Args[3*i].(*ast.Ident).Name
		lo := x.evalInt(n.Args[3*i+1], e, st, old)
		hi := x.evalInt(n.Args[3*i+2], e, st, old)
		var vp *Poly
		if over != nil {
			if o, ok := over.ov[i]; ok {
				if o.fix != nil {
					vp = o.fix
				}
				if o.lo != nil {
					guards = append(guards, nil) // placeholder
				}
			}
		}
		if vp == nil {
			v := FreshBoundFor(n, i, nm)
			vars = append(vars, v)
			vp = v.P()
		}
		var gs []*Bool
		gs = append(gs, Ge(vp, lo), Lt(vp, hi))
		if over != nil {
			if o, ok := over.ov[i]; ok && o.fix == nil {
				if o.lo != nil {
					gs = append(gs, Ge(vp, o.lo))
				}
				if o.hi != nil {
					gs = append(gs, Lt(vp, o.hi))
				}
			}
		}
		guards = append(guards, gs...)
		e = e.with(nm, IntV{vp})
	}
	var g []*Bool
	for _, y := range guards {
		if y != nil {
			g = append(g, y)
		}
	}
	body := x.evalBool(n.Args[len(n.Args)-1], e, st, old)
	f := Imp(And(g...), body)
	if len(vars) == 0 {
		return f
	}
	return Forall(vars, f)
}

var bndFor = map[*ast.CallExpr][]*Atom{}

// deterministic bound atoms per syntactic quantifier (so that equal formulas
// are interned once)
func FreshBoundFor(n *ast.CallExpr, i int, name string) *Atom {
	l := bndFor[n]
	for len(l) <= i {
		l = append(l, nil)
	}
	if l[i] == nil {
		l[i] = FreshBound(name)
	}
	bndFor[n] = l
	return l[i]
}

// ---- applying contracts at call sites ----

func (x *Exec) contractFor(key string) *Contract {
	c := x.reg.cons[key]
	if c == nil || c.inline {
		return nil
	}
	return c
}

func (x *Exec) bindParams(c *Contract, fn *ssa.Function, sig *types.Signature, args []Val) *Env {
	env := &Env{vars: map[string]Val{}}
	if fn != nil && len(fn.Params) == len(args) && len(c.parNames) == 0 {
		for i, p := range fn.Params {
			env.vars[p.Name()] = args[i]
		}
	} else if len(c.parNames) > 0 {
		for i, p := range c.parNames {
			if i < len(args) {
				env.vars[strings.TrimSpace(p)] = args[i]
			}
		}
	} else {
		k := 0
		if sig.Recv() != nil {
			n := sig.Recv().Name()
			if n == "" {
				n = "recv"
			}
			if len(args) == sig.Params().Len()+1 {
				env.vars[n] = args[0]
				k = 1
			}
		}
		for i := 0; i < sig.Params().Len() && k+i < len(args); i++ {
			env.vars[sig.Params().At(i).Name()] = args[k+i]
		}
	}
	return env
}

func (x *Exec) addLets(c *Contract, env *Env, st *State) {
	for _, l := range c.lets {
		env.vars[l.name] = x.eval(l.c.e, env, st, st)
	}
}

func (x *Exec) bindResults(c *Contract, sig *types.Signature, env *Env, rs []Val) {
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		n := res.At(i).Name()
		if i < len(c.resNames) {
			n = c.resNames[i]
		}
		if n != "" && n != "_" {
			if _, clash := env.vars[n]; !clash {
				env.vars[n] = rs[i]
			}
		}
		env.vars[fmt.Sprintf("result%d", i)] = rs[i]
	}
	if res.Len() >= 1 {
		env.vars["result"] = rs[0]
	}
}

func (x *Exec) applyContract(c *Contract, fn *ssa.Function, sig *types.Signature, args []Val, st *State, pos token.Pos) (Val, *State) {
	x.used[c.key] = true
	env := x.bindParams(c, fn, sig, args)
	st = st.clone()
	pre := st.clone()
	x.addLets(c, env, pre)
	// aliasing discipline
	for i := 0; i < len(c.split); i++ {
		for j := i + 1; j < len(c.split); j++ {
			a, b := env.vars[c.split[i]], env.vars[c.split[j]]
			x.oblige(st, "pre", fmt.Sprintf("%s: %s and %s are identical or disjoint", c.key, c.split[i], c.split[j]), pos, Or(c.nilOf(c.split[i], a), c.nilOf(c.split[j], b), x.aliasOK(a, b, pre)))
		}
	}
	for _, p := range c.panics {
		// calling a function outside its documented domain is an error here
		x.oblige(st, "pre", fmt.Sprintf("%s: documented panic does not occur", c.key), pos, Not(x.evalBool(p, env, pre, pre)))
	}
	for _, r := range c.requires {
		if r.ghost {
			continue
		}
		x.oblige(st, "pre", fmt.Sprintf("%s requires %s", c.key, r.text), pos, x.evalBool(r.e, env, pre, pre))
	}
	for _, f := range c.fixed {
		g := False
		if l, r, err := x.fixTerms(f, env, pre, pre); err == "" {
			g = Eq(l, r)
		}
		x.oblige(st, "pre", fmt.Sprintf("%s is proved for %s", c.key, f.text), pos, g)
	}
	for _, d := range c.dyns {
		x.oblige(st, "pre", fmt.Sprintf("%s is proved for %s of type %s", c.key, d[0], d[1]), pos, False)
	}
	// effects
	for _, m := range c.modifies {
		x.havocTarget(m.e, env, st, pre)
	}
	if c.modAll {
		x.havocAll(st)
	}
	res := sig.Results()
	var rs []Val
	mark := FreshAlloc()
	for i := 0; i < res.Len(); i++ {
		v := x.fresh(res.At(i).Type(), "ret_"+lastName(c.key))
		for _, r := range c.ranges {
			if _, ok := v.(IntV); ok && (r.name == "result" && i == 0 || i < len(c.resNames) && r.name == c.resNames[i]) {
				p := FreshVar("ret_"+lastName(c.key), r.lo, r.hi)
				if r.lo.Sign() == 0 && r.hi.Cmp(bi(1)) == 0 {
					p = IteP(Eq(p, Const(1)), Const(1), Const(0))
				}
				v = IntV{p}
			}
		}
		rs = append(rs, v)
	}
	x.bindResults(c, sig, env, rs)
	if len(c.fresh) > 0 {
		for k := range rs {
			for _, f := range c.fresh {
				nm := exprStr(f.e)
				if nm == "result" && k == 0 || nm == fmt.Sprintf("result%d", k) || nm == res.At(k).Name() && nm != "" || k < len(c.resNames) && nm == c.resNames[k] {
					rs[k] = x.freshen(rs[k])
				}
			}
		}
		x.bindResults2(c, sig, env, rs)
	}
	for _, e := range c.ensures {
		if e.ghost {
			continue
		}
		if e.names {
			x.trusted["the result of "+c.key+" depends on its arguments only: "+e.text] = true
		}
		old := x.specMark
		x.specMark = mark
		x.assuming = true
		b := x.evalBool(e.e, env, st, pre)
		x.assuming = false
		x.specMark = old
		if strings.Contains(e.text, "table(") || strings.Contains(e.text, "U_owner") {
			for _, v := range rs {
				if s, ok := v.(SliceV); ok && s.base.AsAtom() != nil {
					if x.owned == nil {
						x.owned = map[*Atom]bool{}
					}
					x.owned[s.base.AsAtom()] = true
				}
			}
		}
		x.addFact(st, b)
	}
	if len(rs) == 1 {
		return rs[0], st
	}
	return TupleV{rs}, st
}

func (x *Exec) bindResults2(c *Contract, sig *types.Signature, env *Env, rs []Val) {
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		n := res.At(i).Name()
		if i < len(c.resNames) {
			n = c.resNames[i]
		}
		if n != "" && n != "_" {
			env.vars[n] = rs[i]
		}
		env.vars[fmt.Sprintf("result%d", i)] = rs[i]
	}
	if res.Len() >= 1 {
		env.vars["result"] = rs[0]
	}
}

func (x *Exec) freshen(v Val) Val {
	switch a := v.(type) {
	case PtrV:
		a.base = FreshAlloc()
		a.off = Const(0)
		return a
	case SliceV:
		a.base = FreshAlloc()
		a.off = Const(0)
		return a
	}
	return v
}

func lastName(k string) string {
	if i := strings.LastIndexByte(k, '.'); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (c *Contract) nilOf(name string, v Val) *Bool {
	for _, n := range c.nilable {
		if p, ok := v.(PtrV); ok && n == name {
			return Eq0(p.base)
		}
	}
	return False
}

func (x *Exec) aliasOK(a, b Val, st *State) *Bool {
	switch av := a.(type) {
	case SliceV:
		bv := b.(SliceV)
		return Or(Not(Eq(av.base, bv.base)), And(Eq(av.base, bv.base), Eq(av.off, bv.off)))
	case PtrV:
		bv := b.(PtrV)
		same := And(Eq(av.base, bv.base), Eq(av.off, bv.off))
		diff := Not(Eq(av.base, bv.base))
		if x.isPoly(av) {
			ca := x.selField(av, "Coeffs", st).(SliceV)
			cb := x.selField(bv, "Coeffs", st).(SliceV)
			diff = And(diff, Not(Eq(ca.base, cb.base)))
		}
		return Or(diff, same)
	}
	return True
}

func (x *Exec) isPoly(p PtrV) bool {
	return p.comp == "ring.Poly"
}

// modification targets
type target struct {
	kind  string // slice, rows, field, elems
	s     SliceV
	lo    *Poly
	hi    *Poly
	p     PtrV
	ft    types.Type
	whole bool
}

func (x *Exec) evalTarget(e ast.Expr, env *Env, st *State) []target {
	switch n := e.(type) {
	case *ast.SliceExpr:
		s, ok := x.eval(n.X, env, st, st).(SliceV)
		if !ok {
			unsup("modifies %s", exprStr(e))
		}
		lo, hi := Const(0), s.len
		if n.Low != nil {
			lo = x.evalInt(n.Low, env, st, st)
		}
		if n.High != nil {
			hi = x.evalInt(n.High, env, st, st)
		}
		return []target{{kind: "slice", s: s, lo: lo, hi: hi}}
	case *ast.CallExpr:
		id := n.Fun.(*ast.Ident).Name
		switch id {
		case "rows":
			s := x.eval(n.Args[0], env, st, st).(SliceV)
			return []target{{kind: "rows", s: s, lo: x.evalInt(n.Args[1], env, st, st), hi: x.evalInt(n.Args[2], env, st, st)}}
		case "deref":
			p := x.eval(n.Args[0], env, st, st).(PtrV)
			return []target{{kind: "field", p: p, ft: p.elem}}
		case "bigval":
			p := x.eval(n.Args[0], env, st, st).(PtrV)
			return []target{{kind: "field", p: p, ft: p.elem}}
		}
		if m := x.reg.macros[id]; m != nil {
			unsup("modifies macro")
		}
	case *ast.SelectorExpr:
		v := x.eval(n.X, env, st, st)
		p, ok := v.(PtrV)
		if !ok {
			unsup("modifies %s", exprStr(e))
		}
		obj, index, _ := types.LookupFieldOrMethod(p.elem, true, pkgOf(p.elem), n.Sel.Name)
		if obj == nil || len(index) != 1 {
			unsup("modifies %s", exprStr(e))
		}
		return []target{{kind: "field", p: PtrV{comp: p.comp + "/" + n.Sel.Name, base: p.base, off: p.off, elem: obj.Type()}, ft: obj.Type()}}
	}
	unsup("modifies %s", exprStr(e))
	return nil
}

func (x *Exec) noteWrite(comp string, base, off *Poly) {
	if x.writes != nil {
		*x.writes = append(*x.writes, writeRec{comp, base, off, nil})
	}
}

func rowOwner(b *Poly) *Poly { return App("U_owner", nil, nil, b) }
func rowIdx(b *Poly) *Poly   { return App("U_ridx", nil, nil, b) }

func (x *Exec) havocTarget(e ast.Expr, env *Env, st, pre *State) {
	for _, t := range x.evalTarget(e, env, pre) {
		switch t.kind {
		case "slice":
			comp := typeKey(t.s.elem)
			for _, l := range leaves(t.s.elem) {
				m := x.getMem(st, comp+l.path, l.lo, l.hi)
				row := FreshRow("row_" + comp + l.path)
				m2 := m.SetRow(t.s.base, row)
				st.mem[comp+l.path] = m2
				o := FreshBound("o")
				a, b := t.s.off.Add(t.lo), t.s.off.Add(t.hi)
				x.addFact(st, Forall([]*Atom{o}, Or(And(Ge(o.P(), a), Lt(o.P(), b)), Eq(m2.Read(t.s.base, o.P()), m.Read(t.s.base, o.P())))))
				x.noteWrite(comp+l.path, t.s.base, nil)
			}
		case "rows":
			el := t.s.elem.Underlying().(*types.Slice).Elem()
			comp := typeKey(el)
			for _, l := range leaves(el) {
				m := x.getMem(st, comp+l.path, l.lo, l.hi)
				m2 := NewMemVar(comp+l.path, freshName(comp+l.path+"@"+x.cfg+"~c"), l.lo, l.hi)
				st.mem[comp+l.path] = m2
				b, o := FreshBound("b"), FreshBound("o")
				in := And(Eq(rowOwner(b.P()), t.s.base), Ge(rowIdx(b.P()), t.s.off.Add(t.lo)), Lt(rowIdx(b.P()), t.s.off.Add(t.hi)))
				x.addFact(st, Forall([]*Atom{b, o}, Or(in, Eq(m2.Read(b.P(), o.P()), m.Read(b.P(), o.P())))))
				x.noteWrite(comp+l.path, nil, nil)
			}
		case "field":
			v := x.fresh(t.ft, "mod")
			x.store(st, t.p, t.ft, v)
		}
	}
}

func (x *Exec) havocAll(st *State) {
	unsup("modifies * on a callee")
	for c, m := range st.mem {
		st.mem[c] = NewMemVar(c, freshName(c+"@"+x.cfg+"~a"), m.lo, m.hi)
		x.noteWrite(c, nil, nil)
	}
}
