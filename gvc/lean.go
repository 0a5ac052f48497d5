package main

// lemmadef -> Lean 4 statement. The proofs are in /verif/lean/Lemmas.lean; the
// generated file restates every lemma mechanically from the contract files and
// closes it with the theorem of the same name, so Lean checks that what gvc
// assumes is what was proved.

import (
	"fmt"
	"go/ast"
	"go/token"
	"sort"
	"strings"
)

type leanTr struct {
	reg *Registry
	env map[string]string
}

func (l *leanTr) args(as []ast.Expr) string {
	var out []string
	for _, a := range as {
		out = append(out, l.tr(a))
	}
	return strings.Join(out, " ")
}

func (l *leanTr) tr(e ast.Expr) string {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return l.tr(n.X)
	case *ast.BasicLit:
		return "(" + n.Value + " : Int)"
	case *ast.Ident:
		if v, ok := l.env[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "R":
			return "((2:Int)^64)"
		case "true":
			return "True"
		case "false":
			return "False"
		}
		panic("lean: unbound " + n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return "(¬ " + l.tr(n.X) + ")"
		case token.SUB:
			return "(- " + l.tr(n.X) + ")"
		}
	case *ast.BinaryExpr:
		op := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.EQL: "=", token.NEQ: "≠",
			token.LSS: "<", token.LEQ: "≤", token.GTR: ">", token.GEQ: "≥", token.LAND: "∧", token.LOR: "∨"}[n.Op]
		if op == "" {
			panic("lean: operator " + n.Op.String())
		}
		return "(" + l.tr(n.X) + " " + op + " " + l.tr(n.Y) + ")"
	case *ast.CallExpr:
		f := n.Fun.(*ast.Ident).Name
		a := func(i int) string { return l.tr(n.Args[i]) }
		switch f {
		case "imp":
			return "(" + a(0) + " → " + a(1) + ")"
		case "iff":
			return "(" + a(0) + " ↔ " + a(1) + ")"
		case "ite":
			return "(if " + a(0) + " then " + a(1) + " else " + a(2) + ")"
		case "cong":
			return "(" + a(2) + " ∣ (" + a(0) + " - " + a(1) + "))"
		case "div":
			return "(" + a(0) + " / " + a(1) + ")"
		case "mod":
			return "(" + a(0) + " % " + a(1) + ")"
		case "pow2":
			return "((2:Int)^(" + a(0) + ").toNat)"
		case "ispow2":
			return "(∃ m : ℕ, " + a(0) + " = (2:Int)^m)"
		case "all":
			s := ""
			save := map[string]string{}
			for _, x := range n.Args[:len(n.Args)-1] {
				id := x.(*ast.Ident).Name
				save[id] = l.env[id]
				l.env[id] = id + "'"
				s += " " + id + "'"
			}
			b := l.tr(n.Args[len(n.Args)-1])
			for k, v := range save {
				if v == "" {
					delete(l.env, k)
				} else {
					l.env[k] = v
				}
			}
			return "(∀ (" + strings.TrimSpace(s) + " : Int), " + b + ")"
		}
		if strings.HasPrefix(f, "P_") || strings.HasPrefix(f, "U_") {
			return "(GVC." + f + " " + l.args(n.Args) + ")"
		}
		if m := l.reg.macros[f]; m != nil {
			ne := &leanTr{l.reg, map[string]string{}}
			for i, p := range m.params {
				ne.env[p] = a(i)
			}
			return ne.tr(m.body)
		}
		panic("lean: function " + f)
	}
	panic(fmt.Sprintf("lean: %T", e))
}

func leanFile(reg *Registry) (string, int) {
	var names []string
	for n := range reg.lemmas {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("-- generated by gvc from the lemmadef clauses of /verif/contracts\n")
	for _, n := range names {
		m := reg.lemmas[n]
		l := &leanTr{reg, map[string]string{}}
		for _, p := range m.params {
			l.env[p] = p
		}
		bind := ""
		if len(m.params) > 0 {
			bind = "∀ (" + strings.Join(m.params, " ") + " : Int), "
		}
		fmt.Fprintf(&sb, "theorem chk_%s : %s%s := GVC.%s\n#print axioms chk_%s\n", n, bind, l.tr(m.body), n, n)
	}
	return sb.String(), len(names)
}
