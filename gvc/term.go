package main

// Term language: integer terms are polynomials over interned atoms with
// unbounded integer coefficients; boolean terms are interned formulas over
// polynomial (in)equalities; memory terms are persistent update chains.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type AtomKind uint8

const (
	AVar  AtomKind = iota // free symbolic constant
	ABnd                  // bound variable of a quantifier
	ASel                  // memory read
	AInd                  // 0/1 indicator of a formula
	ADiv                  // floor division by a positive constant
	ADivV                 // floor division by a variable
	AApp                  // uninterpreted / interpreted-by-facts function
	AIte                  // if-then-else
)

type Atom struct {
	id     int
	kind   AtomKind
	name   string
	p, q   *Poly // ADiv/ADivV: p / q ; AIte: then/else
	c      *big.Int
	b      *Bool
	mem    *Mem
	row    *Row
	base   *Poly
	off    *Poly
	args   []*Poly
	lo, hi *big.Int // absolute interval, nil if unbounded
	ts     int      // creation time stamp (for allocation ordering)
	alloc  bool     // is a freshly allocated base
	hasBnd bool
	poly   *Poly
	isPhi  bool
}

type mono struct {
	as  []*Atom // sorted by id, with repetition
	key string
}

type term struct {
	m mono
	c *big.Int
}

type Poly struct {
	ts     []term // sorted by key
	key    string
	hasBnd bool
	ivDone bool
	lo, hi *big.Int
	id     int
}

var (
	atomTab  = map[string]*Atom{}
	atoms    []*Atom
	polyTab  = map[string]*Poly{}
	boolTab  = map[string]*Bool{}
	clock    = 1
	freshCnt = map[string]int{}
)

func bi(x int64) *big.Int { return big.NewInt(x) }
func pow2big(k uint) *big.Int {
	return new(big.Int).Lsh(big.NewInt(1), k)
}

var (
	bigR   = pow2big(64)
	bigRm1 = new(big.Int).Sub(bigR, bi(1))
	maxLen = pow2big(48)
)

func internAtom(key string, mk func() *Atom) *Atom {
	if a, ok := atomTab[key]; ok {
		return a
	}
	a := mk()
	a.id = len(atoms)
	atoms = append(atoms, a)
	atomTab[key] = a
	return a
}

func freshName(prefix string) string {
	freshCnt[prefix]++
	return prefix + "!" + strconv.Itoa(freshCnt[prefix])
}

func FreshVar(prefix string, lo, hi *big.Int) *Poly {
	n := freshName(prefix)
	clock++
	ts := clock
	return internAtom("V"+n, func() *Atom { return &Atom{kind: AVar, name: n, lo: lo, hi: hi, ts: ts} }).P()
}

func NamedVar(n string, lo, hi *big.Int) *Poly {
	return internAtom("V"+n, func() *Atom { return &Atom{kind: AVar, name: n, lo: lo, hi: hi, ts: 0} }).P()
}

// tsUnknown: values that may denote anything, including later allocations
const tsUnknown = 1 << 60

func SkolemVar(n string) *Poly {
	return internAtom("V"+n, func() *Atom { return &Atom{kind: AVar, name: n, ts: tsUnknown} }).P()
}

func FreshAlloc() *Poly {
	n := freshName("alloc")
	clock++
	ts := clock
	return internAtom("V"+n, func() *Atom { return &Atom{kind: AVar, name: n, lo: bi(1), ts: ts, alloc: true} }).P()
}

func FreshBound(name string) *Atom {
	n := freshName("?" + name)
	return internAtom("B"+n, func() *Atom { return &Atom{kind: ABnd, name: n, hasBnd: true, ts: tsUnknown} })
}

func (a *Atom) P() *Poly {
	if a.poly == nil {
		a.poly = mkPoly([]term{{mkMono([]*Atom{a}), bi(1)}})
	}
	return a.poly
}

func mkMono(as []*Atom) mono {
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	var sb strings.Builder
	for _, a := range as {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte('.')
	}
	return mono{as, sb.String()}
}

func mulMono(a, b mono) mono {
	if len(a.as) == 0 {
		return b
	}
	if len(b.as) == 0 {
		return a
	}
	as := make([]*Atom, 0, len(a.as)+len(b.as))
	as = append(as, a.as...)
	as = append(as, b.as...)
	// indicator atoms are idempotent
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	out := as[:0]
	for i, x := range as {
		if i > 0 && x == as[i-1] && x.kind == AInd {
			continue
		}
		out = append(out, x)
	}
	return mkMono(out)
}

// mkPoly interns a polynomial given with distinct monomials.
func mkPoly(ts []term) *Poly {
	out := ts[:0:0]
	sorted := true
	for _, t := range ts {
		if t.c.Sign() != 0 {
			if len(out) > 0 && out[len(out)-1].m.key > t.m.key {
				sorted = false
			}
			out = append(out, t)
		}
	}
	if !sorted {
		sort.Slice(out, func(i, j int) bool { return out[i].m.key < out[j].m.key })
	}
	return internPoly(out)
}

var polyBuf []byte

// internPoly interns sorted terms with non-zero coefficients; it keeps ts.
func internPoly(ts []term) *Poly {
	sb := polyBuf[:0]
	for i := range ts {
		t := &ts[i]
		if t.c.IsInt64() {
			sb = strconv.AppendInt(sb, t.c.Int64(), 36)
		} else {
			if t.c.Sign() < 0 {
				sb = append(sb, '_')
			}
			sb = append(sb, '#')
			sb = t.c.Append(sb, 62)
		}
		sb = append(sb, '*')
		sb = append(sb, t.m.key...)
		sb = append(sb, '+')
	}
	polyBuf = sb
	if p, ok := polyTab[string(sb)]; ok {
		return p
	}
	hb := false
	for _, t := range ts {
		for _, a := range t.m.as {
			if a.hasBnd {
				hb = true
			}
		}
	}
	k := string(sb)
	p := &Poly{ts: ts, key: k, hasBnd: hb, id: len(polyTab)}
	polyTab[k] = p
	return p
}

func ConstB(c *big.Int) *Poly {
	if c.Sign() == 0 {
		return mkPoly(nil)
	}
	if c.IsInt64() {
		return Const(c.Int64())
	}
	return mkPoly([]term{{mono{}, new(big.Int).Set(c)}})
}

var smallConst [256]*Poly

func Const(c int64) *Poly {
	if c >= -128 && c < 128 {
		if p := smallConst[c+128]; p != nil {
			return p
		}
	}
	var p *Poly
	if c == 0 {
		p = mkPoly(nil)
	} else {
		p = mkPoly([]term{{mono{}, big.NewInt(c)}})
	}
	if c >= -128 && c < 128 {
		smallConst[c+128] = p
	}
	return p
}

func (p *Poly) IsConst() (*big.Int, bool) {
	if len(p.ts) == 0 {
		return bi(0), true
	}
	if len(p.ts) == 1 && len(p.ts[0].m.as) == 0 {
		return p.ts[0].c, true
	}
	return nil, false
}

func scaled(c, k *big.Int) *big.Int {
	if k.IsInt64() {
		switch k.Int64() {
		case 1:
			return c
		case -1:
			return new(big.Int).Neg(c)
		}
	}
	return new(big.Int).Mul(c, k)
}

// combine is ka*a + kb*b; the terms of both are sorted.
func combine(a *Poly, ka *big.Int, b *Poly, kb *big.Int) *Poly {
	out := make([]term, 0, len(a.ts)+len(b.ts))
	i, j := 0, 0
	put := func(m mono, c *big.Int) {
		if c.Sign() != 0 {
			out = append(out, term{m, c})
		}
	}
	for i < len(a.ts) || j < len(b.ts) {
		switch {
		case j == len(b.ts) || i < len(a.ts) && a.ts[i].m.key < b.ts[j].m.key:
			put(a.ts[i].m, scaled(a.ts[i].c, ka))
			i++
		case i == len(a.ts) || b.ts[j].m.key < a.ts[i].m.key:
			put(b.ts[j].m, scaled(b.ts[j].c, kb))
			j++
		default:
			put(a.ts[i].m, new(big.Int).Add(scaled(a.ts[i].c, ka), scaled(b.ts[j].c, kb)))
			i++
			j++
		}
	}
	return internPoly(out)
}

func (a *Poly) Add(b *Poly) *Poly {
	if len(b.ts) == 0 {
		return a
	}
	if len(a.ts) == 0 {
		return b
	}
	return combine(a, bi(1), b, bi(1))
}
func (a *Poly) Sub(b *Poly) *Poly {
	if len(b.ts) == 0 {
		return a
	}
	if a == b {
		return Const(0)
	}
	return combine(a, bi(1), b, bi(-1))
}
func (a *Poly) Neg() *Poly             { return combine(a, bi(-1), Const(0), bi(1)) }
func (a *Poly) Scale(k *big.Int) *Poly { return combine(a, k, Const(0), bi(1)) }
func (a *Poly) AddC(k int64) *Poly     { return a.Add(Const(k)) }

func (a *Poly) Mul(b *Poly) *Poly {
	if c, ok := a.IsConst(); ok {
		return b.Scale(c)
	}
	if c, ok := b.IsConst(); ok {
		return a.Scale(c)
	}
	m := map[string]*term{}
	var order []*term
	for _, x := range a.ts {
		for _, y := range b.ts {
			mm := mulMono(x.m, y.m)
			c := new(big.Int).Mul(x.c, y.c)
			if e, ok := m[mm.key]; ok {
				e.c.Add(e.c, c)
			} else {
				e := &term{mm, c}
				m[mm.key] = e
				order = append(order, e)
			}
		}
	}
	ts := make([]term, len(order))
	for i, e := range order {
		ts[i] = *e
	}
	return mkPoly(ts)
}

// single atom?
func (p *Poly) AsAtom() *Atom {
	if len(p.ts) == 1 && len(p.ts[0].m.as) == 1 && p.ts[0].c.Cmp(bi(1)) == 0 {
		return p.ts[0].m.as[0]
	}
	return nil
}

func (p *Poly) ConstPart() *big.Int {
	for _, t := range p.ts {
		if len(t.m.as) == 0 {
			return t.c
		}
	}
	return bi(0)
}

// ---- intervals ----

func mulIv(alo, ahi, blo, bhi *big.Int) (lo, hi *big.Int) {
	// any nil -> handle nonneg cases only
	if alo != nil && ahi != nil && blo != nil && bhi != nil {
		c := []*big.Int{new(big.Int).Mul(alo, blo), new(big.Int).Mul(alo, bhi), new(big.Int).Mul(ahi, blo), new(big.Int).Mul(ahi, bhi)}
		lo, hi = c[0], c[0]
		for _, x := range c[1:] {
			if x.Cmp(lo) < 0 {
				lo = x
			}
			if x.Cmp(hi) > 0 {
				hi = x
			}
		}
		return
	}
	if alo != nil && blo != nil && alo.Sign() >= 0 && blo.Sign() >= 0 {
		lo = new(big.Int).Mul(alo, blo)
		if ahi != nil && bhi != nil {
			hi = new(big.Int).Mul(ahi, bhi)
		}
		if (ahi != nil && ahi.Sign() == 0) || (bhi != nil && bhi.Sign() == 0) {
			hi = bi(0)
		}
		return
	}
	return nil, nil
}

func (p *Poly) Interval() (lo, hi *big.Int) {
	if p.ivDone {
		return p.lo, p.hi
	}
	lo, hi = bi(0), bi(0)
	for _, t := range p.ts {
		l, h := bi(1), bi(1)
		for i, a := range t.m.as {
			// squares
			_ = i
			l, h = mulIv(l, h, a.lo, a.hi)
		}
		var l2, h2 *big.Int
		if t.c.Sign() > 0 {
			l2, h2 = l, h
		} else {
			l2, h2 = h, l
		}
		if lo != nil {
			if l2 == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(t.c, l2))
			}
		}
		if hi != nil {
			if h2 == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(t.c, h2))
			}
		}
	}
	p.lo, p.hi, p.ivDone = lo, hi, true
	return
}

func (p *Poly) In(lo, hi *big.Int) bool { // inclusive
	l, h := p.Interval()
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

// ---- derived integer operations ----

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b>0 so this is floor
	return q
}

// DivC: floor division by the positive constant c.
func DivC(p *Poly, c *big.Int) *Poly {
	if c.Cmp(bi(1)) == 0 {
		return p
	}
	// split off multiples of c
	var whole, rest []term
	for _, t := range p.ts {
		q := floorDiv(t.c, c)
		r := new(big.Int).Sub(t.c, new(big.Int).Mul(q, c))
		if len(t.m.as) > 0 && r.Sign() != 0 {
			// only split off when exactly divisible: keeps the atom canonical
			// for structurally equal dividends
			rest = append(rest, t)
			continue
		}
		if q.Sign() != 0 {
			whole = append(whole, term{t.m, q})
		}
		if r.Sign() != 0 {
			rest = append(rest, term{t.m, r})
		}
	}
	w, r := mkPoly(whole), mkPoly(rest)
	if k, ok := r.IsConst(); ok {
		return w.Add(ConstB(floorDiv(k, c)))
	}
	// common factor of the dividend and the divisor
	g := new(big.Int).Set(c)
	for _, t := range r.ts {
		if len(t.m.as) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
		}
	}
	if g.Cmp(bi(1)) > 0 {
		var nt []term
		for _, t := range r.ts {
			nt = append(nt, term{t.m, floorDiv(t.c, g)})
		}
		return w.Add(DivC(mkPoly(nt), new(big.Int).Div(c, g)))
	}
	// floor(floor(p/a)/c) = floor(p/(a*c))
	if len(r.ts) == 1 && len(r.ts[0].m.as) == 1 && r.ts[0].c.Cmp(bi(1)) == 0 && r.ts[0].m.as[0].kind == ADiv {
		d := r.ts[0].m.as[0]
		return w.Add(DivC(d.p, new(big.Int).Mul(d.c, c)))
	}
	lo, hi := r.Interval()
	if lo != nil && hi != nil {
		ql, qh := floorDiv(lo, c), floorDiv(hi, c)
		if ql.Cmp(qh) == 0 {
			return w.Add(ConstB(ql))
		}
		if new(big.Int).Sub(qh, ql).Cmp(bi(1)) == 0 {
			// ql + [r >= c*qh]
			return w.Add(ConstB(ql)).Add(Ind(Ge(r, ConstB(new(big.Int).Mul(c, qh)))))
		}
	}
	a := internAtom("D"+r.key+"/"+c.Text(36), func() *Atom {
		at := &Atom{kind: ADiv, p: r, c: new(big.Int).Set(c), hasBnd: r.hasBnd}
		if lo != nil {
			at.lo = floorDiv(lo, c)
		}
		if hi != nil {
			at.hi = floorDiv(hi, c)
		}
		return at
	})
	return w.Add(a.P())
}

func ModC(p *Poly, c *big.Int) *Poly { return p.Sub(DivC(p, c).Scale(c)) }

// DivV: floor division by a variable (facts are only emitted for positive divisors).
func DivV(p, q *Poly) *Poly {
	if c, ok := q.IsConst(); ok && c.Sign() > 0 {
		return DivC(p, c)
	}
	a := internAtom("DV"+p.key+"/"+q.key, func() *Atom {
		at := &Atom{kind: ADivV, p: p, q: q, hasBnd: p.hasBnd || q.hasBnd}
		lp, hp := p.Interval()
		lq, _ := q.Interval()
		if lp != nil && lp.Sign() >= 0 && lq != nil && lq.Sign() >= 0 {
			at.lo = bi(0)
			at.hi = hp
		}
		return at
	})
	return a.P()
}
func ModV(p, q *Poly) *Poly { return p.Sub(DivV(p, q).Mul(q)) }

func Ind(b *Bool) *Poly {
	if b == True {
		return Const(1)
	}
	if b == False {
		return Const(0)
	}
	if b.kind == BNot {
		return Const(1).Sub(Ind(b.args[0]))
	}
	return internAtom("I"+b.key, func() *Atom { return &Atom{kind: AInd, b: b, lo: bi(0), hi: bi(1), hasBnd: b.hasBnd} }).P()
}

func IteP(c *Bool, t, e *Poly) *Poly {
	if t == e || c == True {
		return t
	}
	if c == False {
		return e
	}
	d := t.Sub(e)
	simple := len(d.ts) <= 3
	for _, x := range d.ts {
		if len(x.m.as) > 1 {
			simple = false
		}
	}
	if simple {
		return e.Add(Ind(c).Mul(d))
	}
	return internAtom("T"+c.key+"?"+t.key+":"+e.key, func() *Atom {
		at := &Atom{kind: AIte, b: c, p: t, q: e, hasBnd: c.hasBnd || t.hasBnd || e.hasBnd}
		l1, h1 := t.Interval()
		l2, h2 := e.Interval()
		if l1 != nil && l2 != nil {
			at.lo = minB(l1, l2)
		}
		if h1 != nil && h2 != nil {
			at.hi = maxB(h1, h2)
		}
		at.ts = maxI(polyTS(t), polyTS(e))
		return at
	}).P()
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func polyTS(p *Poly) int {
	t := 0
	for _, x := range p.ts {
		for _, a := range x.m.as {
			t = maxI(t, a.ts)
		}
	}
	return t
}

func App(name string, lo, hi *big.Int, args ...*Poly) *Poly {
	var sb strings.Builder
	sb.WriteString("F" + name)
	hb := false
	ts := 0
	if strings.HasPrefix(name, "skf!") {
		ts = tsUnknown
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(a.key)
		hb = hb || a.hasBnd
		ts = maxI(ts, polyTS(a))
	}
	return internAtom(sb.String(), func() *Atom {
		return &Atom{kind: AApp, name: name, args: args, lo: lo, hi: hi, hasBnd: hb, ts: ts}
	}).P()
}

// ---- booleans ----

type BKind uint8

const (
	BTrue BKind = iota
	BFalse
	BGe0
	BEq0
	BNot
	BAnd
	BOr
	BVar
	BApp
	BForall
	BCong // p ≡ 0 mod q
)

type Bool struct {
	kind   BKind
	p, q   *Poly
	args   []*Bool
	name   string
	pargs  []*Poly
	vars   []*Atom
	key    string
	hasBnd bool
	id     int
	qid    int
	neg    *Bool // cached negation
}

func internBool(key string, mk func() *Bool) *Bool {
	if b, ok := boolTab[key]; ok {
		return b
	}
	b := mk()
	b.key = key
	b.id = len(boolTab)
	boolTab[key] = b
	return b
}

var True = internBool("t", func() *Bool { return &Bool{kind: BTrue} })
var False = internBool("f", func() *Bool { return &Bool{kind: BFalse} })

func Ge0(p *Poly) *Bool {
	lo, hi := p.Interval()
	if lo != nil && lo.Sign() >= 0 {
		return True
	}
	if hi != nil && hi.Sign() < 0 {
		return False
	}
	// normalise by gcd of the non-constant coefficients
	g := new(big.Int)
	for _, t := range p.ts {
		if len(t.m.as) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
		}
	}
	if g.Cmp(bi(1)) > 0 {
		ts := make([]term, 0, len(p.ts))
		for _, t := range p.ts {
			ts = append(ts, term{t.m, floorDiv(t.c, g)})
		}
		p = mkPoly(ts)
	}
	if b := bitlenGe(p); b != nil {
		return b
	}
	return internBool("g("+p.key+")", func() *Bool { return &Bool{kind: BGe0, p: p, hasBnd: p.hasBnd} })
}

// bitlenGe rewrites a comparison of the bit length of x (0 <= x < 2^64) with a
// constant into a comparison of x with a power of two.
func bitlenGe(p *Poly) *Bool {
	c := new(big.Int)
	var x *Poly
	up := false
	for _, t := range p.ts {
		switch {
		case len(t.m.as) == 0:
			c = t.c
		case x == nil && len(t.m.as) == 1 && t.m.as[0].name == "bitlen" && t.c.IsInt64() && (t.c.Int64() == 1 || t.c.Int64() == -1):
			x, up = t.m.as[0].args[0], t.c.Sign() > 0
		default:
			return nil
		}
	}
	if x == nil || !c.IsInt64() {
		return nil
	}
	k := c.Int64()
	if up { // bitlen(x) >= -k, with -k >= 1 here by the interval of bitlen
		if -k < 1 || -k > 64 {
			return nil
		}
		return Ge(x, ConstB(pow2big(uint(-k-1))))
	}
	if k < 0 || k > 64 { // bitlen(x) <= k
		return nil
	}
	return Lt(x, ConstB(pow2big(uint(k))))
}
func Ge(a, b *Poly) *Bool { return Ge0(a.Sub(b)) }
func Lt(a, b *Poly) *Bool { return Ge0(b.Sub(a).AddC(-1)) }
func Le(a, b *Poly) *Bool { return Ge0(b.Sub(a)) }

func Eq0(p *Poly) *Bool {
	if k, ok := p.IsConst(); ok {
		if k.Sign() == 0 {
			return True
		}
		return False
	}
	lo, hi := p.Interval()
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return False
	}
	if p.ts[0].c.Sign() < 0 {
		p = p.Neg()
	}
	return internBool("e("+p.key+")", func() *Bool { return &Bool{kind: BEq0, p: p, hasBnd: p.hasBnd} })
}
func Eq(a, b *Poly) *Bool { return Eq0(a.Sub(b)) }

func Cong(d, q *Poly) *Bool {
	if k, ok := d.IsConst(); ok && k.Sign() == 0 {
		return True
	}
	return internBool("c("+d.key+"%"+q.key+")", func() *Bool { return &Bool{kind: BCong, p: d, q: q, hasBnd: d.hasBnd || q.hasBnd} })
}

func Not(b *Bool) *Bool {
	switch b.kind {
	case BTrue:
		return False
	case BFalse:
		return True
	case BNot:
		return b.args[0]
	}
	if b.neg == nil {
		b.neg = not(b)
		if b.neg.neg == nil {
			b.neg.neg = b
		}
	}
	return b.neg
}

func not(b *Bool) *Bool {
	if b.kind == BGe0 {
		return Ge0(b.p.Neg().AddC(-1))
	}
	if b.kind == BAnd || b.kind == BOr {
		if r, ok := notCache[b]; ok {
			return r
		}
		as := make([]*Bool, len(b.args))
		for i, x := range b.args {
			as[i] = Not(x)
		}
		var r *Bool
		if b.kind == BAnd {
			r = Or(as...)
		} else {
			r = And(as...)
		}
		notCache[b] = r
		return r
	}
	return internBool("!("+b.key+")", func() *Bool { return &Bool{kind: BNot, args: []*Bool{b}, hasBnd: b.hasBnd} })
}

var notCache = map[*Bool]*Bool{}

func And(bs ...*Bool) *Bool {
	var out []*Bool
	seen := map[*Bool]bool{}
	var rec func(b *Bool) bool
	rec = func(b *Bool) bool {
		switch b.kind {
		case BTrue:
			return true
		case BFalse:
			return false
		case BAnd:
			for _, x := range b.args {
				if !rec(x) {
					return false
				}
			}
			return true
		}
		if seen[b] {
			return true
		}
		if (b.kind == BNot || b.kind == BGe0) && seen[Not(b)] {
			return false
		}
		if seen[Not(b)] {
			return false
		}
		seen[b] = true
		out = append(out, b)
		return true
	}
	for _, b := range bs {
		if !rec(b) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return naryBool(BAnd, "&", out)
}

func Or(bs ...*Bool) *Bool {
	var out []*Bool
	seen := map[*Bool]bool{}
	var rec func(b *Bool) bool
	rec = func(b *Bool) bool {
		switch b.kind {
		case BFalse:
			return true
		case BTrue:
			return false
		case BOr:
			for _, x := range b.args {
				if !rec(x) {
					return false
				}
			}
			return true
		}
		if seen[b] {
			return true
		}
		if seen[Not(b)] {
			return false
		}
		seen[b] = true
		out = append(out, b)
		return true
	}
	for _, b := range bs {
		if !rec(b) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return naryBool(BOr, "|", out)
}

func naryBool(k BKind, op string, out []*Bool) *Bool {
	var sb strings.Builder
	sb.WriteString(op + "(")
	hb := false
	for _, b := range out {
		sb.WriteString(strconv.Itoa(b.id))
		sb.WriteByte(',')
		hb = hb || b.hasBnd
	}
	sb.WriteString(")")
	return internBool(sb.String(), func() *Bool { return &Bool{kind: k, args: out, hasBnd: hb} })
}

func Imp(a, b *Bool) *Bool { return Or(Not(a), b) }
func Iff(a, b *Bool) *Bool {
	if a == b {
		return True
	}
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if a == False {
		return Not(b)
	}
	if b == False {
		return Not(a)
	}
	return And(Imp(a, b), Imp(b, a))
}
func IteB(c, a, b *Bool) *Bool {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	return And(Imp(c, a), Imp(Not(c), b))
}

func FreshBool(prefix string) *Bool {
	n := freshName(prefix)
	return internBool("v"+n, func() *Bool { return &Bool{kind: BVar, name: n} })
}

func BoolApp(name string, args ...*Poly) *Bool {
	var sb strings.Builder
	sb.WriteString("a" + name)
	hb := false
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(a.key)
		hb = hb || a.hasBnd
	}
	return internBool(sb.String(), func() *Bool { return &Bool{kind: BApp, name: name, pargs: args, hasBnd: hb} })
}

// Forall over bound atoms. Nested quantifiers are flattened.
func Forall(vars []*Atom, body *Bool) *Bool {
	if body == True || body == False || !body.hasBnd {
		return body
	}
	if body.kind == BAnd {
		var out []*Bool
		for _, x := range body.args {
			out = append(out, Forall(vars, x))
		}
		return And(out...)
	}
	// pull (guard => forall) outwards: handled at instantiation time
	var sb strings.Builder
	sb.WriteString("A")
	for _, v := range vars {
		sb.WriteString(strconv.Itoa(v.id))
		sb.WriteByte(',')
	}
	sb.WriteString(strconv.Itoa(body.id))
	free := hasFreeBnd(body, vars)
	return internBool(sb.String(), func() *Bool {
		return &Bool{kind: BForall, vars: vars, args: []*Bool{body}, hasBnd: free}
	})
}

// ---- memory ----

type MKind uint8

const (
	MVar MKind = iota
	MStore
	MSetRow
	MIte
)

type Row struct {
	name string // "" = zero row
	ts   int
}

type Mem struct {
	kind  MKind
	name  string
	comp  string
	m, m2 *Mem
	base  *Poly
	off   *Poly
	val   *Poly
	row   *Row
	c     *Bool
	key   string
	ts    int
	lo    *big.Int
	hi    *big.Int
	hasB  bool
}

var memTab = map[string]*Mem{}

func internMem(key string, mk func() *Mem) *Mem {
	if m, ok := memTab[key]; ok {
		return m
	}
	m := mk()
	m.key = strconv.Itoa(len(memTab))
	memTab[key] = m
	return m
}

func NewMemVar(comp, name string, lo, hi *big.Int) *Mem {
	clock++
	ts := clock
	if strings.HasSuffix(name, "!0") {
		ts = 0
	}
	return internMem("v"+name, func() *Mem { return &Mem{kind: MVar, name: name, comp: comp, ts: ts, lo: lo, hi: hi} })
}

func (m *Mem) Store(base, off, val *Poly) *Mem {
	// overwrite of the same cell
	if m.kind == MStore && m.base == base && m.off == off {
		return m.m.Store(base, off, val)
	}
	return internMem("s"+m.key+"["+base.key+"]["+off.key+"]="+val.key, func() *Mem {
		return &Mem{kind: MStore, comp: m.comp, m: m, base: base, off: off, val: val, lo: m.lo, hi: m.hi,
			ts: maxI(m.ts, polyTS(val)), hasB: m.hasB || base.hasBnd || off.hasBnd || val.hasBnd}
	})
}
func (m *Mem) SetRow(base *Poly, row *Row) *Mem {
	if (m.kind == MStore || m.kind == MSetRow) && m.base == base {
		return m.m.SetRow(base, row)
	}
	return internMem("r"+m.key+"["+base.key+"]="+row.name, func() *Mem {
		return &Mem{kind: MSetRow, comp: m.comp, m: m, base: base, row: row, lo: m.lo, hi: m.hi, ts: maxI(m.ts, row.ts), hasB: m.hasB || base.hasBnd}
	})
}
func IteM(c *Bool, a, b *Mem) *Mem {
	if a == b || c == True {
		return a
	}
	if c == False {
		return b
	}
	return internMem("i"+c.key+"?"+a.key+":"+b.key, func() *Mem {
		return &Mem{kind: MIte, comp: a.comp, c: c, m: a, m2: b, lo: a.lo, hi: a.hi, ts: maxI(a.ts, b.ts), hasB: a.hasB || b.hasB || c.hasBnd}
	})
}

func FreshRow(prefix string) *Row {
	clock++
	return &Row{name: freshName(prefix), ts: clock}
}

// Known distinctness of two base addresses (syntactic).
func distinctBase(a, b *Poly) bool {
	if a == b {
		return false
	}
	if k, ok := a.Sub(b).IsConst(); ok {
		return k.Sign() != 0
	}
	aa, ba := a.AsAtom(), b.AsAtom()
	if ka, ok := a.IsConst(); ok && ka.Sign() == 0 && ba != nil && ba.alloc {
		return true
	}
	if kb, ok := b.IsConst(); ok && kb.Sign() == 0 && aa != nil && aa.alloc {
		return true
	}
	if aa != nil && ba != nil {
		if aa.alloc && baseTS(ba) < aa.ts {
			return true
		}
		if ba.alloc && baseTS(aa) < ba.ts {
			return true
		}
		if distinctPairs[[2]*Atom{aa, ba}] || distinctPairs[[2]*Atom{ba, aa}] {
			return true
		}
	}
	return false
}

func baseTS(a *Atom) int { return a.ts }

var distinctPairs = map[[2]*Atom]bool{}

func (m *Mem) Read(base, off *Poly) *Poly {
	for {
		switch m.kind {
		case MStore:
			if m.base == base {
				d := m.off.Sub(off)
				if k, ok := d.IsConst(); ok {
					if k.Sign() == 0 {
						return m.val
					}
					m = m.m
					continue
				}
				if nonzero(d) {
					m = m.m
					continue
				}
			} else if distinctBase(m.base, base) {
				m = m.m
				continue
			} else if k, ok := m.off.Sub(off).IsConst(); ok && k.Sign() != 0 {
				m = m.m
				continue
			}
		case MSetRow:
			if m.base == base {
				if m.row.name == "" {
					return Const(0)
				}
				row, comp, lo, hi := m.row, m.comp, m.lo, m.hi
				_ = comp
				return internAtom("R"+row.name+"["+off.key+"]", func() *Atom {
					return &Atom{kind: ASel, row: row, off: off, mem: m, base: base, lo: lo, hi: hi, ts: row.ts, hasBnd: off.hasBnd}
				}).P()
			} else if distinctBase(m.base, base) {
				m = m.m
				continue
			}
		case MIte:
			a, b := m.m.Read(base, off), m.m2.Read(base, off)
			if a == b {
				return a
			}
			// keep the read symbolic only when both sides are atoms anyway
			return IteP(m.c, a, b)
		}
		break
	}
	mm := m
	return internAtom("S"+m.key+"["+base.key+"]["+off.key+"]", func() *Atom {
		return &Atom{kind: ASel, mem: mm, base: base, off: off, lo: mm.lo, hi: mm.hi, ts: maxI(mm.ts, polyTS(base)), hasBnd: base.hasBnd || off.hasBnd || mm.hasB}
	}).P()
}

// bounds of skolem constants, valid wherever the constant occurs
type skBound struct{ lb, ub []*Poly }

var skBounds = map[*Atom]skBound{}

// nonzero: syntactically d != 0
func nonzero(d *Poly) bool {
	lo, hi := d.Interval()
	if (lo != nil && lo.Sign() > 0) || (hi != nil && hi.Sign() < 0) {
		return true
	}
	for _, t := range d.ts {
		if len(t.m.as) != 1 || t.c.CmpAbs(bi(1)) != 0 {
			continue
		}
		b, ok := skBounds[t.m.as[0]]
		if !ok {
			continue
		}
		rest := d.Sub(t.m.as[0].P().Scale(t.c))
		pos := t.c.Sign() > 0
		for _, u := range b.ub {
			var e *Poly
			if pos {
				e = rest.Add(u)
				if _, h := e.Interval(); h != nil && h.Sign() < 0 {
					return true
				}
			} else {
				e = rest.Sub(u)
				if l, _ := e.Interval(); l != nil && l.Sign() > 0 {
					return true
				}
			}
		}
		for _, w := range b.lb {
			var e *Poly
			if pos {
				e = rest.Add(w)
				if l, _ := e.Interval(); l != nil && l.Sign() > 0 {
					return true
				}
			} else {
				e = rest.Sub(w)
				if _, h := e.Interval(); h != nil && h.Sign() < 0 {
					return true
				}
			}
		}
	}
	return false
}

// ---- substitution ----

type Subst struct {
	m  map[*Atom]*Poly
	pc map[*Poly]*Poly
	bc map[*Bool]*Bool
	mc map[*Mem]*Mem
}

func NewSubst(m map[*Atom]*Poly) *Subst {
	return &Subst{m: m, pc: map[*Poly]*Poly{}, bc: map[*Bool]*Bool{}, mc: map[*Mem]*Mem{}}
}

func (s *Subst) Poly(p *Poly) *Poly {
	if !p.hasBnd {
		return p
	}
	if r, ok := s.pc[p]; ok {
		return r
	}
	var ground []term
	for _, t := range p.ts {
		g := true
		for _, a := range t.m.as {
			g = g && !a.hasBnd
		}
		if g {
			ground = append(ground, t)
		}
	}
	res := internPoly(ground)
	for _, t := range p.ts {
		g := true
		var x *Poly
		for _, a := range t.m.as {
			if a.hasBnd {
				g = false
			}
		}
		if g {
			continue
		}
		for _, a := range t.m.as {
			if x == nil {
				x = s.Atom(a)
			} else {
				x = x.Mul(s.Atom(a))
			}
		}
		res = combine(res, one, x, t.c)
	}
	s.pc[p] = res
	return res
}

var one = big.NewInt(1)

func (s *Subst) Atom(a *Atom) *Poly {
	if !a.hasBnd {
		return a.P()
	}
	switch a.kind {
	case ABnd:
		if r, ok := s.m[a]; ok {
			return r
		}
		return a.P()
	case ASel:
		return s.Mem(a.mem).Read(s.Poly(a.base), s.Poly(a.off))
	case AInd:
		return Ind(s.Bool(a.b))
	case ADiv:
		return DivC(s.Poly(a.p), a.c)
	case ADivV:
		return DivV(s.Poly(a.p), s.Poly(a.q))
	case AApp:
		args := make([]*Poly, len(a.args))
		for i := range args {
			args[i] = s.Poly(a.args[i])
		}
		return App(a.name, a.lo, a.hi, args...)
	case AIte:
		return IteP(s.Bool(a.b), s.Poly(a.p), s.Poly(a.q))
	}
	return a.P()
}

func (s *Subst) Mem(m *Mem) *Mem {
	if !m.hasB {
		return m
	}
	if r, ok := s.mc[m]; ok {
		return r
	}
	var r *Mem
	switch m.kind {
	case MStore:
		r = s.Mem(m.m).Store(s.Poly(m.base), s.Poly(m.off), s.Poly(m.val))
	case MSetRow:
		r = s.Mem(m.m).SetRow(s.Poly(m.base), m.row)
	case MIte:
		r = IteM(s.Bool(m.c), s.Mem(m.m), s.Mem(m.m2))
	default:
		r = m
	}
	s.mc[m] = r
	return r
}

func (s *Subst) Bool(b *Bool) *Bool {
	if !b.hasBnd {
		return b
	}
	if r, ok := s.bc[b]; ok {
		return r
	}
	var r *Bool
	switch b.kind {
	case BGe0:
		r = Ge0(s.Poly(b.p))
	case BEq0:
		r = Eq0(s.Poly(b.p))
	case BCong:
		r = Cong(s.Poly(b.p), s.Poly(b.q))
	case BNot:
		r = Not(s.Bool(b.args[0]))
	case BAnd, BOr:
		args := make([]*Bool, len(b.args))
		for i := range args {
			args[i] = s.Bool(b.args[i])
		}
		if b.kind == BAnd {
			r = And(args...)
		} else {
			r = Or(args...)
		}
	case BApp:
		args := make([]*Poly, len(b.pargs))
		for i := range args {
			args[i] = s.Poly(b.pargs[i])
		}
		r = BoolApp(b.name, args...)
	case BForall:
		r = Forall(b.vars, s.Bool(b.args[0]))
	default:
		r = b
	}
	s.bc[b] = r
	return r
}

func hasFreeBnd(b *Bool, bound []*Atom) bool {
	set := map[*Atom]bool{}
	freeBndBool(b, set, map[interface{}]bool{})
	for _, v := range bound {
		delete(set, v)
	}
	return len(set) > 0
}

func freeBndPoly(p *Poly, set map[*Atom]bool, seen map[interface{}]bool) {
	if p == nil || !p.hasBnd || seen[p] {
		return
	}
	seen[p] = true
	for _, t := range p.ts {
		for _, a := range t.m.as {
			if !a.hasBnd {
				continue
			}
			switch a.kind {
			case ABnd:
				set[a] = true
			case ASel:
				freeBndMem(a.mem, set, seen)
				freeBndPoly(a.base, set, seen)
				freeBndPoly(a.off, set, seen)
			case AInd:
				freeBndBool(a.b, set, seen)
			case ADiv, ADivV:
				freeBndPoly(a.p, set, seen)
				freeBndPoly(a.q, set, seen)
			case AApp:
				for _, x := range a.args {
					freeBndPoly(x, set, seen)
				}
			case AIte:
				freeBndBool(a.b, set, seen)
				freeBndPoly(a.p, set, seen)
				freeBndPoly(a.q, set, seen)
			}
		}
	}
}

func freeBndMem(m *Mem, set map[*Atom]bool, seen map[interface{}]bool) {
	if m == nil || !m.hasB || seen[m] {
		return
	}
	seen[m] = true
	freeBndMem(m.m, set, seen)
	freeBndMem(m.m2, set, seen)
	freeBndPoly(m.base, set, seen)
	freeBndPoly(m.off, set, seen)
	freeBndPoly(m.val, set, seen)
	if m.c != nil {
		freeBndBool(m.c, set, seen)
	}
}

func freeBndBool(b *Bool, set map[*Atom]bool, seen map[interface{}]bool) {
	if b == nil || !b.hasBnd || seen[b] {
		return
	}
	seen[b] = true
	if b.kind == BForall {
		inner := map[*Atom]bool{}
		freeBndBool(b.args[0], inner, map[interface{}]bool{})
		for _, v := range b.vars {
			delete(inner, v)
		}
		for v := range inner {
			set[v] = true
		}
		return
	}
	freeBndPoly(b.p, set, seen)
	freeBndPoly(b.q, set, seen)
	for _, x := range b.args {
		freeBndBool(x, set, seen)
	}
	for _, x := range b.pargs {
		freeBndPoly(x, set, seen)
	}
}

func (p *Poly) String() string {
	if len(p.ts) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, t := range p.ts {
		if i > 0 {
			sb.WriteString(" + ")
		}
		if len(t.m.as) == 0 {
			sb.WriteString(t.c.String())
			continue
		}
		if t.c.Cmp(bi(1)) != 0 {
			if t.c.Cmp(bigR) == 0 {
				sb.WriteString("R*")
			} else if new(big.Int).Neg(t.c).Cmp(bigR) == 0 {
				sb.WriteString("-R*")
			} else {
				sb.WriteString(t.c.String() + "*")
			}
		}
		for j, a := range t.m.as {
			if j > 0 {
				sb.WriteString("*")
			}
			sb.WriteString(a.String())
		}
	}
	return sb.String()
}

func (a *Atom) String() string {
	switch a.kind {
	case AVar, ABnd:
		return a.name
	case ASel:
		if a.row != nil {
			return fmt.Sprintf("%s[%s]", a.row.name, a.off)
		}
		n := a.mem.name
		if n == "" {
			n = "mem" + a.mem.key
		}
		return fmt.Sprintf("%s[%s][%s]", n, a.base, a.off)
	case AInd:
		return "[" + a.b.String() + "]"
	case ADiv:
		return fmt.Sprintf("(%s)/%s", a.p, a.c)
	case ADivV:
		return fmt.Sprintf("(%s)/(%s)", a.p, a.q)
	case AApp:
		var s []string
		for _, x := range a.args {
			s = append(s, x.String())
		}
		return a.name + "(" + strings.Join(s, ", ") + ")"
	case AIte:
		return fmt.Sprintf("ite(%s, %s, %s)", a.b, a.p, a.q)
	}
	return "?"
}

func (b *Bool) String() string {
	switch b.kind {
	case BTrue:
		return "true"
	case BFalse:
		return "false"
	case BGe0:
		return b.p.String() + " >= 0"
	case BEq0:
		return b.p.String() + " == 0"
	case BCong:
		return b.p.String() + " ≡ 0 mod " + b.q.String()
	case BNot:
		return "!(" + b.args[0].String() + ")"
	case BAnd, BOr:
		op := " && "
		if b.kind == BOr {
			op = " || "
		}
		var s []string
		for _, x := range b.args {
			s = append(s, x.String())
		}
		return "(" + strings.Join(s, op) + ")"
	case BVar:
		return b.name
	case BApp:
		var s []string
		for _, x := range b.pargs {
			s = append(s, x.String())
		}
		return b.name + "(" + strings.Join(s, ", ") + ")"
	case BForall:
		var s []string
		for _, x := range b.vars {
			s = append(s, x.name)
		}
		return "forall " + strings.Join(s, ",") + ". " + b.args[0].String()
	}
	return "?"
}
