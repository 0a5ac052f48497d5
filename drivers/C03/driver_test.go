package driver

import (
	"math/big"
	"math/rand"
	"testing"

	"fast-ksw/ring"
)

// lane is one coefficient of a kernel call: inputs a, b, previous output c.
type lane struct{ a, b, c uint64 }

type env struct {
	q, qinv, s uint64
	bred       []uint64
	pow2       int
}

type kernel struct {
	name string
	ops  int // vector operands: 2 or 3
	gen  func(r *rand.Rand, e *env) lane
	call func(p1, p2, p3 []uint64, e *env)
	ok   func(l lane, got uint64, e *env) bool
	prep func(r *rand.Rand, e *env)
}

func cong(got uint64, want *big.Int, q uint64) bool { return congBig(bu(got), want, q) }

func congR(got uint64, want *big.Int, q uint64) bool {
	g := bu(got)
	return congBig(g.Mul(g, bigR64), want, q)
}

func mulB(a, b uint64) *big.Int { return new(big.Int).Mul(bu(a), bu(b)) }

func anyLane(r *rand.Rand, e *env) lane {
	return lane{edge64(r, e.q), edge64(r, e.q), residue(r, e.q)}
}

func redLane(r *rand.Rand, e *env) lane { return lane{residue(r, e.q), residue(r, e.q), residue(r, e.q)} }

func rOf(c uint64) *big.Int { return new(big.Int).Lsh(bu(c), 64) }

func TestVerifC03(t *testing.T) {
	verifMain(t, "every kernel on random and boundary lanes, lengths 0..64 (multiples of 8), every in-place aliasing of the operands, operands longer than the first; distinct = distinct inputs", func(v *V) {
		any2, red := anyLane, redLane
		ks := []kernel{
			{"AddVec", 3, red, func(a, b, c []uint64, e *env) { ring.AddVec(a, b, c, e.q) }, func(l lane, g uint64, e *env) bool {
				s := l.a + l.b
				if s >= e.q {
					s -= e.q
				}
				return g == s
			}, nil},
			{"AddVecNoMod", 3, red, func(a, b, c []uint64, e *env) { ring.AddVecNoMod(a, b, c) }, func(l lane, g uint64, e *env) bool { return g == l.a+l.b }, nil},
			{"SubVec", 3, red, func(a, b, c []uint64, e *env) { ring.SubVec(a, b, c, e.q) }, func(l lane, g uint64, e *env) bool {
				s := l.a + e.q - l.b
				if s >= e.q {
					s -= e.q
				}
				return g == s
			}, nil},
			{"SubVecNomod", 3, red, func(a, b, c []uint64, e *env) { ring.SubVecNomod(a, b, c, e.q) }, func(l lane, g uint64, e *env) bool { return g == l.a+e.q-l.b }, nil},
			{"NegVec", 2, red, func(a, b, c []uint64, e *env) { ring.NegVec(a, c, e.q) }, func(l lane, g uint64, e *env) bool { return g == e.q-l.a }, nil},
			{"ReduceVec", 2, any2, func(a, b, c []uint64, e *env) { ring.ReduceVec(a, c, e.q, e.bred) }, func(l lane, g uint64, e *env) bool { return g == l.a%e.q }, nil},
			{"ReduceConstantVec", 2, any2, func(a, b, c []uint64, e *env) { ring.ReduceConstantVec(a, c, e.q, e.bred) }, func(l lane, g uint64, e *env) bool { return g < 2*e.q && g%e.q == l.a%e.q }, nil},
			{"ModVec", 2, any2, func(a, b, c []uint64, e *env) { ring.ModVec(a, c, e.q, e.bred) }, func(l lane, g uint64, e *env) bool { return g == l.a%e.q }, nil},
			{"MulCoeffsVec", 3, any2, func(a, b, c []uint64, e *env) { ring.MulCoeffsVec(a, b, c, e.q, e.bred) }, func(l lane, g uint64, e *env) bool { return g == mulModBig(l.a, l.b, e.q) }, nil},
			{"MulCoeffsConstantVec", 3, any2, func(a, b, c []uint64, e *env) { ring.MulCoeffsConstantVec(a, b, c, e.q, e.bred) }, func(l lane, g uint64, e *env) bool { return g < 2*e.q && cong(g, mulB(l.a, l.b), e.q) }, nil},
			{"MulCoeffsAndAddVec", 3, red, func(a, b, c []uint64, e *env) { ring.MulCoeffsAndAddVec(a, b, c, e.q, e.bred) }, func(l lane, g uint64, e *env) bool {
				w := mulB(l.a, l.b)
				return g < e.q && cong(g, w.Add(w, bu(l.c)), e.q)
			}, nil},
			{"MulCoeffsAndAddNoModVec", 3, red, func(a, b, c []uint64, e *env) { ring.MulCoeffsAndAddNoModVec(a, b, c, e.q, e.bred) }, func(l lane, g uint64, e *env) bool {
				w := mulB(l.a, l.b)
				return g >= l.c && g-l.c < e.q && cong(g, w.Add(w, bu(l.c)), e.q)
			}, nil},
			{"MulCoeffsMontgomeryVec", 3, red, func(a, b, c []uint64, e *env) { ring.MulCoeffsMontgomeryVec(a, b, c, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool { return g < e.q && congR(g, mulB(l.a, l.b), e.q) }, nil},
			{"MulCoeffsMontgomeryConstantVec", 3, red, func(a, b, c []uint64, e *env) { ring.MulCoeffsMontgomeryConstantVec(a, b, c, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool { return g < 2*e.q && congR(g, mulB(l.a, l.b), e.q) }, nil},
			{"MulCoeffsMontgomeryAndAddVec", 3, red, func(a, b, c []uint64, e *env) { ring.MulCoeffsMontgomeryAndAddVec(a, b, c, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool {
				w := mulB(l.a, l.b)
				return g < e.q && congR(g, w.Add(w, rOf(l.c)), e.q)
			}, nil},
			{"MulCoeffsMontgomeryAndAddNoModVec", 3, red, func(a, b, c []uint64, e *env) { ring.MulCoeffsMontgomeryAndAddNoModVec(a, b, c, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool {
				w := mulB(l.a, l.b)
				return g >= l.c && g-l.c < e.q && congR(g, w.Add(w, rOf(l.c)), e.q)
			}, nil},
			{"MulCoeffsMontgomeryConstantAndAddNoModVec", 3, red, func(a, b, c []uint64, e *env) {
				ring.MulCoeffsMontgomeryConstantAndAddNoModVec(a, b, c, e.q, e.qinv)
			}, func(l lane, g uint64, e *env) bool {
				w := mulB(l.a, l.b)
				return g >= l.c && g-l.c < 2*e.q && congR(g, w.Add(w, rOf(l.c)), e.q)
			}, nil},
			{"MulCoeffsMontgomeryAndSubVec", 3, red, func(a, b, c []uint64, e *env) { ring.MulCoeffsMontgomeryAndSubVec(a, b, c, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool {
				return g < e.q && congR(g, new(big.Int).Sub(rOf(l.c), mulB(l.a, l.b)), e.q)
			}, nil},
			{"MulCoeffsMontgomeryAndSubNoMod", 3, red, func(a, b, c []uint64, e *env) { ring.MulCoeffsMontgomeryAndSubNoMod(a, b, c, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool {
				return g > l.c && g-l.c <= e.q && congR(g, new(big.Int).Sub(rOf(l.c), mulB(l.a, l.b)), e.q)
			}, nil},
			{"MulCoeffsMontgomeryConstantAndSubNoMod", 3, red, func(a, b, c []uint64, e *env) {
				ring.MulCoeffsMontgomeryConstantAndSubNoMod(a, b, c, e.q, e.qinv)
			}, func(l lane, g uint64, e *env) bool {
				return g > l.c && g-l.c <= 2*e.q && congR(g, new(big.Int).Sub(rOf(l.c), mulB(l.a, l.b)), e.q)
			}, nil},
			{"MulCoeffsMontgomeryConstantAndNeg", 3, red, func(a, b, c []uint64, e *env) { ring.MulCoeffsMontgomeryConstantAndNeg(a, b, c, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool {
				w := mulB(l.a, l.b)
				return g > 0 && g <= 2*e.q && congR(g, w.Neg(w), e.q)
			}, nil},
			{"AddVecNoModAndMulScalarMontgomeryVec", 3, red, func(a, b, c []uint64, e *env) {
				ring.AddVecNoModAndMulScalarMontgomeryVec(a, b, c, e.s, e.q, e.qinv)
			}, func(l lane, g uint64, e *env) bool { return g < e.q && congR(g, mulB(l.a+l.b, e.s), e.q) }, nil},
			{"AddScalarVec", 2, red, func(a, b, c []uint64, e *env) { ring.AddScalarVec(a, c, e.s, e.q) }, func(l lane, g uint64, e *env) bool {
				s := l.a + e.s
				if s >= e.q {
					s -= e.q
				}
				return g == s
			}, nil},
			{"AddScalarNoModVec", 2, red, func(a, b, c []uint64, e *env) { ring.AddScalarNoModVec(a, c, e.s) }, func(l lane, g uint64, e *env) bool { return g == l.a+e.s }, nil},
			{"AddScalarNoModAndNegTwoQiNoModVec", 2, red, func(a, b, c []uint64, e *env) { ring.AddScalarNoModAndNegTwoQiNoModVec(a, c, e.s, e.q) }, func(l lane, g uint64, e *env) bool { return g == e.s+2*e.q-l.a }, nil},
			{"SubScalarVec", 2, red, func(a, b, c []uint64, e *env) { ring.SubScalarVec(a, c, e.s, e.q) }, func(l lane, g uint64, e *env) bool {
				s := l.a + e.q - e.s
				if s >= e.q {
					s -= e.q
				}
				return g == s
			}, nil},
			{"MulScalarMontgomeryVec", 2, any2, func(a, b, c []uint64, e *env) { ring.MulScalarMontgomeryVec(a, c, e.s, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool { return g < e.q && congR(g, mulB(l.a, e.s), e.q) }, nil},
			{"MulScalarMontgomeryConstantVec", 2, any2, func(a, b, c []uint64, e *env) { ring.MulScalarMontgomeryConstantVec(a, c, e.s, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool { return g < 2*e.q && congR(g, mulB(l.a, e.s), e.q) }, nil},
			{"MulScalarMontgomeryAndAddVec", 2, red, func(a, b, c []uint64, e *env) { ring.MulScalarMontgomeryAndAddVec(a, c, e.s, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool {
				w := mulB(l.a, e.s)
				return g < e.q && congR(g, w.Add(w, rOf(l.c)), e.q)
			}, nil},
			{"SubVecAndMulScalarMontgomeryTwoQiVec", 3, red, func(a, b, c []uint64, e *env) {
				ring.SubVecAndMulScalarMontgomeryTwoQiVec(a, b, c, e.s, e.q, e.qinv)
			}, func(l lane, g uint64, e *env) bool {
				return g < e.q && congR(g, mulB(2*e.q+l.a-l.b, e.s), e.q)
			}, nil},
			{"MFormVec", 2, any2, func(a, b, c []uint64, e *env) { ring.MFormVec(a, c, e.q, e.bred) }, func(l lane, g uint64, e *env) bool { return g == mformBig(l.a, e.q) }, nil},
			{"MFormConstantVec", 2, any2, func(a, b, c []uint64, e *env) { ring.MFormConstantVec(a, c, e.q, e.bred) }, func(l lane, g uint64, e *env) bool { return g < 2*e.q && g%e.q == mformBig(l.a, e.q) }, nil},
			{"InvMFormVec", 2, any2, func(a, b, c []uint64, e *env) { ring.InvMFormVec(a, c, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool { return g < e.q && congR(g, bu(l.a), e.q) }, nil},
			{"MulByPow2Vec", 2, red, func(a, b, c []uint64, e *env) { ring.MulByPow2Vec(a, c, e.pow2, e.q, e.qinv) }, func(l lane, g uint64, e *env) bool {
				return g < e.q && congR(g, new(big.Int).Lsh(bu(l.a), uint(e.pow2)), e.q)
			}, nil},
		}
		for _, k := range ks {
			k := k
			v.Run(k.name, 1500, func(r *rand.Rand) (string, string) {
				e := &env{q: oddModulus(r, 61)}
				e.qinv, e.bred, e.s = qinvBig(e.q), bredBig(e.q), residue(r, e.q)
				e.pow2 = r.Intn(65)
				n := 8 * r.Intn(9)
				extra := r.Intn(3)
				// aliasing: which of the operands share the output's slice
				al := r.Intn(5)
				mk := func(m int) []uint64 { return make([]uint64, m) }
				p1 := mk(n)
				p2, p3 := mk(n+extra), mk(n+extra)
				switch {
				case al == 1:
					p3 = p1
				case al == 2 && k.ops == 3:
					p3 = p2
				case al == 3 && k.ops == 3:
					p2 = p1
				case al == 4 && k.ops == 3:
					p2, p3 = p1, p1
				}
				fill := func(p []uint64, f func() uint64) {
					for i := range p {
						p[i] = f()
					}
				}
				fill(p3, func() uint64 { return k.gen(r, e).c })
				fill(p2, func() uint64 { return k.gen(r, e).b })
				fill(p1, func() uint64 { return k.gen(r, e).a })
				if al != 0 && k.ops == 3 || al == 1 {
					// shared memory must satisfy the strictest bound
					fill(p1, func() uint64 { return residue(r, e.q) })
					fill(p2, func() uint64 { return residue(r, e.q) })
					fill(p3, func() uint64 { return residue(r, e.q) })
				}
				i1, i2, i3 := append([]uint64{}, p1...), append([]uint64{}, p2...), append([]uint64{}, p3...)
				in := In("%s(q=%d scalar=%d pow2=%d aliasing=%d p1=%v p2=%v p3=%v)", k.name, e.q, e.s, e.pow2, al, i1, i2, i3)
				k.call(p1, p2, p3, e)
				for i := 0; i < n; i++ {
					l := lane{i1[i], 0, i3[i]}
					l.b = i2[i]
					if !k.ok(l, p3[i], e) {
						return in, bad("lane %d: a=%d b=%d c=%d gives %d", i, l.a, l.b, l.c, p3[i])
					}
				}
				for i := n; i < len(p3); i++ {
					if p3[i] != i3[i] {
						return in, bad("lane %d beyond the length was written", i)
					}
				}
				if !eq(p1, i1) && !(n > 0 && &p1[0] == &p3[0]) {
					return in, "the first operand was modified"
				}
				if !eq(p2, i2) && !(len(p2) > 0 && len(p3) > 0 && &p2[0] == &p3[0]) {
					return in, "the second operand was modified"
				}
				return in, ""
			})
		}
	})
}

func eq(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}
