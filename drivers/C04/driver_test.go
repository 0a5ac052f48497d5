package driver

import (
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"fast-ksw/ring"
)

type lane struct{ a, b, c, q uint64 }

type op struct {
	name string
	ops  int  // polynomial operands
	red  bool // inputs reduced (otherwise any words for the first operand)
	lvl  func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par)
	full func(R *ring.Ring, a, b, c *ring.Poly, s *par)
	ok   func(l lane, g uint64, s *par) bool
}

type par struct {
	s    uint64
	big  *big.Int
	pow2 int
}

func cg(g uint64, want *big.Int, q uint64) bool  { return g < q && congBig(bu(g), want, q) }
func cl(g uint64, want *big.Int, q uint64) bool  { return g < 2*q && congBig(bu(g), want, q) }
func cgR(g uint64, want *big.Int, q uint64) bool { return g < q && congBig(new(big.Int).Lsh(bu(g), 64), want, q) }
func clR(g uint64, want *big.Int, q uint64) bool { return g < 2*q && congBig(new(big.Int).Lsh(bu(g), 64), want, q) }
func mb(a, b uint64) *big.Int                    { return new(big.Int).Mul(bu(a), bu(b)) }
func ab(a, b *big.Int) *big.Int                  { return new(big.Int).Add(a, b) }
func sb(a, b *big.Int) *big.Int                  { return new(big.Int).Sub(a, b) }
func rc(c uint64) *big.Int                       { return new(big.Int).Lsh(bu(c), 64) }

func TestVerifC04(t *testing.T) {
	verifMain(t, "every level-wise operation and its full-level form on rings of degree 16..64 with 1..4 moduli of up to 60 bits, every level, every in-place aliasing, polynomials with more rows than the level; distinct = distinct inputs", func(v *V) {
		ops := []op{
			{"Add", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.AddLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.Add(a, b, c) }, func(l lane, g uint64, s *par) bool { return cg(g, ab(bu(l.a), bu(l.b)), l.q) }},
			{"AddNoMod", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.AddNoModLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.AddNoMod(a, b, c) }, func(l lane, g uint64, s *par) bool { return g == l.a+l.b }},
			{"Sub", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.SubLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.Sub(a, b, c) }, func(l lane, g uint64, s *par) bool { return cg(g, sb(bu(l.a), bu(l.b)), l.q) }},
			{"SubNoMod", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.SubNoModLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.SubNoMod(a, b, c) }, func(l lane, g uint64, s *par) bool { return cl(g, sb(bu(l.a), bu(l.b)), l.q) }},
			{"Neg", 2, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.NegLvl(l, a, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.Neg(a, c) }, func(l lane, g uint64, s *par) bool { return g <= l.q && cl(g, sb(new(big.Int), bu(l.a)), l.q) }},
			{"Reduce", 2, false, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.ReduceLvl(l, a, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.Reduce(a, c) }, func(l lane, g uint64, s *par) bool { return cg(g, bu(l.a), l.q) }},
			{"ReduceConstant", 2, false, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.ReduceConstantLvl(l, a, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.ReduceConstant(a, c) }, func(l lane, g uint64, s *par) bool { return cl(g, bu(l.a), l.q) }},
			{"MulCoeffs", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffs(a, b, c) }, func(l lane, g uint64, s *par) bool { return cg(g, mb(l.a, l.b), l.q) }},
			{"MulCoeffsConstant", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsConstantLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsConstant(a, b, c) }, func(l lane, g uint64, s *par) bool { return cl(g, mb(l.a, l.b), l.q) }},
			{"MulCoeffsAndAdd", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsAndAddLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsAndAdd(a, b, c) }, func(l lane, g uint64, s *par) bool { return cg(g, ab(mb(l.a, l.b), bu(l.c)), l.q) }},
			{"MulCoeffsAndAddNoMod", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsAndAddNoModLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsAndAddNoMod(a, b, c) }, func(l lane, g uint64, s *par) bool { return g < 2*l.q && cl(g, ab(mb(l.a, l.b), bu(l.c)), l.q) }},
			{"MulCoeffsMontgomery", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomery(a, b, c) }, func(l lane, g uint64, s *par) bool { return cgR(g, mb(l.a, l.b), l.q) }},
			{"MulCoeffsMontgomeryConstant", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryConstantLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryConstant(a, b, c) }, func(l lane, g uint64, s *par) bool { return clR(g, mb(l.a, l.b), l.q) }},
			{"MulCoeffsMontgomeryConstantAndNeg", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryConstantAndNegLvl(l, a, b, c) }, nil, func(l lane, g uint64, s *par) bool { return g <= 2*l.q && congBig(rc(g), sb(new(big.Int), mb(l.a, l.b)), l.q) }},
			{"MulCoeffsMontgomeryAndAdd", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryAndAddLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryAndAdd(a, b, c) }, func(l lane, g uint64, s *par) bool { return cgR(g, ab(mb(l.a, l.b), rc(l.c)), l.q) }},
			{"MulCoeffsMontgomeryAndAddNoMod", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryAndAddNoModLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryAndAddNoMod(a, b, c) }, func(l lane, g uint64, s *par) bool { return clR(g, ab(mb(l.a, l.b), rc(l.c)), l.q) }},
			{"MulCoeffsMontgomeryConstantAndAddNoMod", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryConstantAndAddNoModLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryConstantAndAddNoMod(a, b, c) }, func(l lane, g uint64, s *par) bool { return g < 3*l.q && congBig(rc(g), ab(mb(l.a, l.b), rc(l.c)), l.q) }},
			{"MulCoeffsMontgomeryAndSub", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryAndSubLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryAndSub(a, b, c) }, func(l lane, g uint64, s *par) bool { return cgR(g, sb(rc(l.c), mb(l.a, l.b)), l.q) }},
			{"MulCoeffsMontgomeryAndSubNoMod", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryAndSubNoModLvl(l, a, b, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryAndSubNoMod(a, b, c) }, func(l lane, g uint64, s *par) bool { return clR(g, sb(rc(l.c), mb(l.a, l.b)), l.q) }},
			{"MulCoeffsMontgomeryConstantAndSubNoMod", 3, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulCoeffsMontgomeryConstantAndSubNoModLvl(l, a, b, c) }, nil, func(l lane, g uint64, s *par) bool { return g < 3*l.q && congBig(rc(g), sb(rc(l.c), mb(l.a, l.b)), l.q) }},
			{"MForm", 2, false, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MFormLvl(l, a, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MForm(a, c) }, func(l lane, g uint64, s *par) bool { return cg(g, rc(l.a), l.q) }},
			{"MFormConstant", 2, false, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MFormConstantLvl(l, a, c) }, nil, func(l lane, g uint64, s *par) bool { return cl(g, rc(l.a), l.q) }},
			{"InvMForm", 2, false, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.InvMFormLvl(l, a, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.InvMForm(a, c) }, func(l lane, g uint64, s *par) bool { return cgR(g, bu(l.a), l.q) }},
			{"Mod", 2, false, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.ModLvl(l, a, s.s, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.Mod(a, s.s, c) }, func(l lane, g uint64, s *par) bool { return g == l.a%s.s }},
			{"AddScalar", 2, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.AddScalarLvl(l, a, s.s, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.AddScalar(a, s.s, c) }, func(l lane, g uint64, s *par) bool { return cg(g, ab(bu(l.a), bu(s.s)), l.q) }},
			{"SubScalar", 2, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.SubScalarLvl(l, a, s.s, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.SubScalar(a, s.s, c) }, func(l lane, g uint64, s *par) bool { return cg(g, sb(bu(l.a), bu(s.s)), l.q) }},
			{"MulScalar", 2, false, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulScalarLvl(l, a, s.s, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulScalar(a, s.s, c) }, func(l lane, g uint64, s *par) bool { return cg(g, mb(l.a, s.s), l.q) }},
			{"AddScalarBigint", 2, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.AddScalarBigintLvl(l, a, s.big, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.AddScalarBigint(a, s.big, c) }, func(l lane, g uint64, s *par) bool { return cg(g, ab(bu(l.a), s.big), l.q) }},
			{"SubScalarBigint", 2, true, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.SubScalarBigintLvl(l, a, s.big, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.SubScalarBigint(a, s.big, c) }, func(l lane, g uint64, s *par) bool { return cg(g, sb(bu(l.a), s.big), l.q) }},
			{"MulScalarBigint", 2, false, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulScalarBigintLvl(l, a, s.big, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulScalarBigint(a, s.big, c) }, func(l lane, g uint64, s *par) bool { return cg(g, new(big.Int).Mul(bu(l.a), s.big), l.q) }},
			{"MulByPow2", 2, false, func(R *ring.Ring, l int, a, b, c *ring.Poly, s *par) { R.MulByPow2Lvl(l, a, s.pow2, c) }, func(R *ring.Ring, a, b, c *ring.Poly, s *par) { R.MulByPow2(a, s.pow2, c) }, func(l lane, g uint64, s *par) bool { return cg(g, new(big.Int).Lsh(bu(l.a), uint(s.pow2)), l.q) }},
		}
		for _, o := range ops {
			o := o
			v.Run(o.name, 60, func(r *rand.Rand) (string, string) {
				R := genRing(r, 6, 4, 60)
				L := len(R.Modulus)
				rows := func() int { return 1 + r.Intn(L) }
				mk := func() *ring.Poly { return genPoly(r, R, rows()) }
				a, b, c := mk(), mk(), mk()
				if !o.red {
					a = rawPoly(r, R, len(a.Coeffs))
				}
				al := r.Intn(5)
				if o.ops == 2 {
					b = a
					if al%2 == 1 {
						c = a
					}
				} else {
					switch al {
					case 1:
						b = a
					case 2:
						c = a
					case 3:
						c = b
					case 4:
						b, c = a, a
					}
				}
				m := len(a.Coeffs)
				for _, p := range []*ring.Poly{b, c} {
					if len(p.Coeffs) < m {
						m = len(p.Coeffs)
					}
				}
				s := &par{s: edge64(r, R.Modulus...), pow2: r.Intn(65)}
				if o.name == "Mod" {
					s.s = oddModulus(r, 60)
				}
				if o.name == "AddScalar" || o.name == "SubScalar" {
					m := R.Modulus[0]
					for _, q := range R.Modulus {
						if q < m {
							m = q
						}
					}
					s.s = residue(r, m)
				}
				s.big = new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(200))))
				if r.Intn(2) == 0 {
					s.big.Neg(s.big)
				}
				big0 := new(big.Int).Set(s.big)
				lvl := r.Intn(m)
				full := o.full != nil && r.Intn(2) == 0
				if full {
					lvl = m - 1
				}
				a0, b0, c0 := clonePoly(a), clonePoly(b), clonePoly(c)
				in := In("%s N=%d Q=%d rows=%d/%d/%d level=%d full=%v aliasing=%d s=%d pow2=%d big=%v a=%v b=%v c=%v", o.name, R.N, R.Modulus, len(a.Coeffs), len(b.Coeffs), len(c.Coeffs), lvl, full, al, s.s, s.pow2, s.big, a0.Coeffs, b0.Coeffs, c0.Coeffs)
				if full {
					o.full(R, a, b, c, s)
				} else {
					o.lvl(R, lvl, a, b, c, s)
				}
				for i := range c.Coeffs {
					for k := range c.Coeffs[i] {
						g := c.Coeffs[i][k]
						if i > lvl {
							if g != c0.Coeffs[i][k] {
								return in, fmt.Sprintf("row %d above the level was written", i)
							}
							continue
						}
						if !o.ok(lane{a0.Coeffs[i][k], b0.Coeffs[i][k], c0.Coeffs[i][k], R.Modulus[i]}, g, s) {
							return in, fmt.Sprintf("row %d (q=%d) coefficient %d: a=%d b=%d c=%d gives %d", i, R.Modulus[i], k, a0.Coeffs[i][k], b0.Coeffs[i][k], c0.Coeffs[i][k], g)
						}
					}
				}
				if a != c {
					if d := samePoly(a, a0); d != "" {
						return in, "first operand changed: " + d
					}
				}
				if b != c {
					if d := samePoly(b, b0); d != "" {
						return in, "second operand changed: " + d
					}
				}
				if s.big.Cmp(big0) != 0 {
					return in, "scalar changed"
				}
				return in, ""
			})
		}

		setup := func(r *rand.Rand) (R *ring.Ring, a, c, a0 *ring.Poly, al bool) {
			R = genRing(r, 6, 3, 60)
			a = genPoly(r, R, len(R.Modulus))
			c = genPoly(r, R, len(R.Modulus))
			if al = r.Intn(2) == 0; al {
				c = a
			}
			return R, a, c, clonePoly(a), al
		}
		index := func(name string, gen func(r *rand.Rand, R *ring.Ring) int, f func(R *ring.Ring, a *ring.Poly, n int, c *ring.Poly), want func(R *ring.Ring, n, k int) (src int, neg bool)) {
			v.Run(name, 150, func(r *rand.Rand) (string, string) {
				R, a, c, a0, al := setup(r)
				n := gen(r, R)
				in := In("%s N=%d Q=%d n=%d inplace=%v a=%v", name, R.N, R.Modulus, n, al, a0.Coeffs)
				f(R, a, n, c)
				for i, q := range R.Modulus {
					for k := 0; k < R.N; k++ {
						src, neg := want(R, n, k)
						w := a0.Coeffs[i][src]
						if neg {
							w = (q - w) % q
						}
						if c.Coeffs[i][k]%q != w || c.Coeffs[i][k] > q {
							return in, fmt.Sprintf("row %d coefficient %d = %d, want %d", i, k, c.Coeffs[i][k], w)
						}
					}
				}
				if !al {
					if d := samePoly(a, a0); d != "" {
						return in, "operand changed: " + d
					}
				}
				return in, ""
			})
		}
		mod := func(a, n int) int { return ((a % n) + n) % n }
		index("Shift", func(r *rand.Rand, R *ring.Ring) int { return r.Intn(6*R.N) - 3*R.N }, func(R *ring.Ring, a *ring.Poly, n int, c *ring.Poly) { R.Shift(a, n, c) }, func(R *ring.Ring, n, k int) (int, bool) { return mod(k+n, R.N), false })
		mono := func(R *ring.Ring, n, k int) (int, bool) {
			e := mod(k-n, 2*R.N)
			return e % R.N, e >= R.N
		}
		index("MultByMonomial", func(r *rand.Rand, R *ring.Ring) int { return r.Intn(6 * R.N) }, func(R *ring.Ring, a *ring.Poly, n int, c *ring.Poly) { R.MultByMonomial(a, n, c) }, mono)
		index("MultByMonomialNew", func(r *rand.Rand, R *ring.Ring) int { return r.Intn(6 * R.N) }, func(R *ring.Ring, a *ring.Poly, n int, c *ring.Poly) { ring.CopyValues(R.MultByMonomialNew(a, n), c) }, mono)
		index("BitReverse", func(r *rand.Rand, R *ring.Ring) int { return 0 }, func(R *ring.Ring, a *ring.Poly, n int, c *ring.Poly) { R.BitReverse(a, c) }, func(R *ring.Ring, n, k int) (int, bool) {
			s := 0
			for m := 1; m < R.N; m <<= 1 {
				s = s<<1 | k&1
				k >>= 1
			}
			return s, false
		})
		for _, add := range []bool{false, true} {
			add := add
			v.Run(fmt.Sprintf("MulByVectorMontgomery add=%v", add), 100, func(r *rand.Rand) (string, string) {
				R := genRing(r, 6, 3, 60)
				a, c := genPoly(r, R, 1+r.Intn(len(R.Modulus))), genPoly(r, R, 1+r.Intn(len(R.Modulus)))
				if r.Intn(2) == 0 {
					c = a
				}
				vec := make([]uint64, R.N)
				for k := range vec {
					vec[k] = edge64(r) // first operand reduced: a*vec < q*2^64
				}
				a0, c0 := clonePoly(a), clonePoly(c)
				in := In("N=%d Q=%d vec=%v a=%v c=%v inplace=%v", R.N, R.Modulus, vec, a0.Coeffs, c0.Coeffs, a == c)
				if add {
					R.MulByVectorMontgomeryAndAddNoMod(a, vec, c)
				} else {
					R.MulByVectorMontgomery(a, vec, c)
				}
				for i := 0; i < len(c.Coeffs) && i < len(a.Coeffs); i++ {
					for k := range vec {
						w, m := mb(a0.Coeffs[i][k], vec[k]), R.Modulus[i]
						if add {
							w.Add(w, rc(c0.Coeffs[i][k]))
							m *= 2
						}
						if g := c.Coeffs[i][k]; g >= m || !congBig(rc(g), w, R.Modulus[i]) {
							return in, fmt.Sprintf("row %d coefficient %d = %d", i, k, g)
						}
					}
				}
				return in, ""
			})
		}
		v.Run("MulByPow2New", 50, func(r *rand.Rand) (string, string) {
			R, a, _, a0, _ := setup(r)
			n := r.Intn(65)
			in := In("N=%d Q=%d pow2=%d a=%v", R.N, R.Modulus, n, a0.Coeffs)
			c := R.MulByPow2New(a, n)
			for i, q := range R.Modulus {
				for k := 0; k < R.N; k++ {
					if !cg(c.Coeffs[i][k], new(big.Int).Lsh(bu(a0.Coeffs[i][k]), uint(n)), q) {
						return in, fmt.Sprintf("row %d coefficient %d = %d", i, k, c.Coeffs[i][k])
					}
				}
			}
			return in, samePoly(a, a0)
		})
	})
}
