package driver

import (
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

type qp = rlwe.PolyQP

func rings(r *rand.Rand, both bool) (rq rlwe.RingQP) {
	N := 16 << uint(r.Intn(3))
	m := genModuli(r, 2*N, 6, 60)
	for len(m) < 2 {
		m = genModuli(r, 2*N, 6, 60)
	}
	k := 1 + r.Intn(len(m)-1)
	if w := r.Intn(6); both || w > 1 {
		rq.RingQ, rq.RingP = mustRing(ring.NewRing(N, m[:k])), mustRing(ring.NewRing(N, m[k:]))
	} else if w == 0 {
		rq.RingQ = mustRing(ring.NewRing(N, m[:k]))
	} else {
		rq.RingP = mustRing(ring.NewRing(N, m[k:]))
	}
	return
}

// every part has the rows of its ring; parts without a ring are garbage or absent
func genQP(r *rand.Rand, rq rlwe.RingQP, lq, lp int) (p qp) {
	if rq.RingQ != nil {
		p.Q = genPoly(r, rq.RingQ, lq+1+r.Intn(len(rq.RingQ.Modulus)-lq))
	}
	if rq.RingP != nil {
		p.P = genPoly(r, rq.RingP, lp+1+r.Intn(len(rq.RingP.Modulus)-lp))
	}
	return
}

func cloneQP(p qp) (c qp) {
	if p.Q != nil {
		c.Q = clonePoly(p.Q)
	}
	if p.P != nil {
		c.P = clonePoly(p.P)
	}
	return
}

func sameQP(got, want qp) string {
	for i, s := range [][2]*ring.Poly{{got.Q, want.Q}, {got.P, want.P}} {
		if (s[0] == nil) != (s[1] == nil) {
			return "part presence differs"
		}
		if s[0] != nil {
			if d := samePoly(s[0], s[1]); d != "" {
				return "QP"[i:i+1] + " part: " + d
			}
		}
	}
	return ""
}

func rep(p qp) string {
	s := ""
	if p.Q != nil {
		s += fmt.Sprintf("Q:%v", p.Q.Coeffs)
	}
	if p.P != nil {
		s += fmt.Sprintf("P:%v", p.P.Coeffs)
	}
	return s
}

func mods(rq rlwe.RingQP) (q, p []uint64) {
	if rq.RingQ != nil {
		q = rq.RingQ.Modulus
	}
	if rq.RingP != nil {
		p = rq.RingP.Modulus
	}
	return
}

type cell struct {
	q, a, b, c uint64
}

type op struct {
	name string
	f    func(R *rlwe.RingQP, lq, lp int, a, b, c qp)
	want func(c cell) *big.Int // value modulo q
	max  uint64                // result is below max*q; 0: exact machine value
}

func add(x ...*big.Int) *big.Int {
	s := new(big.Int)
	for _, y := range x {
		s.Add(s, y)
	}
	return s
}

func mont(x, y, q uint64) *big.Int { return bu(montBig(new(big.Int).Mul(bu(x), bu(y)), q)) }
func neg(x *big.Int) *big.Int      { return new(big.Int).Neg(x) }

func TestVerif(t *testing.T) {
	verifMain(t, "random QP rings of degree 16..64 with 1..5 moduli on either side (or one side absent), independent random levels, operands identical or distinct; oracle: math/big", func(v *V) {
		ops := []op{
			{"AddLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.AddLvl(lq, lp, a, b, c) }, func(x cell) *big.Int { return add(bu(x.a), bu(x.b)) }, 1},
			{"AddNoModLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.AddNoModLvl(lq, lp, a, b, c) }, func(x cell) *big.Int { return add(bu(x.a), bu(x.b)) }, 0},
			{"SubLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.SubLvl(lq, lp, a, b, c) }, func(x cell) *big.Int { return add(bu(x.a), neg(bu(x.b))) }, 1},
			{"MFormLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.MFormLvl(lq, lp, a, c) }, func(x cell) *big.Int { return bu(mformBig(x.a, x.q)) }, 1},
			{"InvMFormLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.InvMFormLvl(lq, lp, a, c) }, func(x cell) *big.Int { return bu(montBig(bu(x.a), x.q)) }, 1},
			{"MulCoeffsMontgomeryLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.MulCoeffsMontgomeryLvl(lq, lp, a, b, c) }, func(x cell) *big.Int { return mont(x.a, x.b, x.q) }, 1},
			{"MulCoeffsMontgomeryConstantLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.MulCoeffsMontgomeryConstantLvl(lq, lp, a, b, c) }, func(x cell) *big.Int { return mont(x.a, x.b, x.q) }, 2},
			{"MulCoeffsMontgomeryConstantAndAddNoModLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.MulCoeffsMontgomeryConstantAndAddNoModLvl(lq, lp, a, b, c) }, func(x cell) *big.Int { return add(bu(x.c), mont(x.a, x.b, x.q)) }, 3},
			{"MulCoeffsMontgomeryAndSubLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.MulCoeffsMontgomeryAndSubLvl(lq, lp, a, b, c) }, func(x cell) *big.Int { return add(bu(x.c), neg(mont(x.a, x.b, x.q))) }, 1},
			{"MulCoeffsMontgomeryConstantAndSubNoModLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.MulCoeffsMontgomeryConstantAndSubNoModLvl(lq, lp, a, b, c) }, func(x cell) *big.Int { return add(bu(x.c), neg(mont(x.a, x.b, x.q))) }, 4},
			{"MulCoeffsMontgomeryAndAddLvl", func(R *rlwe.RingQP, lq, lp int, a, b, c qp) { R.MulCoeffsMontgomeryAndAddLvl(lq, lp, a, b, c) }, func(x cell) *big.Int { return add(bu(x.c), mont(x.a, x.b, x.q)) }, 1},
		}
		levels := func(r *rand.Rand, rq rlwe.RingQP) (lq, lp int) {
			q, p := mods(rq)
			if len(q) > 0 {
				lq = r.Intn(len(q))
			}
			if len(p) > 0 {
				lp = r.Intn(len(p))
			}
			return
		}
		parts := func(rq rlwe.RingQP, lq, lp int, f func(part string, R *ring.Ring, lvl int, sel func(p qp) *ring.Poly) string) string {
			if rq.RingQ != nil {
				if d := f("Q", rq.RingQ, lq, func(p qp) *ring.Poly { return p.Q }); d != "" {
					return d
				}
			}
			if rq.RingP != nil {
				return f("P", rq.RingP, lp, func(p qp) *ring.Poly { return p.P })
			}
			return ""
		}
		for _, o := range ops {
			o := o
			v.Run(o.name, 100, func(r *rand.Rand) (string, string) {
				rq := rings(r, false)
				lq, lp := levels(r, rq)
				a, b, c := genQP(r, rq, lq, lp), genQP(r, rq, lq, lp), genQP(r, rq, lq, lp)
				al := r.Intn(5)
				switch al {
				case 0:
					c = a
				case 1:
					c = b
				case 2:
					b = a
				}
				a0, b0, c0 := cloneQP(a), cloneQP(b), cloneQP(c)
				q, p := mods(rq)
				in := In("%s moduli Q=%d P=%d levels %d,%d alias=%d a=%s b=%s c=%s", o.name, q, p, lq, lp, al, rep(a0), rep(b0), rep(c0))
				o.f(&rq, lq, lp, a, b, c)
				bad := parts(rq, lq, lp, func(part string, R *ring.Ring, lvl int, sel func(p qp) *ring.Poly) string {
					for i := range sel(c).Coeffs {
						m := R.Modulus[i]
						for k := range sel(c).Coeffs[i] {
							g := sel(c).Coeffs[i][k]
							if i > lvl {
								if g != sel(c0).Coeffs[i][k] {
									return fmt.Sprintf("%s row %d above the level changed", part, i)
								}
								continue
							}
							w := o.want(cell{m, sel(a0).Coeffs[i][k], sel(b0).Coeffs[i][k], sel(c0).Coeffs[i][k]})
							ok := congBig(bu(g), w, m) && g/m < o.max
							if o.max == 0 {
								ok = bu(g).Cmp(w) == 0
							}
							if !ok {
								return fmt.Sprintf("%s row %d coefficient %d = %d, want %s mod %d below %d moduli", part, i, k, g, w, m, o.max)
							}
						}
					}
					return ""
				})
				if bad == "" && al != 0 {
					bad = sameQP(a, a0)
				}
				if bad == "" && al != 1 && !(al == 0 && false) && b.Q != c.Q {
					bad = sameQP(b, b0)
				}
				return in, bad
			})
		}
		v.Run("PermuteNTTWithIndexLvl", 80, func(r *rand.Rand) (string, string) {
			rq := rings(r, false)
			lq, lp := levels(r, rq)
			a, c := genQP(r, rq, lq, lp), genQP(r, rq, lq, lp)
			n := 0
			if rq.RingQ != nil {
				n = rq.RingQ.N
			} else {
				n = rq.RingP.N
			}
			idx := make([]uint64, n)
			for i, k := range r.Perm(n) {
				idx[i] = uint64(k)
			}
			ad := r.Intn(2) == 0
			a0, c0 := cloneQP(a), cloneQP(c)
			q, p := mods(rq)
			in := In("moduli Q=%d P=%d levels %d,%d add=%v index=%v a=%s c=%s", q, p, lq, lp, ad, idx, rep(a0), rep(c0))
			if ad {
				rq.PermuteNTTWithIndexAndAddNoModLvl(lq, lp, a, idx, c)
			} else {
				rq.PermuteNTTWithIndexLvl(lq, lp, a, idx, c)
			}
			w := cloneQP(c0)
			parts(rq, lq, lp, func(part string, R *ring.Ring, lvl int, sel func(p qp) *ring.Poly) string {
				for i := 0; i <= lvl; i++ {
					for k := range idx {
						x := sel(a0).Coeffs[i][idx[k]]
						if ad {
							x += sel(c0).Coeffs[i][k]
						}
						sel(w).Coeffs[i][k] = x
					}
				}
				return ""
			})
			if d := sameQP(c, w); d != "" {
				return in, d
			}
			return in, sameQP(a, a0)
		})
		v.Run("CopyValuesLvl", 80, func(r *rand.Rand) (string, string) {
			rq := rings(r, false)
			lq, lp := levels(r, rq)
			a, c := genQP(r, rq, lq, lp), genQP(r, rq, lq, lp)
			a0, w := cloneQP(a), cloneQP(c)
			q, p := mods(rq)
			in := In("moduli Q=%d P=%d levels %d,%d a=%s c=%s", q, p, lq, lp, rep(a0), rep(w))
			rq.CopyValuesLvl(lq, lp, a, c)
			parts(rq, lq, lp, func(part string, R *ring.Ring, lvl int, sel func(p qp) *ring.Poly) string {
				for i := 0; i <= lvl; i++ {
					copy(sel(w).Coeffs[i], sel(a0).Coeffs[i])
				}
				return ""
			})
			if d := sameQP(c, w); d != "" {
				return in, d
			}
			return in, sameQP(a, a0)
		})
		v.Run("NewPoly", 60, func(r *rand.Rand) (string, string) {
			rq := rings(r, false)
			lq, lp := levels(r, rq)
			full := r.Intn(2) == 0
			q, p := mods(rq)
			in := In("moduli Q=%d P=%d levels %d,%d full=%v", q, p, lq, lp, full)
			var got qp
			if full {
				lq, lp = len(q)-1, len(p)-1
				got = rq.NewPoly()
			} else {
				got = rq.NewPolyLvl(lq, lp)
			}
			if (got.Q == nil) != (rq.RingQ == nil) || (got.P == nil) != (rq.RingP == nil) {
				return in, "part presence differs from the rings"
			}
			return in, parts(rq, lq, lp, func(part string, R *ring.Ring, lvl int, sel func(p qp) *ring.Poly) string {
				c := sel(got).Coeffs
				if len(c) != lvl+1 {
					return fmt.Sprintf("%s: %d rows", part, len(c))
				}
				for i := range c {
					if len(c[i]) != R.N {
						return fmt.Sprintf("%s row %d has %d coefficients", part, i, len(c[i]))
					}
					for k := range c[i] {
						if c[i][k] != 0 {
							return "not zero"
						}
						c[i][k] = 1
					}
				}
				return ""
			})
		})
		v.Run("ExtendBasisSmallNormAndCenter", 100, func(r *rand.Rand) (string, string) {
			rq := rings(r, true)
			lp := r.Intn(len(rq.RingP.Modulus))
			min := rq.RingQ.Modulus[0]
			for _, m := range append(append([]uint64{}, rq.RingQ.Modulus...), rq.RingP.Modulus...) {
				if m < min {
					min = m
				}
			}
			B := int64(1 + r.Int63n(int64(min)/2-1))
			sm := make([]int64, rq.RingQ.N)
			a := rq.RingQ.NewPoly()
			for k := range sm {
				sm[k] = r.Int63n(2*B+1) - B
				if r.Intn(4) == 0 {
					sm[k] = []int64{0, B, -B, -1}[r.Intn(4)]
				}
				for i, m := range rq.RingQ.Modulus {
					a.Coeffs[i][k] = uint64((sm[k] + int64(m)) % int64(m))
				}
			}
			a0 := clonePoly(a)
			oq, op := genPoly(r, rq.RingQ, len(rq.RingQ.Modulus)), genPoly(r, rq.RingP, len(rq.RingP.Modulus))
			op0 := clonePoly(op)
			mode := r.Intn(3)
			in := In("Q=%d P=%d levelP=%d mode=%d values=%v", rq.RingQ.Modulus, rq.RingP.Modulus, lp, mode, sm)
			switch mode {
			case 0:
				oq = a
			case 1:
				oq = nil
			}
			rq.ExtendBasisSmallNormAndCenter(a, lp, oq, op)
			if d := samePoly(a, a0); d != "" {
				return in, "input changed: " + d
			}
			if oq != nil {
				if d := samePoly(oq, a0); d != "" {
					return in, "Q output: " + d
				}
			}
			for i, m := range rq.RingP.Modulus {
				for k := range sm {
					g := op.Coeffs[i][k]
					if i > lp {
						if g != op0.Coeffs[i][k] {
							return in, fmt.Sprintf("P row %d above the level changed", i)
						}
					} else if g > m || !congBig(bu(g), big.NewInt(sm[k]), m) {
						return in, fmt.Sprintf("P row %d coefficient %d = %d for %d", i, k, g, sm[k])
					}
				}
			}
			return in, ""
		})
		for _, kind := range []string{"NTTLvl", "InvNTTLvl", "NTTLazyLvl"} {
			kind := kind
			v.Run(kind, 60, func(r *rand.Rand) (string, string) {
				rq := rings(r, false)
				lq, lp := levels(r, rq)
				a, c := genQP(r, rq, lq, lp), genQP(r, rq, lq, lp)
				if r.Intn(2) == 0 {
					c = a
				}
				a0, w := cloneQP(a), cloneQP(c)
				q, p := mods(rq)
				in := In("%s moduli Q=%d P=%d levels %d,%d inplace=%v a=%s c=%s", kind, q, p, lq, lp, a == c, rep(a0), rep(w))
				parts(rq, lq, lp, func(part string, R *ring.Ring, lvl int, sel func(p qp) *ring.Poly) string {
					for i := 0; i <= lvl; i++ {
						switch kind {
						case "NTTLvl":
							R.NTTSingle(i, sel(a0).Coeffs[i], sel(w).Coeffs[i])
						case "InvNTTLvl":
							R.InvNTTSingle(i, sel(a0).Coeffs[i], sel(w).Coeffs[i])
						default:
							R.NTTSingleLazy(i, sel(a0).Coeffs[i], sel(w).Coeffs[i])
						}
					}
					return ""
				})
				al := a == c
				switch kind {
				case "NTTLvl":
					rq.NTTLvl(lq, lp, a, c)
				case "InvNTTLvl":
					rq.InvNTTLvl(lq, lp, a, c)
				default:
					rq.NTTLazyLvl(lq, lp, a, c)
				}
				if d := sameQP(c, w); d != "" {
					return in, d
				}
				if !al {
					return in, sameQP(a, a0)
				}
				return in, ""
			})
		}
	})
}
