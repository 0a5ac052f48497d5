package driver

import (
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func revBits(i uint64, n int) uint64 {
	var s uint64
	for k := 0; k < n; k++ {
		s = s<<1 | i>>uint(k)&1
	}
	return s
}

// slot -> slot of the automorphism X -> X^g by the exponents of the evaluation points
func imageTable(N int, M, g uint64) []uint64 {
	l := bits.Len64(M) - 2
	pos := map[uint64]uint64{}
	for i := uint64(0); i < M/2; i++ {
		pos[2*revBits(i, l)+1] = i
	}
	t := make([]uint64, N)
	for i := range t {
		e := new(big.Int).Mul(bu(2*revBits(uint64(i), l)+1), bu(g))
		t[i] = pos[e.Mod(e, bu(M)).Uint64()]
	}
	return t
}

func permuteOracle(a *ring.Poly, N int, g uint64, Q []uint64) *ring.Poly {
	w := clonePoly(a)
	for i := 0; i < N; i++ {
		e := new(big.Int).Mul(bu(uint64(i)), bu(g))
		k := int(e.Mod(e, big.NewInt(int64(2*N))).Int64())
		for j, q := range Q {
			x := a.Coeffs[j][i]
			if k >= N {
				w.Coeffs[j][k-N] = (q - x) % q
			} else {
				w.Coeffs[j][k] = x
			}
		}
	}
	return w
}

func reduceAll(p *ring.Poly, Q []uint64) (*ring.Poly, string) {
	c := clonePoly(p)
	for j := range c.Coeffs {
		for k, x := range c.Coeffs[j] {
			if x > Q[j] {
				return c, fmt.Sprintf("row %d coefficient %d = %d exceeds the modulus", j, k, x)
			}
			c.Coeffs[j][k] = x % Q[j]
		}
	}
	return c, ""
}

func genGal(r *rand.Rand, M uint64) uint64 {
	switch r.Intn(4) {
	case 0:
		return M - 1
	case 1:
		return r.Uint64() | 1
	}
	return r.Uint64()%M | 1
}

func ntti(r *rand.Rand) *ring.Ring {
	N := 8 << uint(r.Intn(4))
	return mustRing(ring.NewRing(2*N, genModuli(r, 4*N, 3, 58)))
}

func TestVerif(t *testing.T) {
	verifMain(t, "random rings of degree 16..128 (also 4N-th root rings), odd Galois elements of any size, all levels, random and boundary coefficients; oracle: exponent arithmetic with math/big", func(v *V) {
		v.Run("Permute", 200, func(r *rand.Rand) (string, string) {
			R := genRing(r, 7, 4, 60)
			a, c := genPoly(r, R, len(R.Modulus)), genPoly(r, R, len(R.Modulus))
			a0, g := clonePoly(a), genGal(r, uint64(2*R.N))
			in := In("Permute N=%d Q=%d gen=%d a=%v", R.N, R.Modulus, g, a.Coeffs)
			R.Permute(a, g, c)
			got, bad := reduceAll(c, R.Modulus)
			if bad == "" {
				bad = samePoly(got, permuteOracle(a0, R.N, g, R.Modulus))
			}
			if bad == "" {
				bad = samePoly(a, a0)
			}
			return in, bad
		})
		v.Run("PermuteNTTIndex", 200, func(r *rand.Rand) (string, string) {
			R := genRing(r, 7, 1, 60)
			if r.Intn(2) == 0 {
				R = ntti(r)
			}
			g := genGal(r, R.NthRoot)
			in := In("PermuteNTTIndex N=%d NthRoot=%d gal=%d", R.N, R.NthRoot, g)
			idx, want := R.PermuteNTTIndex(g), imageTable(R.N, R.NthRoot, g)
			if len(idx) != R.N {
				return in, fmt.Sprintf("%d entries", len(idx))
			}
			seen := map[uint64]bool{}
			for i := range idx {
				if idx[i] != want[i] || seen[idx[i]] {
					return in, fmt.Sprintf("index[%d] = %d, want %d", i, idx[i], want[i])
				}
				seen[idx[i]] = true
			}
			return in, ""
		})
		for _, kind := range []string{"PermuteNTT", "PermuteNTTLvl", "PermuteNTTWithIndexLvl", "PermuteNTTWithIndexAndAddNoModLvl"} {
			kind := kind
			v.Run(kind, 150, func(r *rand.Rand) (string, string) {
				R := genRing(r, 7, 4, 60)
				a, c := genPoly(r, R, 1+r.Intn(len(R.Modulus))), genPoly(r, R, 1+r.Intn(len(R.Modulus)))
				lvl := len(a.Coeffs) - 1
				if len(c.Coeffs)-1 < lvl {
					lvl = len(c.Coeffs) - 1
				}
				if kind != "PermuteNTT" {
					lvl = r.Intn(lvl + 1)
				}
				a0, c0, g := clonePoly(a), clonePoly(c), genGal(r, R.NthRoot)
				in := In("%s N=%d Q=%d gen=%d level=%d a=%v c=%v", kind, R.N, R.Modulus, g, lvl, a.Coeffs, c.Coeffs)
				tb := imageTable(R.N, R.NthRoot, g)
				idx := append([]uint64{}, tb...)
				switch kind {
				case "PermuteNTT":
					R.PermuteNTT(a, g, c)
				case "PermuteNTTLvl":
					R.PermuteNTTLvl(lvl, a, g, c)
				case "PermuteNTTWithIndexLvl":
					R.PermuteNTTWithIndexLvl(lvl, a, idx, c)
				default:
					R.PermuteNTTWithIndexAndAddNoModLvl(lvl, a, idx, c)
				}
				w := clonePoly(c0)
				for i := 0; i <= lvl; i++ {
					for k := range tb {
						if kind == "PermuteNTTWithIndexAndAddNoModLvl" {
							w.Coeffs[i][k] += a0.Coeffs[i][tb[k]]
						} else {
							w.Coeffs[i][k] = a0.Coeffs[i][tb[k]]
						}
					}
				}
				if d := samePoly(c, w); d != "" {
					return in, d
				}
				if d := samePoly(a, a0); d != "" {
					return in, "input changed: " + d
				}
				for k := range tb {
					if idx[k] != tb[k] {
						return in, "index table changed"
					}
				}
				return in, ""
			})
		}
		v.Run("NTT then PermuteNTT = Permute then NTT", 80, func(r *rand.Rand) (string, string) {
			R := genRing(r, 7, 3, 60)
			a, b, c, d := genPoly(r, R, len(R.Modulus)), R.NewPoly(), R.NewPoly(), R.NewPoly()
			g := genGal(r, R.NthRoot)
			in := In("N=%d Q=%d gen=%d a=%v", R.N, R.Modulus, g, a.Coeffs)
			R.Permute(a, g, b)
			R.NTT(b, b)
			R.NTT(a, c)
			R.PermuteNTT(c, g, d)
			return in, samePoly(d, b)
		})
		v.Run("GenGaloisParams", 60, func(r *rand.Rand) (string, string) {
			n, g := uint64(2)<<uint(r.Intn(9)), genGal(r, 1<<40)
			in := In("GenGaloisParams n=%d gen=%d", n, g)
			t := ring.GenGaloisParams(n, g)
			if uint64(len(t)) != n/2 {
				return in, fmt.Sprintf("%d entries", len(t))
			}
			for i := range t {
				if w := new(big.Int).Exp(bu(g), big.NewInt(int64(i)), bu(2*n)).Uint64(); t[i] != w {
					return in, fmt.Sprintf("entry %d = %d, want %d", i, t[i], w)
				}
			}
			return in, ""
		})
		v.Run("Rotate", 80, func(r *rand.Rand) (string, string) {
			R := genRing(r, 6, 3, 60)
			a, c := genPoly(r, R, len(R.Modulus)), genPoly(r, R, len(R.Modulus))
			if r.Intn(3) == 0 {
				c = a
			}
			a0, n := clonePoly(a), r.Intn(8*R.N)-4*R.N
			in := In("Rotate N=%d Q=%d n=%d inplace=%v a=%v", R.N, R.Modulus, n, a == c, a0.Coeffs)
			R.Rotate(a, n, c)
			for i, q := range R.Modulus {
				psi := montBig(bu(R.PsiMont[i]), q)
				e := int64((2*n%(2*R.N) + 2*R.N) % (2 * R.N))
				root := new(big.Int).Exp(bu(psi), big.NewInt(e), bu(q))
				g := big.NewInt(1)
				for k := 0; k < R.N; k++ {
					if w := mulModBig(a0.Coeffs[i][k], g.Uint64(), q); c.Coeffs[i][k] != w {
						return in, fmt.Sprintf("row %d coefficient %d = %d, want %d", i, k, c.Coeffs[i][k], w)
					}
					g.Mul(g, root)
					g.Mod(g, bu(q))
				}
			}
			if a != c {
				return in, samePoly(a, a0)
			}
			return in, ""
		})
		v.Run("conjugate invariant unfold and fold", 80, func(r *rand.Rand) (string, string) {
			N := 16 << uint(r.Intn(3))
			Q := genModuli(r, 4*N, 3, 58)
			R := mustRing(ring.NewRing(N, Q))
			S := mustRing(ring.NewRing(2*N, Q))
			lvl := r.Intn(len(Q))
			a, b, c := genPoly(r, R, len(Q)), genPoly(r, S, len(Q)), genPoly(r, R, len(Q))
			a0, b0, c0 := clonePoly(a), clonePoly(b), clonePoly(c)
			in := In("N=%d Q=%d level=%d a=%v b=%v", N, Q, lvl, a.Coeffs, b.Coeffs)
			R.UnfoldConjugateInvariantToStandard(lvl, a, b)
			for i := range Q {
				for k := 0; k < 2*N; k++ {
					w := b0.Coeffs[i][k]
					if i <= lvl && k < N {
						w = a0.Coeffs[i][k]
					} else if i <= lvl {
						w = a0.Coeffs[i][2*N-1-k]
					}
					if b.Coeffs[i][k] != w {
						return in, fmt.Sprintf("unfold: row %d coefficient %d = %d, want %d", i, k, b.Coeffs[i][k], w)
					}
				}
			}
			b1 := genPoly(r, S, len(Q))
			b2 := clonePoly(b1)
			idx := imageTable(2*N, uint64(4*N), uint64(4*N-1))
			in = In("N=%d Q=%d level=%d standard=%v", N, Q, lvl, b1.Coeffs)
			R.FoldStandardToConjugateInvariant(lvl, b1, idx, c)
			for i, q := range Q {
				for k := 0; k < N; k++ {
					w := c0.Coeffs[i][k]
					if i <= lvl {
						x := new(big.Int).Add(bu(b2.Coeffs[i][idx[k]]), bu(b2.Coeffs[i][k]))
						w = x.Mod(x, bu(q)).Uint64()
					}
					if c.Coeffs[i][k] != w {
						return in, fmt.Sprintf("fold: row %d coefficient %d = %d, want %d", i, k, c.Coeffs[i][k], w)
					}
				}
			}
			if d := samePoly(a, a0); d != "" {
				return in, "input of unfold changed: " + d
			}
			return in, samePoly(b1, b2)
		})
		var ps []rlwe.Parameters
		for _, ty := range []ring.Type{ring.Standard, ring.ConjugateInvariant} {
			for _, l := range []int{10, 11} {
				p, err := rlwe.NewParameters(l, nttPrimes(50, 1<<uint(l+2), 1), nttPrimes(51, 1<<uint(l+2), 1), 64, 3.2, ty)
				if err != nil {
					continue
				}
				ps = append(ps, p)
			}
		}
		v.Run("Galois elements", 300, func(r *rand.Rand) (string, string) {
			if len(ps) == 0 {
				return "", ""
			}
			p := ps[r.Intn(len(ps))]
			M := int64(2 * p.N())
			if p.RingType() == ring.ConjugateInvariant {
				M *= 2
			}
			mm := big.NewInt(M)
			rot := func(k int) uint64 {
				e := big.NewInt(int64(k))
				e.Mod(e, mm)
				return e.Exp(big.NewInt(5), e, mm).Uint64()
			}
			k := r.Intn(8*p.N()) - 4*p.N()
			if r.Intn(10) == 0 {
				k = int(r.Int63()) - 1<<62
			}
			in := In("logN=%d type=%d k=%d", p.LogN(), p.RingType(), k)
			g := p.GaloisElementForColumnRotationBy(k)
			if g != rot(k) {
				return in, fmt.Sprintf("element %d, want %d", g, rot(k))
			}
			if r.Intn(3) == 0 {
				g = (uint64(M) - g) % uint64(M)
			}
			if h := p.InverseGaloisElement(g); h >= uint64(M) || mulModBig(g, h, uint64(M)) != 1 {
				return in, fmt.Sprintf("inverse of %d is %d", g, h)
			}
			ge := p.GaloisElementsForRowInnerSum()
			if len(ge) != p.LogN() {
				return in, fmt.Sprintf("%d inner sum elements", len(ge))
			}
			for i := range ge {
				w := rot(1 << uint(i))
				if i == p.LogN()-1 && p.RingType() == ring.Standard {
					w = uint64(M) - 1
				}
				if ge[i] != w {
					return in, fmt.Sprintf("inner sum element %d = %d, want %d", i, ge[i], w)
				}
			}
			if p.RingType() == ring.Standard && p.GaloisElementForRowRotation() != uint64(M)-1 {
				return in, "row rotation element"
			}
			return in, ""
		})
	})
}
