package driver

import (
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"fast-ksw/ring"
)

// scaled replaces the coefficients of the rows 0..lvl by floor or round of the
// value divided by the last nb moduli, one after the other.
func scaled(p *ring.Poly, lvl, nb int, Q []uint64, round bool) [][]uint64 {
	out := make([][]uint64, lvl-nb+1)
	for i := range out {
		out[i] = make([]uint64, len(p.Coeffs[0]))
	}
	for k := range p.Coeffs[0] {
		x := crtBig(p, lvl, k, Q)
		for s := 0; s < nb; s++ {
			q := bu(Q[lvl-s])
			if round {
				x.Add(x, new(big.Int).Rsh(q, 1))
			}
			x.Div(x, q)
		}
		for i := range out {
			out[i][k] = modBig(x, Q[i])
		}
	}
	return out
}

// edgePoly draws a polynomial over the rows 0..lvl with many coefficients near
// multiples and half-multiples of the last modulus.
func edgePoly(r *rand.Rand, R *ring.Ring, rows, lvl int) *ring.Poly {
	p := genPoly(r, R, rows)
	M := prodBig(R.Modulus[:lvl+1])
	for k := 0; k < R.N; k++ {
		if r.Intn(2) == 0 {
			continue
		}
		q := bu(R.Modulus[lvl])
		x := new(big.Int).Rand(r, M)
		if r.Intn(3) == 0 {
			x = big.NewInt(int64(r.Intn(5)))
		}
		x.Mul(x, q)
		if r.Intn(2) == 0 {
			x.Add(x, q.Rsh(q, 1))
		}
		x.Add(x, big.NewInt(int64(r.Intn(5)-2)))
		x.Mod(x, M)
		for i := 0; i <= lvl; i++ {
			p.Coeffs[i][k] = modBig(x, R.Modulus[i])
		}
	}
	return p
}

func ringMulti(r *rand.Rand, maxLog, maxMod, maxBits int) *ring.Ring {
	for {
		if R := genRing(r, maxLog, maxMod, maxBits); len(R.Modulus) > 1 {
			return R
		}
	}
}

func TestVerif(t *testing.T) {
	verifMain(t, "random rings of degree 16..64 with 2..5 moduli of mixed sizes, all levels and numbers of steps, in place and not; coefficients random, near multiples and half-multiples of the divisor; oracle: exact CRT with math/big", func(v *V) {
		for _, name := range []string{
			"DivFloorByLastModulusLvl", "DivRoundByLastModulusLvl",
			"DivFloorByLastModulusNTTLvl", "DivRoundByLastModulusNTTLvl",
			"DivFloorByLastModulusManyLvl", "DivRoundByLastModulusManyLvl",
			"DivFloorByLastModulusManyNTTLvl", "DivRoundByLastModulusManyNTTLvl"} {
			name := name
			v.Run(name, 120, func(r *rand.Rand) (string, string) {
				R := ringMulti(r, 6, 5, 60)
				Q := R.Modulus
				lvl := 1 + r.Intn(len(Q)-1)
				nb := 1
				round := name[3] == 'R'
				many, ntt := false, false
				switch name {
				case "DivFloorByLastModulusManyLvl", "DivRoundByLastModulusManyLvl":
					many = true
				case "DivFloorByLastModulusManyNTTLvl", "DivRoundByLastModulusManyNTTLvl":
					many, ntt = true, true
				case "DivFloorByLastModulusNTTLvl", "DivRoundByLastModulusNTTLvl":
					ntt = true
				}
				if many {
					nb = r.Intn(lvl + 1)
				}
				rows := lvl + 1 + r.Intn(len(Q)-lvl)
				a := edgePoly(r, R, rows, lvl)
				inplace := r.Intn(3) == 0
				out := a
				if !inplace {
					out = genPoly(r, R, lvl-nb+1+r.Intn(len(Q)-(lvl-nb)))
				}
				pool := genPoly(r, R, len(Q))
				a0, o0 := clonePoly(a), clonePoly(out)
				in := In("%s N=%d Q=%d level=%d steps=%d inplace=%v p0=%v", name, R.N, Q, lvl, nb, inplace, a.Coeffs)
				w := scaled(a, lvl, nb, Q, round)
				if ntt {
					for i := 0; i <= lvl; i++ {
						R.NTTSingle(i, a.Coeffs[i], a.Coeffs[i])
					}
				}
				an := clonePoly(a)
				switch name {
				case "DivFloorByLastModulusLvl":
					R.DivFloorByLastModulusLvl(lvl, a, out)
				case "DivRoundByLastModulusLvl":
					R.DivRoundByLastModulusLvl(lvl, a, out)
				case "DivFloorByLastModulusNTTLvl":
					R.DivFloorByLastModulusNTTLvl(lvl, a, pool, out)
				case "DivRoundByLastModulusNTTLvl":
					R.DivRoundByLastModulusNTTLvl(lvl, a, pool, out)
				case "DivFloorByLastModulusManyLvl":
					R.DivFloorByLastModulusManyLvl(lvl, nb, a, pool, out)
				case "DivRoundByLastModulusManyLvl":
					R.DivRoundByLastModulusManyLvl(lvl, nb, a, pool, out)
				case "DivFloorByLastModulusManyNTTLvl":
					R.DivFloorByLastModulusManyNTTLvl(lvl, nb, a, pool, out)
				default:
					R.DivRoundByLastModulusManyNTTLvl(lvl, nb, a, pool, out)
				}
				got := clonePoly(out)
				for i := 0; i <= lvl-nb; i++ {
					if ntt {
						for k, x := range got.Coeffs[i] {
							if x >= Q[i] {
								return in, fmt.Sprintf("row %d slot %d = %d is not reduced", i, k, x)
							}
						}
						R.InvNTTSingle(i, got.Coeffs[i], got.Coeffs[i])
					}
					for k := range w[i] {
						if got.Coeffs[i][k] != w[i][k] {
							return in, fmt.Sprintf("row %d coefficient %d = %d, want %d (value %v)", i, k, got.Coeffs[i][k], w[i][k], crtBig(a0, lvl, k, Q))
						}
					}
				}
				for i := lvl + 1; i < rows; i++ {
					for k := range a.Coeffs[i] {
						if a.Coeffs[i][k] != a0.Coeffs[i][k] {
							return in, fmt.Sprintf("row %d of the input above the level changed", i)
						}
					}
				}
				if !inplace {
					for i := lvl + 1; i < len(out.Coeffs); i++ {
						for k := range out.Coeffs[i] {
							if out.Coeffs[i][k] != o0.Coeffs[i][k] {
								return in, fmt.Sprintf("row %d of the output above the level changed", i)
							}
						}
					}
					if ntt || !round {
						return in, samePoly(a, an)
					}
				}
				return in, ""
			})
		}
		v.Run("SimpleScaler", 120, func(r *rand.Rand) (string, string) {
			R := genRing(r, 6, 4, 60)
			Q := R.Modulus
			M := prodBig(Q)
			T := []uint64{2, 3, 16, 257, 65537, 1 << 20, 786433}[r.Intn(7)]
			s := ring.NewSimpleScaler(T, R)
			return scaler(r, R, M, T, "SimpleScaler", 0, func(a, out *ring.Poly) { s.DivByQOverTRounded(a, out) })
		})
		v.Run("RNSScaler", 120, func(r *rand.Rand) (string, string) {
			R := genRing(r, 6, 4, 58)
			Q := R.Modulus
			T := nttPrimes(17+r.Intn(10), 2*R.N, 1)[0]
			for _, q := range Q {
				if q == T {
					return "", ""
				}
			}
			RT := mustRing(ring.NewRing(R.N, []uint64{T}))
			s := ring.NewRNSScaler(R, RT)
			return scaler(r, R, prodBig(Q), T, "RNSScaler", 40, func(a, out *ring.Poly) { s.DivByQOverTRounded(a, out) })
		})
	})
}

// scaler checks round(t/Q * x) mod t; values within 2^-margin of a half-integer
// may be rounded either way when margin > 0.
func scaler(r *rand.Rand, R *ring.Ring, M *big.Int, T uint64, name string, margin uint, f func(a, out *ring.Poly)) (string, string) {
	Q := R.Modulus
	a := genPoly(r, R, len(Q))
	for k := 0; k < R.N; k++ {
		if r.Intn(2) == 0 {
			// near a multiple or half-multiple of Q/T
			x := new(big.Int).Mul(M, big.NewInt(r.Int63n(int64(2*T)+1)))
			x.Div(x, bu(2*T))
			x.Add(x, big.NewInt(r.Int63n(9)-4))
			x.Mod(x, M)
			for i, q := range Q {
				a.Coeffs[i][k] = modBig(x, q)
			}
		}
	}
	out := &ring.Poly{Coeffs: [][]uint64{make([]uint64, R.N)}}
	a0 := clonePoly(a)
	in := In("%s N=%d Q=%d T=%d a=%v", name, R.N, Q, T, a.Coeffs)
	f(a, out)
	if bad := samePoly(a, a0); bad != "" {
		return in, "input changed: " + bad
	}
	for k := 0; k < R.N; k++ {
		x := crtBig(a0, len(Q)-1, k, Q)
		num := new(big.Int).Mul(x, bu(2*T))
		num.Add(num, M)
		den := new(big.Int).Lsh(M, 1)
		rem := new(big.Int)
		w, _ := new(big.Int).DivMod(num, den, rem)
		if margin > 0 {
			e := new(big.Int).Rsh(den, margin)
			if rem.Cmp(e) < 0 || new(big.Int).Sub(den, rem).Cmp(e) < 0 {
				continue
			}
		}
		if got, want := out.Coeffs[0][k], modBig(w, T); got != want {
			return in, fmt.Sprintf("coefficient %d = %d, want %d (value %v)", k, got, want, x)
		}
	}
	return in, ""
}
