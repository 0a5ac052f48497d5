package driver

import (
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"testing"

	"fast-ksw/ring"
)

func revBits(i uint64, n int) uint64 {
	var s uint64
	for k := 0; k < n; k++ {
		s = s<<1 | i>>uint(k)&1
	}
	return s
}

func mulMod(x, y, q uint64) uint64 {
	hi, lo := bits.Mul64(x, y)
	_, r := bits.Div64(hi%q, lo, q)
	return r
}

func powMod(x, e, q uint64) uint64 {
	r := uint64(1)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = mulMod(r, x, q)
		}
		x = mulMod(x, x, q)
	}
	return r
}

// root is psi, taken out of the Montgomery domain.
func root(R *ring.Ring, i int) uint64 {
	q := R.Modulus[i]
	x := new(big.Int).Mul(bu(R.PsiMont[i]), new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 64), bu(q)))
	return x.Mod(x, bu(q)).Uint64()
}

// eval evaluates the row at z (Horner); ci rings have coefficient k standing for X^k + X^-k.
func eval(c []uint64, z, q uint64, ci bool) uint64 {
	var s uint64
	if !ci {
		for k := len(c) - 1; k >= 0; k-- {
			s = (mulMod(s, z, q) + c[k]%q) % q
		}
		return s
	}
	zi := powMod(z, q-2, q)
	x, y := uint64(1), uint64(1)
	s = c[0] % q
	for k := 1; k < len(c); k++ {
		x, y = mulMod(x, z, q), mulMod(y, zi, q)
		s = (s + mulMod(c[k]%q, (x+y)%q, q)) % q
	}
	return s
}

// anyRing draws a standard or conjugate-invariant ring.
func anyRing(r *rand.Rand, maxLog, maxMod, maxBits int) (*ring.Ring, bool) {
	if r.Intn(3) > 0 {
		return genRing(r, maxLog, maxMod, maxBits), false
	}
	logN := 4 + r.Intn(maxLog-3)
	return mustRing(ring.NewRingConjugateInvariant(1<<uint(logN), genModuli(r, 4<<uint(logN), maxMod, maxBits))), true
}

// the extremes of the range stress the lazy butterflies
func nttPoly(r *rand.Rand, R *ring.Ring, rows int) *ring.Poly {
	p := genPoly(r, R, rows)
	if r.Intn(2) == 0 {
		for i := range p.Coeffs {
			for k := range p.Coeffs[i] {
				switch m := r.Intn(8); {
				case m < 5:
					p.Coeffs[i][k] = R.Modulus[i] - 1 - uint64(r.Intn(2))
				case m < 6:
					p.Coeffs[i][k] = 0
				}
			}
		}
	}
	return p
}

func checkSlots(r *rand.Rand, R *ring.Ring, ci bool, i int, coeffs, slots []uint64, lim uint64, n int) string {
	q, psi := R.Modulus[i], root(R, i)
	if powMod(psi, R.NthRoot>>1, q) != q-1 {
		return fmt.Sprintf("psi of row %d is not a primitive root of order %d", i, R.NthRoot)
	}
	l := bits.Len64(R.NthRoot) - 2
	for t := 0; t < n; t++ {
		s := t
		if n < R.N {
			s = r.Intn(R.N)
		}
		z := powMod(psi, 2*revBits(uint64(s), l)+1, q)
		w := eval(coeffs, z, q, ci)
		if slots[s]%q != w || slots[s] >= lim {
			return fmt.Sprintf("row %d slot %d = %d, want %d (values below %d)", i, s, slots[s], w, lim)
		}
	}
	return ""
}

func TestVerif(t *testing.T) {
	verifMain(t, "random standard and conjugate-invariant rings of degree 16..128 (evaluation of all slots) and up to 32768 (sampled slots), primes of 12..61 bits, all levels, in place and not, coefficients random and at the ends of the range; oracle: evaluation at the powers of the root, schoolbook products", func(v *V) {
		for _, name := range []string{"NTT", "NTTLvl", "NTTLazy", "NTTLazyLvl", "NTTSingle", "NTTSingleLazy"} {
			for _, inv := range []bool{false, true} {
				name, inv := name, inv
				id := name
				if inv {
					id = "Inv" + name
				}
				v.Run(id, 60, func(r *rand.Rand) (string, string) {
					maxLog := 7
					if r.Intn(6) == 0 {
						maxLog = 15
					}
					R, ci := anyRing(r, maxLog, 3, 61)
					Q := R.Modulus
					n := R.N
					if n > 128 {
						n = 2
					}
					rows := 1 + r.Intn(len(Q))
					if name == "NTT" || name == "NTTLazy" {
						rows = len(Q) // these transform every row of the ring
					}
					lvl := r.Intn(rows)
					a := nttPoly(r, R, rows)
					out := a
					inplace := r.Intn(2) == 0
					if !inplace {
						orows := rows
						if name == "NTTLvl" || name == "NTTLazyLvl" {
							orows = lvl + 1 + r.Intn(len(Q)-lvl)
						}
						out = genPoly(r, R, orows)
					}
					a0, o0 := clonePoly(a), clonePoly(out)
					in := In("%s N=%d Q=%d conjugate-invariant=%v level=%d inplace=%v a=%v", id, R.N, Q, ci, lvl, inplace, a.Coeffs)
					lo, hi, lazy := 0, rows, false
					switch id {
					case "NTT":
						R.NTT(a, out)
					case "NTTLazy":
						R.NTTLazy(a, out)
					case "NTTLvl":
						R.NTTLvl(lvl, a, out)
					case "NTTLazyLvl":
						R.NTTLazyLvl(lvl, a, out)
					case "NTTSingle":
						R.NTTSingle(lvl, a.Coeffs[lvl], out.Coeffs[lvl])
					case "NTTSingleLazy":
						R.NTTSingleLazy(lvl, a.Coeffs[lvl], out.Coeffs[lvl])
					case "InvNTT":
						R.InvNTT(a, out)
					case "InvNTTLazy":
						R.InvNTTLazy(a, out)
					case "InvNTTLvl":
						R.InvNTTLvl(lvl, a, out)
					case "InvNTTLazyLvl":
						R.InvNTTLazyLvl(lvl, a, out)
					case "InvNTTSingle":
						R.InvNTTSingle(lvl, a.Coeffs[lvl], out.Coeffs[lvl])
					default:
						R.InvNTTSingleLazy(lvl, a.Coeffs[lvl], out.Coeffs[lvl])
					}
					switch name {
					case "NTTLvl", "NTTLazyLvl":
						hi = lvl + 1
					case "NTTSingle", "NTTSingleLazy":
						lo, hi = lvl, lvl+1
					}
					lazy = name == "NTTLazy" || name == "NTTLazyLvl" || name == "NTTSingleLazy"
					for i := range out.Coeffs {
						if i < lo || i >= hi {
							for k := range out.Coeffs[i] {
								if out.Coeffs[i][k] != o0.Coeffs[i][k] {
									return in, fmt.Sprintf("row %d changed", i)
								}
							}
							continue
						}
						lim := Q[i]
						if lazy {
							lim = 2 * Q[i]
							if !inv {
								lim = 8 * Q[i] // the forward transform stays below 8q, without overflow
								if Q[i]>>61 != 0 || lim < Q[i] {
									lim = ^uint64(0)
								}
							}
						}
						c, s := a0.Coeffs[i], out.Coeffs[i]
						if inv {
							c, s = out.Coeffs[i], a0.Coeffs[i]
							for k, x := range c {
								if x >= lim {
									return in, fmt.Sprintf("row %d coefficient %d = %d, limit %d", i, k, x, lim)
								}
							}
							lim = ^uint64(0)
						}
						if bad := checkSlots(r, R, ci, i, c, s, lim, n); bad != "" {
							return in, bad
						}
						if n < R.N {
							// the sampled slots are completed by the round trip
							b := make([]uint64, R.N)
							if inv {
								R.NTTSingle(i, c, b)
							} else {
								R.InvNTTSingle(i, reduced(s, Q[i]), b)
							}
							for k := range b {
								if b[k] != a0.Coeffs[i][k] {
									return in, fmt.Sprintf("row %d: the round trip gives %d at %d, want %d", i, b[k], k, a0.Coeffs[i][k])
								}
							}
						}
					}
					if !inplace {
						return in, samePoly(a, a0)
					}
					return in, ""
				})
			}
		}
		// the depth of the lazy butterflies grows with the degree: 61-bit primes, extreme values
		v.Run("depth", 24, func(r *rand.Rand) (string, string) {
			logN, ci := 11+r.Intn(5), r.Intn(2) == 0
			N := 1 << uint(logN)
			mk := ring.NewRing
			m := 2 * N
			if ci {
				mk, m = ring.NewRingConjugateInvariant, 4*N
			}
			R := mustRing(mk(N, nttPrimes(61, m, 1)))
			a := nttPoly(r, R, 1)
			b := clonePoly(a)
			in := fmt.Sprintf("NTT then InvNTT N=%d Q=%d conjugate-invariant=%v (values seeded)", N, R.Modulus, ci)
			R.NTT(b, b)
			if bad := checkSlots(r, R, ci, 0, a.Coeffs[0], b.Coeffs[0], R.Modulus[0], 4); bad != "" {
				return in, bad
			}
			R.InvNTT(b, b)
			return in, samePoly(b, a)
		})
		v.Run("product", 60, func(r *rand.Rand) (string, string) {
			R, ci := anyRing(r, 7, 3, 61)
			Q := R.Modulus
			a, b := nttPoly(r, R, len(Q)), nttPoly(r, R, len(Q))
			in := In("product N=%d Q=%d conjugate-invariant=%v a=%v b=%v", R.N, Q, ci, a.Coeffs, b.Coeffs)
			w := schoolbook(R, ci, a, b)
			x, y, z := clonePoly(a), clonePoly(b), genPoly(r, R, len(Q))
			if r.Intn(2) == 0 {
				R.NTTLazy(x, x)
				R.NTTLazy(y, y)
				R.Reduce(y, y)
			} else {
				R.NTT(x, x)
				R.NTT(y, y)
			}
			R.MForm(y, y)
			R.MulCoeffsMontgomery(x, y, z)
			R.InvNTT(z, z)
			return in, samePoly(z, w)
		})
		v.Run("MapSmallDimensionToLargerDimensionNTT", 40, func(r *rand.Rand) (string, string) {
			logN := 4 + r.Intn(3)
			gap := 1 << uint(1+r.Intn(3))
			N := 1 << uint(logN)
			Q := genModuli(r, 2*N*gap, 2, 58)
			S, L := mustRing(ring.NewRing(N, Q)), mustRing(ring.NewRing(N*gap, Q))
			// same roots in both rings: embed through the large transform
			a := genPoly(r, S, len(Q))
			in := In("MapSmallDimensionToLargerDimensionNTT N=%d gap=%d Q=%d a=%v", N, gap, Q, a.Coeffs)
			big := &ring.Poly{}
			for i := range Q {
				row := make([]uint64, N*gap)
				for k := range a.Coeffs[i] {
					row[k*gap] = a.Coeffs[i][k]
				}
				big.Coeffs = append(big.Coeffs, row)
			}
			for i := range Q {
				if root(S, i) != powMod(root(L, i), uint64(gap), Q[i]) {
					return in, ""
				}
			}
			S.NTT(a, a)
			L.NTT(big, big)
			out := genPoly(r, L, len(Q))
			ring.MapSmallDimensionToLargerDimensionNTT(a, out)
			return in, samePoly(out, big)
		})
	})
}

func reduced(c []uint64, q uint64) []uint64 {
	d := make([]uint64, len(c))
	for i := range c {
		d[i] = c[i] % q
	}
	return d
}

// schoolbook multiplies in Z_q[X]/(X^N+1), or in its conjugate-invariant
// counterpart: coefficient k of a conjugate-invariant polynomial stands for
// X^k + X^-k in degree 2N.
func schoolbook(R *ring.Ring, ci bool, a, b *ring.Poly) *ring.Poly {
	w := clonePoly(a)
	for i, q := range R.Modulus {
		x, y, n := a.Coeffs[i], b.Coeffs[i], R.N
		if ci {
			x, y, n = unfold(x, q), unfold(y, q), 2*R.N
		}
		s := make([]uint64, n)
		for j := range x {
			for k := range y {
				m := mulMod(x[j], y[k], q)
				if j+k >= n {
					s[j+k-n] = (s[j+k-n] + q - m) % q
				} else {
					s[j+k] = (s[j+k] + m) % q
				}
			}
		}
		copy(w.Coeffs[i], s[:R.N])
	}
	return w
}

func unfold(c []uint64, q uint64) []uint64 {
	n := len(c)
	u := make([]uint64, 2*n)
	copy(u, c)
	for k := 1; k < n; k++ {
		u[2*n-k] = (q - c[k]) % q
	}
	return u
}
