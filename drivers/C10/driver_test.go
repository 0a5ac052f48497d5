package driver

import (
	"fmt"
	"math/big"
	"math/rand"
	"testing"

	"fast-ksw/frlwe"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

const noiseBound = 19 // floor(6*3.2)

func ksParams(r *rand.Rand) (rlwe.Parameters, string) {
	logN := 4 + r.Intn(3)
	m := 2 << uint(logN)
	sizes := []int{30, 36, 45, 55, 60, 61}
	bq := sizes[r.Intn(len(sizes))]
	bp := bq
	if r.Intn(3) == 0 {
		bp = sizes[r.Intn(len(sizes))]
	}
	if bp < bq {
		bp = bq
	}
	np := 1 + r.Intn(3)
	nq := 1 + r.Intn(7)
	if r.Intn(3) == 0 {
		nq = 8 + r.Intn(8)
		np = 1
	}
	var q, p []uint64
	if bq == bp {
		ps := nttPrimes(bq, m, nq+np)
		q, p = ps[:nq], ps[nq:nq+np]
	} else {
		q, p = nttPrimes(bq, m, nq), nttPrimes(bp, m, np)
	}
	if r.Intn(2) == 0 && bq > 40 { // one moduli of another size
		q = append([]uint64{nttPrimes(bq-7, m, 1)[0]}, q...)
	}
	params, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: q, P: p, Sigma: rlwe.DefaultSigma, H: 1 + r.Intn(1<<uint(logN))})
	if err != nil {
		panic(err)
	}
	return params, fmt.Sprintf("logN=%d Q=%#x P=%#x", logN, q, p)
}

func uniform(r *rand.Rand, R *ring.Ring, lvl int) *ring.Poly {
	p := R.NewPolyLvl(lvl)
	for i := range p.Coeffs {
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = residue(r, R.Modulus[i])
		}
	}
	return p
}

// coeffs gives the centred integer coefficients of p mod the first lvl+1 moduli.
func coeffs(R *ring.Ring, lvl int, p *ring.Poly, ntt, mont bool) []*big.Int {
	t := R.NewPolyLvl(lvl)
	for i := 0; i <= lvl; i++ {
		copy(t.Coeffs[i], p.Coeffs[i])
	}
	R.ReduceLvl(lvl, t, t)
	if mont {
		R.InvMFormLvl(lvl, t, t)
	}
	if ntt {
		R.InvNTTLvl(lvl, t, t)
	}
	M := prodBig(R.Modulus[:lvl+1])
	h := new(big.Int).Rsh(M, 1)
	out := make([]*big.Int, R.N)
	for k := range out {
		z := crtBig(t, lvl, k, R.Modulus)
		if z.Cmp(h) > 0 {
			z.Sub(z, M)
		}
		out[k] = z
	}
	return out
}

func maxAbs(a []*big.Int) *big.Int {
	m := new(big.Int)
	for _, x := range a {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	return m
}

func ksBound(params rlwe.Parameters, lvl int) *big.Int {
	alpha := params.PCount()
	beta := (lvl + alpha) / alpha
	blk := new(big.Int)
	q := params.Q()
	for i := 0; i <= lvl; i += alpha {
		e := i + alpha
		if e > lvl+1 {
			e = lvl + 1
		}
		if b := prodBig(q[i:e]); b.Cmp(blk) > 0 {
			blk = b
		}
	}
	B := new(big.Int).Mul(blk, big.NewInt(int64(beta*params.N()*(noiseBound+1)*(alpha+1))))
	B.Quo(B, params.PBigInt())
	return B.Add(B, big.NewInt(int64(2*(params.N()+2))))
}

// checkSwitched: p0 + p1*skOut = cx*skIn + small, all over the first lvl+1 moduli.
func checkSwitched(params rlwe.Parameters, lvl int, cx, p0, p1 *ring.Poly, ntt bool, skIn, skOut *ring.Poly) string {
	R := params.RingQ()
	B := ksBound(params, lvl)
	if new(big.Int).Lsh(B, 3).Cmp(prodBig(R.Modulus[:lvl+1])) >= 0 {
		return ""
	}
	c, a0, a1 := R.NewPolyLvl(lvl), R.NewPolyLvl(lvl), R.NewPolyLvl(lvl)
	for i := 0; i <= lvl; i++ {
		copy(c.Coeffs[i], cx.Coeffs[i])
		copy(a0.Coeffs[i], p0.Coeffs[i])
		copy(a1.Coeffs[i], p1.Coeffs[i])
	}
	for _, p := range []*ring.Poly{a0, a1} {
		for i := 0; i <= lvl; i++ {
			for k, x := range p.Coeffs[i] {
				if x > R.Modulus[i] {
					return fmt.Sprintf("row %d coefficient %d of the result is %d, modulus %d", i, k, x, R.Modulus[i])
				}
			}
		}
	}
	if !ntt {
		for _, p := range []*ring.Poly{c, a0, a1} {
			R.ReduceLvl(lvl, p, p)
			R.NTTLvl(lvl, p, p)
		}
	}
	R.MulCoeffsMontgomeryLvl(lvl, a1, skOut, a1)
	R.MulCoeffsMontgomeryLvl(lvl, c, skIn, c)
	R.ReduceLvl(lvl, a0, a0)
	R.AddLvl(lvl, a0, a1, a0)
	R.SubLvl(lvl, a0, c, a0)
	if e := maxAbs(coeffs(R, lvl, a0, true, false)); e.Cmp(B) > 0 {
		return fmt.Sprintf("|p0 + p1*skOut - cx*skIn| = %s exceeds the noise bound %s", e, B)
	}
	return ""
}

// smallSecret: a secret key in degree 2^logN over the first nq and np moduli, and its coefficients.
func smallSecret(params rlwe.Parameters, logN, nq, np int) (*rlwe.SecretKey, []*big.Int) {
	sub, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: params.Q()[:nq], P: params.P()[:np], Sigma: rlwe.DefaultSigma, H: 1 + params.HammingWeight()%(1<<uint(logN))})
	if err != nil {
		panic(err)
	}
	sk := rlwe.NewKeyGenerator(sub).GenSecretKey()
	return sk, coeffs(sub.RingQ(), nq-1, sk.Value.Q, true, true)
}

// embed gives the polynomial with coefficients z in X^(N/len(z)), in the NTT and Montgomery domain.
func embed(R *ring.Ring, z []*big.Int) *ring.Poly {
	p := R.NewPoly()
	for k, x := range z {
		for i, q := range R.Modulus {
			p.Coeffs[i][k*(R.N/len(z))] = new(big.Int).Mod(x, bu(q)).Uint64()
		}
	}
	R.NTT(p, p)
	R.MForm(p, p)
	return p
}

// smallKey: the key's error e_i = v0 + v1*skOut - [block]*P*skIn is one small integer polynomial.
func smallKey(params rlwe.Parameters, v [2]rlwe.PolyQP, skIn *ring.Poly, skOut rlwe.PolyQP, from, to int) string {
	RQ, RP := params.RingQ(), params.RingP()
	var first []*big.Int
	rows := func(R *ring.Ring, v0, v1, s, in *ring.Poly, q bool) string {
		lvl := len(v0.Coeffs) - 1
		t, u := R.NewPolyLvl(lvl), R.NewPolyLvl(lvl)
		R.MulCoeffsMontgomeryLvl(lvl, v1, s, t)
		R.AddLvl(lvl, t, v0, t)
		if q {
			R.MulScalarBigintLvl(lvl, in, prodBig(params.P()[:len(v[0].P.Coeffs)]), u)
			for i := from; i < to && i <= lvl; i++ {
				for k := range t.Coeffs[i] {
					x := bu(t.Coeffs[i][k])
					x.Sub(x, bu(u.Coeffs[i][k]))
					t.Coeffs[i][k] = x.Mod(x, bu(R.Modulus[i])).Uint64()
				}
			}
		}
		R.InvMFormLvl(lvl, t, t)
		R.InvNTTLvl(lvl, t, t)
		for i := 0; i <= lvl; i++ {
			for k := range t.Coeffs[i] {
				x := bu(t.Coeffs[i][k] % R.Modulus[i])
				if x.Cmp(bu(R.Modulus[i]/2)) > 0 {
					x.Sub(x, bu(R.Modulus[i]))
				}
				if x.CmpAbs(big.NewInt(noiseBound+1)) > 0 {
					return fmt.Sprintf("error coefficient %s mod %d (row %d)", x, R.Modulus[i], i)
				}
				if len(first) <= k {
					first = append(first, x)
				}
				if x.Cmp(first[k]) != 0 {
					return fmt.Sprintf("error coefficient %d is %s mod %d and %s mod the first modulus", k, x, R.Modulus[i], first[k])
				}
			}
		}
		return ""
	}
	if b := rows(RQ, v[0].Q, v[1].Q, skOut.Q, skIn, true); b != "" {
		return "Q: " + b
	}
	if b := rows(RP, v[0].P, v[1].P, skOut.P, nil, false); b != "" {
		return "P: " + b
	}
	return ""
}

func TestVerifC10(t *testing.T) {
	verifMain(t, "degree 16..64, 1..16 moduli Q of 23..61 bits and 1..3 moduli P, every level, random ternary keys of any weight, boundary-biased polynomials, both domains; exact sums compared with math/big, switched ciphertexts with the worst-case noise bound; distinct = distinct inputs", func(v *V) {
		v.Run("secret keys", 60, func(r *rand.Rand) (string, string) {
			params, in := ksParams(r)
			in = In("%s", in)
			kg := rlwe.NewKeyGenerator(params)
			h := 1 + r.Intn(params.N())
			sk := kg.GenSecretKeyWithHammingWeight(h)
			gauss := false
			switch r.Intn(4) {
			case 0:
				sk, h = kg.GenSecretKey(), params.HammingWeight()
			case 1:
				sk, gauss = kg.GenSecretKeyGaussian(), true
			}
			a := coeffs(params.RingQ(), params.QCount()-1, sk.Value.Q, true, true)
			b := coeffs(params.RingP(), params.PCount()-1, sk.Value.P, true, true)
			w := 0
			for k := range a {
				if a[k].Cmp(b[k]) != 0 {
					return in, fmt.Sprintf("coefficient %d is %s mod Q and %s mod P", k, a[k], b[k])
				}
				if a[k].Sign() != 0 {
					w++
				}
			}
			lim := int64(1)
			if gauss {
				lim = noiseBound + 1
			}
			if m := maxAbs(a); m.Cmp(big.NewInt(lim)) > 0 {
				return in, fmt.Sprintf("coefficient of absolute value %s", m)
			}
			if !gauss && w != h {
				return in, fmt.Sprintf("weight %d, want %d", w, h)
			}
			return in, ""
		})
		v.Run("public keys", 60, func(r *rand.Rand) (string, string) {
			params, in := ksParams(r)
			in = In("%s", in)
			kg := rlwe.NewKeyGenerator(params)
			sk := kg.GenSecretKey()
			pk := kg.GenPublicKey(sk)
			if r.Intn(2) == 0 {
				sk, pk = kg.GenKeyPair()
			}
			for _, x := range []struct {
				R       *ring.Ring
				a, b, s *ring.Poly
			}{{params.RingQ(), pk.Value[0].Q, pk.Value[1].Q, sk.Value.Q}, {params.RingP(), pk.Value[0].P, pk.Value[1].P, sk.Value.P}} {
				t := x.R.NewPoly()
				x.R.MulCoeffsMontgomery(x.b, x.s, t)
				x.R.Add(t, x.a, t)
				if m := maxAbs(coeffs(x.R, len(x.R.Modulus)-1, t, true, false)); m.Cmp(big.NewInt(noiseBound+1)) > 0 {
					return in, fmt.Sprintf("pk0 + pk1*s has a coefficient of absolute value %s", m)
				}
			}
			return in, ""
		})
		v.Run("switching keys", 60, func(r *rand.Rand) (string, string) {
			params, in := ksParams(r)
			in = In("%s", in)
			kg := rlwe.NewKeyGenerator(params)
			// the two keys in rings of the same or a smaller degree, with all or some of the moduli
			na, nb := params.LogN(), params.LogN()
			la, lb, lp := params.QCount(), params.QCount(), params.PCount()
			switch r.Intn(6) {
			case 0:
				na, la = 4+r.Intn(na-3), 1+r.Intn(la)
			case 1:
				nb, lb, lp = 4+r.Intn(nb-3), 1+r.Intn(lb), 1+r.Intn(lp)
			case 2:
				la = 1 + r.Intn(la)
			case 3:
				lb, lp = 1+r.Intn(lb), 1+r.Intn(lp)
			}
			in = In("%s in: logN=%d rows=%d out: logN=%d rows=%d,%d", in, na, la, nb, lb, lp)
			a, az := smallSecret(params, na, la, params.PCount())
			b, bz := smallSecret(params, nb, lb, lp)
			swk := kg.GenSwitchingKey(a, b)
			if len(swk.Value) < (lb+lp-1)/lp {
				return in, fmt.Sprintf("%d digits", len(swk.Value))
			}
			RQ, RP := params.RingQ(), params.RingP()
			skIn := embed(RQ, az)
			skOut := rlwe.PolyQP{Q: embed(RQ, bz), P: embed(RP, bz)}
			for i := 0; i < (lb+lp-1)/lp; i++ {
				if len(swk.Value[i][0].Q.Coeffs) != lb || len(swk.Value[i][0].P.Coeffs) != lp || len(swk.Value[i][1].Q.Coeffs) != lb || len(swk.Value[i][1].P.Coeffs) != lp {
					return in, fmt.Sprintf("digit %d has %d and %d rows", i, len(swk.Value[i][0].Q.Coeffs), len(swk.Value[i][0].P.Coeffs))
				}
				if e := smallKey(params, swk.Value[i], skIn, skOut, i*lp, (i+1)*lp); e != "" {
					return in, fmt.Sprintf("digit %d: %s", i, e)
				}
			}
			return in, ""
		})
		v.Run("ring swap keys", 30, func(r *rand.Rand) (string, string) {
			logN := 4 + r.Intn(2)
			m := 4 << uint(logN)
			nq, np := 1+r.Intn(4), 1+r.Intn(3)
			ps := nttPrimes(50+r.Intn(11), m, nq+np)
			lit := rlwe.ParametersLiteral{LogN: logN, Q: ps[:nq], P: ps[nq:], Sigma: rlwe.DefaultSigma, H: 1 + r.Intn(1<<uint(logN)), RingType: ring.ConjugateInvariant}
			ci, err := rlwe.NewParametersFromLiteral(lit)
			if err != nil {
				panic(err)
			}
			params, err := ci.StandardParameters()
			if err != nil {
				panic(err)
			}
			in := In("logN=%d primes=%#x", logN, ps)
			skCI := rlwe.NewKeyGenerator(ci).GenSecretKey()
			kg := rlwe.NewKeyGenerator(params)
			sk := kg.GenSecretKey()
			z := coeffs(ci.RingQ(), nq-1, skCI.Value.Q, true, true)
			if zp := coeffs(ci.RingP(), np-1, skCI.Value.P, true, true); fmt.Sprint(z) != fmt.Sprint(zp) {
				return in, "conjugate-invariant key differs mod Q and P"
			}
			n := params.N()
			u := make([]*big.Int, n)
			for k := range u {
				u[k] = new(big.Int)
			}
			u[0].Set(z[0])
			for k := 1; k < len(z); k++ {
				u[k].Add(u[k], z[k])
				u[n-k].Sub(u[n-k], z[k])
			}
			sz := coeffs(params.RingQ(), nq-1, sk.Value.Q, true, true)
			RQ, RP := params.RingQ(), params.RingP()
			toCI, toStd := kg.GenSwitchingKeysForRingSwap(sk, skCI)
			for i := 0; i < params.Beta(); i++ {
				if e := smallKey(params, toCI.Value[i], embed(RQ, sz), rlwe.PolyQP{Q: embed(RQ, u), P: embed(RP, u)}, i*np, (i+1)*np); e != "" {
					return in, fmt.Sprintf("standard to conjugate invariant, digit %d: %s", i, e)
				}
				if e := smallKey(params, toStd.Value[i], embed(RQ, u), rlwe.PolyQP{Q: embed(RQ, sz), P: embed(RP, sz)}, i*np, (i+1)*np); e != "" {
					return in, fmt.Sprintf("conjugate invariant to standard, digit %d: %s", i, e)
				}
			}
			return in, ""
		})
		v.Run("relinearization and rotation keys", 40, func(r *rand.Rand) (string, string) {
			params, in := ksParams(r)
			in = In("%s", in)
			kg := rlwe.NewKeyGenerator(params)
			R := params.RingQ()
			alpha := params.PCount()
			sk := kg.GenSecretKey()
			rlk := kg.GenRelinearizationKey(sk, 1+r.Intn(2))
			s := sk.Value.Q.CopyNew()
			for d, k := range rlk.Keys {
				R.MulCoeffsMontgomery(s, sk.Value.Q, s)
				for i := range k.Value {
					if e := smallKey(params, k.Value[i], s, sk.Value, i*alpha, (i+1)*alpha); e != "" {
						return in, fmt.Sprintf("key %d digit %d: %s", d, i, e)
					}
				}
			}
			rot := r.Intn(4*params.N()) - 2*params.N()
			g := params.GaloisElementForColumnRotationBy(rot)
			var swk *rlwe.SwitchingKey
			switch r.Intn(4) {
			case 0:
				swk = kg.GenSwitchingKeyForRotationBy(rot, sk)
			case 1:
				swk = kg.GenRotationKeysForRotations([]int{rot}, false, sk).Keys[g]
			case 2:
				g = 2*uint64(params.N()) - 1
				swk = kg.GenSwitchingKeyForRowRotation(sk)
			default:
				g = uint64(r.Intn(params.N()))*2 + 1
				swk = kg.GenSwitchingKeyForGalois(g, sk)
			}
			in = In("%s galois=%d", in, g)
			// out key: the image of s under the inverse of X -> X^g
			inv := new(big.Int).ModInverse(bu(g), big.NewInt(int64(2*params.N()))).Uint64()
			out := rlwe.PolyQP{Q: R.NewPoly(), P: params.RingP().NewPoly()}
			R.PermuteNTT(sk.Value.Q, inv, out.Q)
			params.RingP().PermuteNTT(sk.Value.P, inv, out.P)
			for i := range swk.Value {
				if e := smallKey(params, swk.Value[i], sk.Value.Q, out, i*alpha, (i+1)*alpha); e != "" {
					return in, fmt.Sprintf("rotation key digit %d: %s", i, e)
				}
			}
			return in, ""
		})
		v.Run("switching", 150, func(r *rand.Rand) (string, string) {
			params, in := ksParams(r)
			R := params.RingQ()
			lvl := r.Intn(params.QCount())
			ntt := r.Intn(2) == 0
			kg := rlwe.NewKeyGenerator(params)
			a, b := kg.GenSecretKey(), kg.GenSecretKey()
			swk := kg.GenSwitchingKey(a, b)
			ks := rlwe.NewKeySwitcher(params)
			if r.Intn(2) == 0 { // dirty, shared
				d := uniform(r, R, params.QCount()-1)
				ks.SwitchKeysInPlace(params.QCount()-1, d, swk, R.NewPoly(), R.NewPoly())
				if r.Intn(2) == 0 {
					ks = ks.ShallowCopy()
				}
			}
			cx := uniform(r, R, params.QCount()-1)
			cx.IsNTT = ntt
			keep := cx.CopyNew()
			p0, p1 := uniform(r, R, params.QCount()-1), uniform(r, R, params.QCount()-1)
			mode := r.Intn(2)
			in = In("%s level=%d ntt=%v hoisted=%d cx=%v", in, lvl, ntt, mode, cx.Coeffs[:lvl+1])
			resNTT := ntt
			if mode == 0 {
				ks.SwitchKeysInPlace(lvl, cx, swk, p0, p1)
			} else {
				alpha := params.PCount()
				ks.DecomposeNTT(lvl, alpha-1, alpha, cx, ks.PoolDecompQP)
				ks.KeyswitchHoisted(lvl, ks.PoolDecompQP, swk, p0, p1, ks.Pool[1].P, ks.Pool[2].P)
				resNTT = true
			}
			if !R.EqualLvl(lvl, cx, keep) {
				return in, "the input polynomial was modified"
			}
			c := cx.CopyNew()
			if ntt != resNTT {
				R.NTTLvl(lvl, c, c)
			}
			return in, checkSwitched(params, lvl, c, p0, p1, resNTT, a.Value.Q, b.Value.Q)
		})
		v.Run("accumulated digits", 80, func(r *rand.Rand) (string, string) {
			params, in := ksParams(r)
			RQ, RP := params.RingQ(), params.RingP()
			lvl := r.Intn(params.QCount())
			alpha := params.PCount()
			ks := rlwe.NewKeySwitcher(params)
			swk := rlwe.NewSwitchingKey(params, params.QCount()-1, alpha-1)
			beta := (lvl + alpha) / alpha
			top := r.Intn(2) == 0
			fill := func(R *ring.Ring, p *ring.Poly, f uint64) {
				for i := range p.Coeffs {
					for k := range p.Coeffs[i] {
						p.Coeffs[i][k] = residue(r, R.Modulus[i])
						if top {
							p.Coeffs[i][k] = f*R.Modulus[i] - 1 - uint64(r.Intn(3))
						}
					}
				}
			}
			for i := range swk.Value {
				for c := 0; c < 2; c++ {
					fill(RQ, swk.Value[i][c].Q, 1)
					fill(RP, swk.Value[i][c].P, 1)
				}
			}
			for i := range ks.PoolDecompQP {
				fill(RQ, ks.PoolDecompQP[i].Q, 2)
				fill(RP, ks.PoolDecompQP[i].P, 2)
			}
			c := [2]rlwe.PolyQP{{Q: rawPoly(r, RQ, params.QCount()), P: rawPoly(r, RP, alpha)}, {Q: rawPoly(r, RQ, params.QCount()), P: rawPoly(r, RP, alpha)}}
			in = In("%s level=%d top=%v", in, lvl, top)
			ks.KeyswitchHoistedNoModDown(lvl, ks.PoolDecompQP, swk, c[0].Q, c[1].Q, c[0].P, c[1].P)
			for h := 0; h < 2; h++ {
				for _, x := range []struct {
					R   *ring.Ring
					n   int
					got *ring.Poly
					q   bool
				}{{RQ, lvl + 1, c[h].Q, true}, {RP, alpha, c[h].P, false}} {
					for i := 0; i < x.n; i++ {
						for k := 0; k < x.R.N; k++ {
							z := new(big.Int)
							for d := 0; d < beta; d++ {
								if x.q {
									z.Add(z, new(big.Int).Mul(bu(swk.Value[d][h].Q.Coeffs[i][k]), bu(ks.PoolDecompQP[d].Q.Coeffs[i][k])))
								} else {
									z.Add(z, new(big.Int).Mul(bu(swk.Value[d][h].P.Coeffs[i][k]), bu(ks.PoolDecompQP[d].P.Coeffs[i][k])))
								}
							}
							if w := montBig(z, x.R.Modulus[i]); x.got.Coeffs[i][k] != w {
								return in, fmt.Sprintf("component %d (Q: %v) row %d coefficient %d: %d, want %d", h, x.q, i, k, x.got.Coeffs[i][k], w)
							}
						}
					}
				}
			}
			return in, ""
		})
		v.Run("fast external product", 60, func(r *rand.Rand) (string, string) {
			logN := 4 + r.Intn(3)
			m := 2 << uint(logN)
			bq := []int{30, 36, 45, 50}[r.Intn(4)]
			np := 1 + r.Intn(3)
			nq := 1 + r.Intn(6)
			ps := nttPrimes(bq, m, nq+np)
			q, p := ps[:nq], ps[nq:nq+np]
			gamma := 1 + r.Intn(3)
			beta := (nq + np - 1) / np
			need := np*bq + gamma*bq + logN + 6
			for b := beta; b > 0; b >>= 1 {
				need++
			}
			nt := need/55 + 1
			T := nttPrimes(56, m, nt)
			fp := frlwe.NewParametersFromLiteral(frlwe.ParametersLiteral{LogN: logN, Q: q, P: p, T: T, Sigma: rlwe.DefaultSigma, Gamma: gamma, H: 1 + r.Intn(1<<uint(logN))})
			params := fp.Parameters
			R := params.RingQ()
			kg := frlwe.NewKeyGenerator(fp)
			sk, _ := kg.GenKeyPair()
			ks := frlwe.NewKeySwitcher(fp)
			lvl := nq - 1
			if gamma > 0 && r.Intn(2) == 0 {
				lvl = r.Intn(nq)
			}
			a := uniform(r, R, nq-1)
			c0, c1 := R.NewPoly(), R.NewPoly()
			in := In("logN=%d Q=%#x P=%#x T=%#x gamma=%d level=%d a=%v", logN, q, p, T, gamma, lvl, a.Coeffs[:lvl+1])
			if r.Intn(2) == 0 {
				rlk := kg.GenRelinKey(sk)
				ks.SwitchKey(lvl, a, rlk.Value[0], rlk.Value[1], c0, c1)
				s := sk.Value.Q.CopyNew()
				R.MulCoeffsMontgomery(s, sk.Value.Q, s)
				return in, checkSwitched(params, lvl, a, c0, c1, false, s, sk.Value.Q)
			}
			rot := 1 + r.Intn(params.N()/2-1)
			rtk := kg.GenRotKey(rot, sk)
			ks.SwitchKey(lvl, a, rtk.Value[0], rtk.Value[1], c0, c1)
			out := R.NewPoly()
			R.PermuteNTT(sk.Value.Q, params.GaloisElementForColumnRotationBy(-rot), out)
			if rtk.Rotidx != uint64(rot) {
				return in, fmt.Sprintf("rotation key index %d for rotation %d", rtk.Rotidx, rot)
			}
			return in, checkSwitched(params, lvl, a, c0, c1, false, sk.Value.Q, out)
		})
	})
}
