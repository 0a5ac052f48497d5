package driver

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"math/rand"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

const noise = 19 // int(6*3.2)

func encParams(r *rand.Rand, withP bool) (rlwe.Parameters, string) {
	logN := 4 + r.Intn(3)
	m := 2 << uint(logN)
	sizes := []int{25, 30, 36, 45, 55, 60, 61}
	bq, bp := sizes[r.Intn(len(sizes))], sizes[r.Intn(len(sizes))]
	nq, np := 1+r.Intn(5), 1+r.Intn(2)
	var q, p []uint64
	if bq == bp {
		ps := nttPrimes(bq, m, nq+np)
		q, p = ps[:nq], ps[nq:]
	} else {
		q, p = nttPrimes(bq, m, nq), nttPrimes(bp, m, np)
	}
	if r.Intn(2) == 0 {
		q = append(append([]uint64{}, q...), nttPrimes(bq-2, m, 1)...)
	}
	seen := map[uint64]bool{}
	uniq := func(a []uint64) (b []uint64) {
		for _, x := range a {
			if !seen[x] {
				seen[x] = true
				b = append(b, x)
			}
		}
		return
	}
	q, p = uniq(q), uniq(p)
	if !withP || len(p) == 0 {
		p = []uint64{}
	}
	params, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: q, P: p, Sigma: rlwe.DefaultSigma, H: 1 + r.Intn(1<<uint(logN))})
	if err != nil {
		panic(err)
	}
	return params, fmt.Sprintf("logN=%d Q=%#x P=%#x H=%d", logN, q, p, params.HammingWeight())
}

// negacyclic product modulo q (schoolbook)
func negMul(a, b []uint64, q uint64) []uint64 {
	n := len(a)
	out := make([]uint64, n)
	for i, x := range a {
		if x == 0 {
			continue
		}
		for j, y := range b {
			z := mulModBig(x, y, q)
			k := i + j
			if k >= n {
				k -= n
				z = (q - z) % q
			}
			out[k] = addMod(out[k], z, q)
		}
	}
	return out
}

func addMod(a, b, q uint64) uint64 {
	s := a + b
	if s < a || s >= q {
		s -= q
	}
	return s
}

// the secret key modulo each modulus in the coefficient domain
func plainKey(params rlwe.Parameters, sk *rlwe.SecretKey) *ring.Poly {
	R := params.RingQ()
	s := clonePoly(sk.Value.Q)
	R.InvMForm(s, s)
	R.InvNTT(s, s)
	return s
}

// rows of a polynomial in the coefficient domain, reduced
func inCoeffs(R *ring.Ring, p *ring.Poly, ntt bool) [][]uint64 {
	t := clonePoly(p)
	lvl := len(t.Coeffs) - 1
	if ntt {
		R.InvNTTLvl(lvl, t, t)
	}
	for i := range t.Coeffs {
		for k := range t.Coeffs[i] {
			t.Coeffs[i][k] %= R.Modulus[i]
		}
	}
	return t.Coeffs
}

// sum of ct[i]*s^i, row by row
func phase(R *ring.Ring, ct []*ring.Poly, s *ring.Poly, lvl int, ntt bool) [][]uint64 {
	var acc [][]uint64
	for i := len(ct) - 1; i >= 0; i-- {
		c := inCoeffs(R, &ring.Poly{Coeffs: ct[i].Coeffs[:lvl+1]}, ntt)
		if acc == nil {
			acc = c
			continue
		}
		for j := 0; j <= lvl; j++ {
			acc[j] = negMul(acc[j], s.Coeffs[j], R.Modulus[j])
			for k := range acc[j] {
				acc[j][k] = addMod(acc[j][k], c[j][k], R.Modulus[j])
			}
		}
	}
	return acc
}

// the difference of two row-wise residues as centred integers
func centred(R *ring.Ring, a, b [][]uint64, lvl int) []*big.Int {
	d := R.NewPolyLvl(lvl)
	for j := 0; j <= lvl; j++ {
		q := R.Modulus[j]
		for k := range d.Coeffs[j] {
			d.Coeffs[j][k] = addMod(a[j][k], (q-b[j][k]%q)%q, q)
		}
	}
	M := prodBig(R.Modulus[:lvl+1])
	h := new(big.Int).Rsh(M, 1)
	out := make([]*big.Int, R.N)
	for k := range out {
		z := crtBig(d, lvl, k, R.Modulus)
		if z.Cmp(h) > 0 {
			z.Sub(z, M)
		}
		out[k] = z
	}
	return out
}

func randRows(r *rand.Rand, R *ring.Ring, lvl int) *ring.Poly {
	p := R.NewPolyLvl(lvl)
	for i := range p.Coeffs {
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = residue(r, R.Modulus[i])
		}
	}
	return p
}

func rowsEqual(a, b [][]uint64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d rows, want %d", len(a), len(b))
	}
	for i := range a {
		for k := range a[i] {
			if a[i][k] != b[i][k] {
				return fmt.Sprintf("row %d coefficient %d is %d, want %d", i, k, a[i][k], b[i][k])
			}
		}
	}
	return ""
}

func reduced(R *ring.Ring, what string, p *ring.Poly) string {
	for i := range p.Coeffs {
		for k, x := range p.Coeffs[i] {
			if x > R.Modulus[i] {
				return fmt.Sprintf("%s: row %d coefficient %d = %d is not reduced modulo %d", what, i, k, x, R.Modulus[i])
			}
		}
	}
	return ""
}

func TestVerifC16(t *testing.T) {
	verifMain(t, "degree 16..64, 1..6 moduli of 23..61 bits with and without P, every pair of levels, both domains of plaintext and ciphertext, dirty outputs, ternary keys of any weight, ciphertext degrees 0..16; schoolbook products modulo each prime; noise within its worst case; distinct = distinct inputs", func(v *V) {
		v.Run("encryption", 160, func(r *rand.Rand) (string, string) {
			params, in := encParams(r, r.Intn(3) > 0)
			R := params.RingQ()
			max := params.MaxLevel()
			lp, lc := max, max
			if r.Intn(2) == 0 {
				lp, lc = r.Intn(max+1), r.Intn(max+1)
			}
			lvl := lp
			if lc < lvl {
				lvl = lc
			}
			kg := rlwe.NewKeyGenerator(params)
			sk, pk := kg.GenKeyPair()
			usePk := r.Intn(2) == 0
			crp := !usePk && r.Intn(3) == 0
			m := randRows(r, R, lp)
			pt := rlwe.NewPlaintext(params, lp)
			pt.Value.Coeffs = clonePoly(m).Coeffs
			pt.Value.IsNTT = r.Intn(2) == 0
			ct := rlwe.NewCiphertext(params, 1, lc)
			cn := r.Intn(2) == 0
			ct.Value[0].IsNTT = cn
			ct.Value[1].IsNTT = r.Intn(2) == 0
			for _, p := range ct.Value { // what the receiver held before is irrelevant
				p.Coeffs = randRows(r, R, lc).Coeffs
			}
			how := r.Intn(4)
			in = In("%s pk=%v crp=%v plaintext level %d NTT=%v ciphertext level %d NTT=%v encryptor=%d m=%v", in, usePk, crp, lp, pt.Value.IsNTT, lc, cn, how, m.Coeffs)
			var key interface{} = sk
			if usePk {
				key = pk
			}
			var enc rlwe.Encryptor
			switch how {
			case 1:
				enc = rlwe.NewEncryptor(params, key).ShallowCopy()
			case 2:
				sk2, pk2 := kg.GenKeyPair()
				var other interface{} = sk2
				if r.Intn(2) == 0 {
					other = pk2
				}
				enc = rlwe.NewEncryptor(params, other).WithKey(key)
			default:
				enc = rlwe.NewEncryptor(params, key)
			}
			if how == 3 { // used before
				t2 := rlwe.NewCiphertextNTT(params, 1, max)
				enc.Encrypt(rlwe.NewPlaintext(params, r.Intn(max+1)), t2)
			}
			skBefore := clonePoly(sk.Value.Q)
			var a *ring.Poly
			if crp {
				a = randRows(r, R, lc)
				keep := clonePoly(a)
				enc.EncryptFromCRP(pt, a, ct)
				if d := samePoly(a, keep); d != "" {
					return in, "the common polynomial changed: " + d
				}
			} else {
				enc.Encrypt(pt, ct)
			}
			if d := samePoly(sk.Value.Q, skBefore); d != "" {
				return in, "the key changed: " + d
			}
			if d := rowsEqual(pt.Value.Coeffs, m.Coeffs); d != "" {
				return in, "the plaintext changed: " + d
			}
			if ct.Degree() != 1 || len(ct.Value[0].Coeffs) != lvl+1 || len(ct.Value[1].Coeffs) != lvl+1 {
				return in, fmt.Sprintf("ciphertext has %d and %d rows, want %d", len(ct.Value[0].Coeffs), len(ct.Value[1].Coeffs), lvl+1)
			}
			if ct.Value[0].IsNTT != cn || ct.Value[1].IsNTT != cn {
				return in, fmt.Sprintf("NTT flags %v %v, want %v", ct.Value[0].IsNTT, ct.Value[1].IsNTT, cn)
			}
			for i, p := range ct.Value {
				if d := reduced(R, fmt.Sprintf("ciphertext part %d", i), p); d != "" {
					return in, d
				}
			}
			if crp {
				want := clonePoly(&ring.Poly{Coeffs: a.Coeffs[:lvl+1]})
				if !cn {
					R.InvNTTLvl(lvl, want, want)
				}
				if d := rowsEqual(ct.Value[1].Coeffs, want.Coeffs); d != "" {
					return in, "second part is not the common polynomial: " + d
				}
			}
			s := plainKey(params, sk)
			ph := phase(R, ct.Value, s, lvl, cn)
			mc := inCoeffs(R, &ring.Poly{Coeffs: m.Coeffs[:lvl+1]}, pt.Value.IsNTT)
			e := centred(R, ph, mc, lvl)
			// worst case of the noise
			H := params.HammingWeight()
			B := int64(noise + 1)
			if usePk {
				B = int64((noise + 1) * (2*H + 1))
				if params.PCount() > 0 {
					p0 := float64(params.P()[0])
					B = int64(float64(B)/p0) + int64(2*(H+1)) + 1
				}
			}
			any := false
			for k, x := range e {
				if x.CmpAbs(big.NewInt(B)) > 0 {
					return in, fmt.Sprintf("noise coefficient %d is %s, more than %d", k, x, B)
				}
				any = any || x.Sign() != 0
			}
			if !any && !(usePk && params.PCount() > 0) {
				return in, "no noise at all"
			}
			// what decryption returns is exactly the phase
			dec := rlwe.NewDecryptor(params, sk)
			switch r.Intn(3) {
			case 1:
				dec = dec.ShallowCopy()
			case 2:
				dec = rlwe.NewDecryptor(params, kg.GenSecretKey()).WithKey(sk)
			}
			out := rlwe.NewPlaintext(params, lvl)
			out.Value.IsNTT = r.Intn(2) == 0
			dec.Decrypt(ct, out)
			if d := rowsEqual(inCoeffs(R, out.Value, out.Value.IsNTT), ph); d != "" {
				return in, "decryption: " + d
			}
			return in, ""
		})
		v.Run("two encryptions differ", 30, func(r *rand.Rand) (string, string) {
			params, in := encParams(r, r.Intn(2) == 0)
			R := params.RingQ()
			kg := rlwe.NewKeyGenerator(params)
			sk, pk := kg.GenKeyPair()
			var key interface{} = sk
			usePk := r.Intn(2) == 0
			if usePk {
				key = pk
			}
			cn := r.Intn(2) == 0
			in = In("%s pk=%v NTT=%v run=%d", in, usePk, cn, r.Int63())
			enc := rlwe.NewEncryptor(params, key)
			e2 := enc
			if r.Intn(2) == 0 {
				e2 = enc.ShallowCopy()
			}
			var c [2]*rlwe.Ciphertext
			for i, e := range []rlwe.Encryptor{enc, e2} {
				c[i] = rlwe.NewCiphertext(params, 1, params.MaxLevel())
				c[i].Value[0].IsNTT = cn
				e.Encrypt(rlwe.NewPlaintext(params, params.MaxLevel()), c[i])
			}
			for i := 0; i < 2; i++ {
				for j := range R.Modulus {
					same := 0
					for k := range c[0].Value[i].Coeffs[j] {
						if c[0].Value[i].Coeffs[j][k] == c[1].Value[i].Coeffs[j][k] {
							same++
						}
					}
					if same > R.N/4 {
						return in, fmt.Sprintf("part %d row %d of two encryptions of zero agree in %d of %d coefficients", i, j, same, R.N)
					}
				}
			}
			if !usePk {
				return in, ""
			}
			return in, ""
		})
		v.Run("noise of secret-key encryption", 12, func(r *rand.Rand) (string, string) {
			params, in := encParams(r, false)
			R := params.RingQ()
			sk := rlwe.NewKeyGenerator(params).GenSecretKey()
			enc := rlwe.NewEncryptor(params, sk)
			cn := r.Intn(2) == 0
			in = In("%s NTT=%v run=%d", in, cn, r.Int63())
			s := plainKey(params, sk)
			sum, n := 0.0, 0
			for n < 4096 {
				ct := rlwe.NewCiphertext(params, 1, 0)
				ct.Value[0].IsNTT = cn
				enc.Encrypt(rlwe.NewPlaintext(params, 0), ct)
				ph := phase(R, ct.Value, s, 0, cn)
				zero := [][]uint64{make([]uint64, R.N)}
				for _, x := range centred(R, ph, zero, 0) {
					f, _ := new(big.Float).SetInt(x).Float64()
					sum += f * f
					n++
				}
			}
			if sd := math.Sqrt(sum / float64(n)); sd < 2.6 || sd > 3.8 {
				return in, fmt.Sprintf("deviation %.3f over %d coefficients, want about 3.2", sd, n)
			}
			return in, ""
		})
		v.Run("decryption of any degree", 160, func(r *rand.Rand) (string, string) {
			params, in := encParams(r, r.Intn(2) == 0)
			R := params.RingQ()
			max := params.MaxLevel()
			deg := r.Intn(17)
			if r.Intn(2) == 0 {
				deg = []int{0, 1, 2, 6, 7, 8, 15}[r.Intn(7)]
			}
			lc, lp := r.Intn(max+1), r.Intn(max+1)
			lvl := lc
			if lp < lvl {
				lvl = lp
			}
			cn, pn := r.Intn(2) == 0, r.Intn(2) == 0
			ct := rlwe.NewCiphertext(params, deg, lc)
			for _, p := range ct.Value {
				p.Coeffs = randRows(r, R, lc).Coeffs
				p.IsNTT = cn
			}
			keep := make([]*ring.Poly, deg+1)
			for i := range keep {
				keep[i] = clonePoly(ct.Value[i])
			}
			out := rlwe.NewPlaintext(params, lp)
			out.Value.Coeffs = randRows(r, R, lp).Coeffs
			out.Value.IsNTT = pn
			kg := rlwe.NewKeyGenerator(params)
			sk := kg.GenSecretKey()
			in = In("%s degree %d ciphertext level %d NTT=%v plaintext level %d NTT=%v c0=%v", in, deg, lc, cn, lp, pn, keep[0].Coeffs)
			dec := rlwe.NewDecryptor(params, sk)
			if r.Intn(3) == 0 { // used before
				dec.Decrypt(ct, rlwe.NewPlaintext(params, max))
			}
			dec.Decrypt(ct, out)
			for i := range keep {
				if d := samePoly(ct.Value[i], keep[i]); d != "" {
					return in, fmt.Sprintf("ciphertext part %d changed: %s", i, d)
				}
			}
			if len(out.Value.Coeffs) != lvl+1 || out.Value.IsNTT != pn {
				return in, fmt.Sprintf("plaintext has %d rows NTT=%v, want %d NTT=%v", len(out.Value.Coeffs), out.Value.IsNTT, lvl+1, pn)
			}
			for i := range out.Value.Coeffs {
				for k, x := range out.Value.Coeffs[i] {
					if x >= R.Modulus[i] {
						return in, fmt.Sprintf("row %d coefficient %d = %d is not reduced modulo %d", i, k, x, R.Modulus[i])
					}
				}
			}
			want := phase(R, keep, plainKey(params, sk), lvl, cn)
			if d := rowsEqual(inCoeffs(R, out.Value, pn), want); d != "" {
				return in, d
			}
			return in, ""
		})
		v.Run("ckks wrappers", 40, func(r *rand.Rand) (string, string) {
			rp, in := encParams(r, r.Intn(2) == 0)
			params, err := ckks.NewParameters(rp, rp.LogN()-1, 1<<20)
			if err != nil {
				return in, err.Error()
			}
			R := params.RingQ()
			max := params.MaxLevel()
			kg := ckks.NewKeyGenerator(params)
			sk, pk := kg.GenKeyPair()
			var key interface{} = sk
			usePk := r.Intn(2) == 0
			if usePk {
				key = pk
			}
			lvl := r.Intn(max + 1)
			scale := math.Exp2(float64(10 + r.Intn(60)))
			pt := ckks.NewPlaintext(params, lvl, scale)
			m := randRows(r, R, lvl)
			pt.Value.Coeffs = clonePoly(m).Coeffs
			in = In("%s ckks pk=%v level %d scale %g m=%v", in, usePk, lvl, scale, m.Coeffs)
			enc := ckks.NewEncryptor(params, key)
			var ct *ckks.Ciphertext
			if r.Intn(2) == 0 {
				ct = enc.EncryptNew(pt)
			} else {
				ct = ckks.NewCiphertext(params, 1, max, 1)
				enc.Encrypt(pt, ct)
			}
			dec := ckks.NewDecryptor(params, sk)
			out := dec.DecryptNew(ct)
			if r.Intn(2) == 0 {
				out = ckks.NewPlaintext(params, max, 1)
				dec.Decrypt(ct, out)
			}
			if ct.Scale != scale || out.Scale != scale || ct.Level() != lvl || out.Level() != lvl {
				return in, fmt.Sprintf("scales %g %g levels %d %d", ct.Scale, out.Scale, ct.Level(), out.Level())
			}
			e := centred(R, inCoeffs(R, out.Value, out.Value.IsNTT), inCoeffs(R, m, pt.Value.IsNTT), lvl)
			B := int64((noise + 1) * (2*params.HammingWeight() + 2))
			for k, x := range e {
				if x.CmpAbs(big.NewInt(B)) > 0 {
					return in, fmt.Sprintf("noise coefficient %d is %s, more than %d", k, x, B)
				}
			}
			return in, ""
		})
		v.Run("fckks messages", 25, func(r *rand.Rand) (string, string) {
			logN := 5 + r.Intn(3)
			m := 2 << uint(logN)
			ps := nttPrimes(50, m, 5)
			ts := nttPrimes(61, m, 6)
			params := fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: logN, LogSlots: logN - 1, Q: ps[:4], P: ps[4:], T: ts, DefaultScale: math.Exp2(35), H: 1 << uint(logN-1), Sigma: rlwe.DefaultSigma, Gamma: 1})
			in := fmt.Sprintf("logN=%d Q=%#x", logN, ps[:4])
			kg := fckks.NewKeyGenerator(params)
			sk, pk := kg.GenKeyPair()
			enc := fckks.NewEncryptor(params, pk)
			dec := fckks.NewDecryptor(params, sk)
			ev := ckks.NewEvaluator(params.Parameters, rlwe.EvaluationKey{})
			trace := ""
			for step := 0; step < 4; step++ {
				msg := fckks.NewMessage(params)
				for i := range msg.Value {
					msg.Value[i] = complex(r.Float64()*2-1, r.Float64()*2-1)
				}
				ct := enc.EncryptMsgNew(msg)
				want := append([]complex128{}, msg.Value...)
				drop := r.Intn(params.MaxLevel() + 1)
				big := r.Intn(2) == 0 && drop < params.MaxLevel()
				if big { // a larger scale needs more moduli
					ev.MultByConst(ct, 1<<20, ct)
					for i := range want {
						want[i] *= 1 << 20
					}
				}
				if drop > 0 {
					ev.DropLevel(ct, drop)
				}
				trace += fmt.Sprintf(" [level %d scale 2^%.0f big=%v]", ct.Level(), math.Log2(ct.Scale), big)
				got := dec.DecryptToMsgNew(ct)
				for i := range want {
					if d := cmplx.Abs(got.Value[i] - want[i]); d > 1e-3*math.Max(1, cmplx.Abs(want[i])) {
						return In("%s history%s", in, trace), fmt.Sprintf("slot %d decrypts to %v, want %v", i, got.Value[i], want[i])
					}
				}
			}
			return In("%s history%s run=%d", in, trace, r.Int63()), ""
		})
	})
}
