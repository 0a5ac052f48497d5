package driver

import (
	"fmt"
	"math/big"
	"math/bits"
	"math/rand"
	"reflect"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func isPrimeBig(x uint64) bool { return bu(x).ProbablyPrime(20) }

// wantPrimes enumerates 2^L+1+m, 2^L+1-m, 2^L+1+2m, ... (only downwards for L = 61).
func wantPrimes(logQ, m, n int) []uint64 {
	var out []uint64
	top := uint64(1)<<uint(logQ) + 1
	up, down := top, top
	for len(out) < n {
		if logQ < 61 {
			up += uint64(m)
			if isPrimeBig(up) {
				out = append(out, up)
			}
		}
		if len(out) < n && down > uint64(m) {
			down -= uint64(m)
			if isPrimeBig(down) {
				out = append(out, down)
			}
		}
	}
	return out
}

func sameU(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func validSet(r *rand.Rand) (logN int, q, p []uint64, rt ring.Type) {
	logN = 4 + r.Intn(3)
	m := 2 << uint(logN)
	if r.Intn(3) == 0 {
		rt = ring.ConjugateInvariant
		m *= 2
	}
	all := genModuli(r, m, 9, 61)
	k := 1 + r.Intn(len(all))
	return logN, all[:k], all[k:], rt
}

func TestVerifC12(t *testing.T) {
	verifMain(t, "prime sizes 11..61 bits and root orders 32..1024; parameter sets of degree 16..64 with 1..9 moduli of both ring types, valid or broken in one place; rotations of any sign; distinct = distinct inputs", func(v *V) {
		v.Run("prime lists", 60, func(r *rand.Rand) (string, string) {
			m := 32 << uint(r.Intn(6))
			logQ := bits.Len(uint(m)) + 4 + r.Intn(61-bits.Len(uint(m))-3)
			if r.Intn(5) == 0 {
				logQ = 61
			}
			n := 1 + r.Intn(6)
			in := In("GenerateNTTPrimes(%d, %d, %d)", logQ, m, n)
			want := wantPrimes(logQ, m, n)
			if got := ring.GenerateNTTPrimes(logQ, m, n); !sameU(got, want) {
				return in, fmt.Sprintf("%d, want %d", got, want)
			}
			if logQ < 61 {
				if got := ring.GenerateNTTPrimesQ(logQ, m, n); !sameU(got, want) {
					return in, fmt.Sprintf("Q: %d, want %d", got, want)
				}
			}
			var down []uint64
			for x := uint64(1)<<uint(logQ) + 1 - uint64(m); len(down) < n && x > uint64(m); x -= uint64(m) {
				if isPrimeBig(x) {
					down = append(down, x)
				}
			}
			if len(down) == n {
				if got := ring.GenerateNTTPrimesP(logQ, m, n); !sameU(got, down) {
					return in, fmt.Sprintf("P: %d, want %d", got, down)
				}
			}
			return in, ""
		})
		v.Run("next and previous prime", 200, func(r *rand.Rand) (string, string) {
			m := 32 << uint(r.Intn(6))
			b := bits.Len(uint(m)) + 1 + r.Intn(61-bits.Len(uint(m)))
			if r.Intn(3) == 0 {
				b = 61
			}
			ps := nttPrimes(b, m, 3)
			if len(ps) == 0 {
				return In("none"), ""
			}
			q := ps[r.Intn(len(ps))]
			if r.Intn(4) == 0 {
				// the smallest primes = 1 mod m
				q = uint64(m) + 1
				for k := r.Intn(3); k > 0 || !isPrimeBig(q); q += uint64(m) {
					if isPrimeBig(q) {
						k--
					}
				}
			}
			in := In("q=%d NthRoot=%d", q, m)
			var next, prev uint64
			for x := q + uint64(m); bits.Len64(x) <= 61; x += uint64(m) {
				if isPrimeBig(x) {
					next = x
					break
				}
			}
			for x := q; x > uint64(m); {
				x -= uint64(m)
				if isPrimeBig(x) {
					prev = x
					break
				}
			}
			got, err := ring.NextNTTPrime(q, m)
			if (err == nil) != (next != 0) || err == nil && got != next {
				return in, fmt.Sprintf("NextNTTPrime = %d, %v, want %d", got, err, next)
			}
			got, err = ring.PreviousNTTPrime(q, m)
			if (err == nil) != (prev != 0) || err == nil && got != prev {
				return in, fmt.Sprintf("PreviousNTTPrime = %d, %v, want %d", got, err, prev)
			}
			x := edge64(r)
			if r.Intn(3) == 0 {
				x = q
			}
			if ring.IsPrime(x) != isPrimeBig(x) {
				return in, fmt.Sprintf("IsPrime(%d) = %v", x, ring.IsPrime(x))
			}
			return in, ""
		})
		v.Run("moduli chains", 60, func(r *rand.Rand) (string, string) {
			logN := 4 + r.Intn(5)
			logQ, logP := make([]int, 1+r.Intn(5)), make([]int, r.Intn(4))
			ok := true
			size := func(max int) int {
				switch r.Intn(12) {
				case 0:
					ok = false
					return max + 1 + r.Intn(3)
				case 1:
					if r.Intn(3) == 0 {
						ok = false
						return -r.Intn(2)
					}
				case 2, 3:
					return max
				}
				return 20 + 10*r.Intn(5)
			}
			for i := range logQ {
				logQ[i] = size(60)
			}
			for i := range logP {
				logP[i] = size(61)
			}
			in := In("logN=%d logQ=%d logP=%d", logN, logQ, logP)
			q, p, err := rlwe.GenModuli(logN, logQ, logP)
			if (err == nil) != ok {
				return in, fmt.Sprintf("error %v", err)
			}
			if !ok {
				return in, ""
			}
			cnt := map[int]int{}
			for _, l := range append(append([]int{}, logQ...), logP...) {
				cnt[l]++
			}
			lists := map[int][]uint64{}
			for l, n := range cnt {
				lists[l] = wantPrimes(l, 2<<uint(logN), n)
			}
			var want []uint64
			for _, l := range append(append([]int{}, logQ...), logP...) {
				want = append(want, lists[l][0])
				lists[l] = lists[l][1:]
			}
			if len(q) != len(logQ) || !sameU(append(append([]uint64{}, q...), p...), want) {
				return in, fmt.Sprintf("Q=%d P=%d, want %d", q, p, want)
			}
			if r.Intn(2) == 0 && len(logP) > 0 {
				lit := rlwe.ParametersLiteral{LogN: logN, LogQ: logQ, LogP: logP}
				if r.Intn(2) == 0 {
					lit.RingType = ring.ConjugateInvariant
				}
				params, err := rlwe.NewParametersFromLiteral(lit)
				ml := logN
				if lit.RingType == ring.ConjugateInvariant {
					ml++
				}
				q, p, e2 := rlwe.GenModuli(ml, logQ, logP)
				if err != nil || e2 != nil || !sameU(params.Q(), q) || !sameU(params.P(), p) || params.HammingWeight() != 1<<uint(logN-1) || params.Sigma() != rlwe.DefaultSigma || params.RingType() != lit.RingType {
					return in, fmt.Sprintf("literal: %v %v, %d %d h=%d sigma=%v", err, e2, params.Q(), params.P(), params.HammingWeight(), params.Sigma())
				}
			}
			return in, ""
		})
		v.Run("validation", 400, func(r *rand.Rand) (string, string) {
			logN, q, p, rt := validSet(r)
			q, p = append([]uint64{}, q...), append([]uint64{}, p...)
			m := uint64(2) << uint(logN)
			if rt == ring.ConjugateInvariant {
				m *= 2
			}
			ok := true
			side := &q
			if len(p) > 0 && r.Intn(2) == 0 {
				side = &p
			}
			i := r.Intn(len(*side))
			switch r.Intn(14) {
			case 0:
				(*side)[i] += 2 // not 1 mod the root order
				ok = false
			case 1:
				(*side)[i] = (*side)[i]*m + 1
				for isPrimeBig((*side)[i]) || (*side)[i]>>61 != 0 {
					(*side)[i] = (r.Uint64()>>5)/m*m + 1
				}
				ok = false
			case 2: // 62, 63 or 64 bits
				(*side)[i] = nttPrimes(62+r.Intn(2), int(m), 1)[0]
				ok = false
			case 3:
				*side = append(*side, (*side)[i])
				ok = false
			case 4:
				q = nil
				ok = false
			case 5:
				logN = []int{-1, 0, 3, 18, 19, 64}[r.Intn(6)]
				ok = false
			case 6: // prime, 1 mod N but not mod the root order
				(*side)[i] = m/2 + 1
				for !isPrimeBig((*side)[i]) {
					(*side)[i] += m
				}
				ok = false
			case 7:
				rt = ring.Type(2 + r.Intn(3))
				ok = false
			case 8:
				for len(*side) <= rlwe.MaxModuliCount {
					*side = append(*side, (*side)[0])
				}
				ok = false
			}
			h, sigma := r.Intn(1<<4), float64(r.Intn(8))
			in := In("logN=%d Q=%d P=%d h=%d sigma=%v type=%d", logN, q, p, h, sigma, rt)
			params, err := rlwe.NewParameters(logN, q, p, h, sigma, rt)
			if (err == nil) != ok {
				return in, fmt.Sprintf("error %v", err)
			}
			if !ok {
				if !reflect.DeepEqual(params, rlwe.Parameters{}) {
					return in, "an error, and parameters that are not empty"
				}
				return in, ""
			}
			R := params.RingQ()
			if params.LogN() != logN || params.N() != 1<<uint(logN) || R.N != params.N() || R.NthRoot != m || params.HammingWeight() != h || params.Sigma() != sigma || params.RingType() != rt || R.Type() != rt || !sameU(R.Modulus, q) {
				return in, "the parameters are not those given"
			}
			if !sameU(params.Q(), q) || !sameU(params.P(), p) || !sameU(params.QP(), append(append([]uint64{}, q...), p...)) {
				return in, "Q, P or QP"
			}
			if len(p) > 0 && (!sameU(params.RingP().Modulus, p) || params.RingP().NthRoot != m || params.RingP().N != R.N || params.RingQP().RingQ != R || params.RingQP().RingP != params.RingP()) {
				return in, "RingP"
			}
			if len(p) == 0 && params.RingP() != nil {
				return in, "RingP is not nil"
			}
			beta := 1
			if len(p) > 0 {
				beta = (len(q) + len(p) - 1) / len(p)
			}
			if params.QCount() != len(q) || params.PCount() != len(p) || params.QPCount() != len(q)+len(p) || params.MaxLevel() != len(q)-1 || params.Alpha() != len(p) || params.Beta() != beta {
				return in, fmt.Sprintf("counts: %d %d %d %d %d %d", params.QCount(), params.PCount(), params.QPCount(), params.MaxLevel(), params.Alpha(), params.Beta())
			}
			Q, P := prodBig(q), prodBig(p)
			QP := new(big.Int).Mul(Q, P)
			if params.QBigInt().Cmp(Q) != 0 || params.PBigInt().Cmp(P) != 0 || params.QPBigInt().Cmp(QP) != 0 || params.LogQ() != Q.BitLen() || params.LogP() != P.BitLen() || params.LogQP() != QP.BitLen() {
				return in, "products of the moduli"
			}
			for l := range q {
				if params.QiFloat64(l) != float64(q[l]) {
					return in, fmt.Sprintf("QiFloat64(%d)", l)
				}
				if b := margin(params.QiOverflowMargin(l), q[:l+1]); b != "" {
					return in, fmt.Sprintf("QiOverflowMargin(%d): %s", l, b)
				}
			}
			for l := range p {
				if b := margin(params.PiOverflowMargin(l), p[:l+1]); b != "" {
					return in, fmt.Sprintf("PiOverflowMargin(%d): %s", l, b)
				}
			}
			// the accessors give copies
			params.Q()[0] = 0
			params.QP()[0] = 0
			q[0]++
			if params.Q()[0] != q[0]-1 || R.Modulus[0] != q[0]-1 {
				return in, "the parameters share memory with their users"
			}
			return in, ""
		})
		v.Run("copies and equality", 100, func(r *rand.Rand) (string, string) {
			logN, q, p, rt := validSet(r)
			a, err := rlwe.NewParameters(logN, q, p, 5, 3.2, rt)
			if err != nil {
				return In("invalid"), err.Error()
			}
			in := In("logN=%d Q=%d P=%d type=%d", logN, q, p, rt)
			b := a.CopyNew()
			if !a.Equals(b) || !b.Equals(a) || b.RingQ() == nil || !sameU(b.RingQ().Modulus, q) || b.RingQ() == a.RingQ() || (len(p) > 0) != (b.RingP() != nil) {
				return in, "the copy differs"
			}
			logN2, h2, s2 := logN, 5, 3.2
			q2, p2 := append([]uint64{}, q...), append([]uint64{}, p...)
			mod := r.Intn(5)
			switch mod {
			case 0:
				h2 = 6
			case 1:
				s2 = 3.3
			case 2:
				q2 = append(q2, nttPrimes(57, 4<<uint(logN+1), 1)[0])
			case 3:
				p2 = append(p2, nttPrimes(58, 4<<uint(logN+1), 1)[0])
			case 4:
				q2[0], p2 = nttPrimes(56, 4<<uint(logN+1), 1)[0], p2
			}
			c, err := rlwe.NewParameters(logN2, q2, p2, h2, s2, rt)
			if err != nil {
				return in, ""
			}
			if c.Equals(a) || a.Equals(c) {
				return in, fmt.Sprintf("equal to other parameters (change %d)", mod)
			}
			s, err := a.StandardParameters()
			if err != nil {
				return in, err.Error()
			}
			want := logN
			if rt == ring.ConjugateInvariant {
				want++
			}
			if s.LogN() != want || s.RingType() != ring.Standard || s.RingQ().N != 1<<uint(want) || s.RingQ().Type() != ring.Standard || !sameU(s.Q(), q) || !sameU(s.P(), p) || a.LogN() != logN || a.RingType() != rt || a.RingQ().Type() != rt {
				return in, "StandardParameters"
			}
			return in, ""
		})
		v.Run("Galois elements", 200, func(r *rand.Rand) (string, string) {
			logN, q, p, rt := validSet(r)
			params, err := rlwe.NewParameters(logN, q[:1], p[:len(p)*0], 5, 3.2, rt)
			if err != nil {
				return In("invalid"), err.Error()
			}
			m := int64(2) << uint(logN)
			if rt == ring.ConjugateInvariant {
				m *= 2
			}
			M := big.NewInt(m)
			k := r.Intn(64*int(m)) - 32*int(m)
			if r.Intn(8) == 0 {
				k = int(r.Uint64())
			}
			in := In("logN=%d type=%d k=%d", logN, rt, k)
			ord := m / 4 // order of 5
			e := big.NewInt(((int64(k) % ord) + ord) % ord)
			want := new(big.Int).Exp(big.NewInt(5), e, M).Uint64()
			if g := params.GaloisElementForColumnRotationBy(k); g != want {
				return in, fmt.Sprintf("Galois element %d, want %d", g, want)
			}
			g := uint64(r.Int63n(m/2))*2 + 1
			if x := params.InverseGaloisElement(g); new(big.Int).Mod(new(big.Int).Mul(bu(x), bu(g)), M).Cmp(big.NewInt(1)) != 0 || x >= uint64(m) {
				return in, fmt.Sprintf("inverse of %d is %d", g, x)
			}
			els := params.GaloisElementsForRowInnerSum()
			var w []uint64
			for i := 0; i < logN-1; i++ {
				w = append(w, new(big.Int).Exp(big.NewInt(5), big.NewInt(1<<uint(i)), M).Uint64())
			}
			if rt == ring.Standard {
				w = append(w, uint64(m)-1)
				if params.GaloisElementForRowRotation() != uint64(m)-1 {
					return in, "row rotation"
				}
			} else {
				w = append(w, new(big.Int).Exp(big.NewInt(5), big.NewInt(1<<uint(logN-1)), M).Uint64())
			}
			if !sameU(els, w) {
				return in, fmt.Sprintf("inner sum elements %d, want %d", els, w)
			}
			return in, ""
		})
	})
}

// margin checks that m multiples of the largest modulus fit in 64 bits, and m+1 do not
// (up to the rounding of the 53-bit quotient).
func margin(m int, q []uint64) string {
	max := uint64(0)
	for _, x := range q {
		if x > max {
			max = x
		}
	}
	slop := big.NewInt(1 << 13)
	lo := new(big.Int).Mul(big.NewInt(int64(m)), bu(max))
	hi := new(big.Int).Add(lo, bu(max))
	lo.Sub(lo, slop)
	hi.Add(hi, slop)
	if m < 0 || lo.Cmp(bigR64) > 0 || hi.Cmp(bigR64) <= 0 {
		return fmt.Sprintf("%d for the largest modulus %d", m, max)
	}
	return ""
}
