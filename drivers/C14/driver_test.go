package driver

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"testing"

	"fast-ksw/ring"
	"fast-ksw/utils"
)

// edgePRNG produces bytes such that 64-bit big-endian words often sit at the edges of the given moduli.
type edgePRNG struct {
	r    *rand.Rand
	q    []uint64
	tick uint64
}

func (p *edgePRNG) Clock(sum []byte) {
	p.tick++
	for i := 0; i+8 <= len(sum); i += 8 {
		q := p.q[p.r.Intn(len(p.q))]
		w := p.r.Uint64()
		switch p.r.Intn(6) {
		case 0:
			w = q
		case 1:
			w = q - 1
		case 2:
			w = q + 1
		case 3:
			w = 0
		case 4:
			w |= 0x8000000000000000
		}
		for k := 0; k < 8; k++ {
			sum[i+k] = byte(w >> uint(56-8*k))
		}
	}
	for i := len(sum) &^ 7; i < len(sum); i++ {
		sum[i] = byte(p.r.Intn(256))
	}
}
func (p *edgePRNG) GetClock() uint64                     { return p.tick }
func (p *edgePRNG) SetClock(sum []byte, n uint64) error { return nil }

func keyed(key []byte) utils.PRNG {
	p, err := utils.NewKeyedPRNG(key)
	if err != nil {
		panic(err)
	}
	return p
}

func newKey(r *rand.Rand) []byte {
	k := make([]byte, 1+r.Intn(64))
	r.Read(k)
	return k
}

// filled returns a polynomial whose words are all the given filler.
func filled(R *ring.Ring, rows int, w uint64) *ring.Poly {
	p := ring.NewPoly(R.N, rows)
	for i := range p.Coeffs {
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = w
		}
	}
	return p
}

func untouched(p *ring.Poly, from int, w uint64) string {
	for i := from; i < len(p.Coeffs); i++ {
		for k, c := range p.Coeffs[i] {
			if c != w {
				return fmt.Sprintf("row %d above the level changed at %d: %d", i, k, c)
			}
		}
	}
	return ""
}

// signedAll decodes a small-integer polynomial; every row must encode the same integer of absolute value at most b.
func signedAll(p *ring.Poly, lvl int, q []uint64, b int64, unmont bool) (out []int64, bad string) {
	for k := range p.Coeffs[0] {
		var first int64
		for i := 0; i <= lvl; i++ {
			c := p.Coeffs[i][k]
			if c > q[i] { // q itself stands for -0
				return nil, fmt.Sprintf("coefficient %d row %d = %d, modulus %d", k, i, c, q[i])
			}
			if unmont {
				inv := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 64), bu(q[i]))
				c = modBig(inv.Mul(inv, bu(c)), q[i])
			}
			var s int64
			switch {
			case c <= uint64(b):
				s = int64(c)
			case q[i]-c <= uint64(b):
				s = -int64(q[i] - c)
			default:
				return nil, fmt.Sprintf("coefficient %d row %d = %d is not within %d of 0 mod %d", k, i, c, b, q[i])
			}
			if i == 0 {
				first = s
			} else if s != first {
				return nil, fmt.Sprintf("coefficient %d: %d in row 0, %d in row %d", k, first, s, i)
			}
		}
		out = append(out, first)
	}
	return out, ""
}

func near(got, want, n float64, what string) string {
	if d := math.Abs(got - want); d > 7*math.Sqrt(n)/2+1 {
		return fmt.Sprintf("%s: %.0f, expected about %.0f of %.0f", what, got, want, n)
	}
	return ""
}

func TestVerifC14(t *testing.T) {
	verifMain(t, "rings of degree 16..1024 with 1..5 moduli of up to 61 bits, both ring types; random keys, edge-valued generators, levels, probabilities, weights, deviations and bounds; distinct = distinct inputs", func(v *V) {
		v.Run("uniform", 60, func(r *rand.Rand) (string, string) {
			R := genRing(r, 8, 5, 61)
			lvl := r.Intn(len(R.Modulus))
			in := In("UniformSampler N=%d q=%v lvl=%d", R.N, R.Modulus, lvl)
			var s *ring.UniformSampler
			edge := r.Intn(2) == 0
			key := newKey(r)
			if edge {
				s = ring.NewUniformSampler(&edgePRNG{r: r, q: R.Modulus}, R)
			} else {
				s = ring.NewUniformSampler(keyed(key), R)
			}
			w := r.Uint64()
			p := filled(R, len(R.Modulus), w)
			rows := lvl + 1
			how := r.Intn(4)
			switch how {
			case 0:
				s.ReadLvl(lvl, p)
			case 1:
				p = s.ReadLvlNew(lvl)
			case 2:
				s.Read(p)
				rows = len(R.Modulus)
			default:
				p = s.ReadNew()
				rows = len(R.Modulus)
			}
			if len(p.Coeffs) < rows {
				return in, fmt.Sprintf("%d rows, want %d", len(p.Coeffs), rows)
			}
			for i := 0; i < rows; i++ {
				big2, small, zero := 0, 0, 0
				for k, c := range p.Coeffs[i] {
					if c >= R.Modulus[i] {
						return in, fmt.Sprintf("row %d coefficient %d = %d", i, k, c)
					}
					if c > R.Modulus[i]/2 {
						big2++
					} else {
						small++
					}
					if c == 0 {
						zero++
					}
				}
				if !edge {
					if b := near(float64(big2), float64(R.N)/2, float64(R.N), "values above q/2"); b != "" {
						return in, fmt.Sprintf("row %d %s", i, b)
					}
					if zero > 3 && R.Modulus[i] > 1<<16 {
						return in, fmt.Sprintf("row %d has %d zeros", i, zero)
					}
				}
			}
			if b := untouched(p, rows, w); how == 0 && b != "" {
				return in, b
			}
			for i := 1; i < rows && !edge; i++ {
				same := 0
				for k := range p.Coeffs[i] {
					if p.Coeffs[i][k] == p.Coeffs[0][k] {
						same++
					}
				}
				if same > R.N/2 {
					return in, fmt.Sprintf("row %d repeats row 0", i)
				}
			}
			if !edge && how == 0 {
				s2 := ring.NewUniformSampler(keyed(key), R)
				if d := samePoly(s2.ReadLvlNew(lvl), &ring.Poly{Coeffs: p.Coeffs[:rows]}); d != "" {
					return in, "same key: " + d
				}
			}
			return in, ""
		})
		v.Run("ternary probability", 60, func(r *rand.Rand) (string, string) {
			R := genRing(r, 9, 4, 61)
			lvl := r.Intn(len(R.Modulus))
			prob := []float64{0.5, 1.0 / 3, 0.25, 0.9, 0.1}[r.Intn(5)]
			mont := r.Intn(2) == 0
			in := In("TernarySampler N=%d q=%v lvl=%d p=%v mont=%v", R.N, R.Modulus, lvl, prob, mont)
			key := newKey(r)
			s := ring.NewTernarySampler(keyed(key), R, prob, mont)
			w := r.Uint64()
			p := filled(R, len(R.Modulus), w)
			var zero, pos, n float64
			for round := 0; round < 3; round++ {
				if round == 1 && r.Intn(2) == 0 {
					p = s.ReadLvlNew(lvl)
				} else {
					s.ReadLvl(lvl, p)
				}
				e, b := signedAll(p, lvl, R.Modulus, 1, mont)
				if b != "" {
					return in, b
				}
				for _, x := range e {
					n++
					if x == 0 {
						zero++
					}
					if x > 0 {
						pos++
					}
				}
				if round == 0 {
					if d := samePoly(ring.NewTernarySampler(keyed(key), R, prob, mont).ReadLvlNew(lvl), &ring.Poly{Coeffs: p.Coeffs[:lvl+1]}); d != "" {
						return in, "same key: " + d
					}
					if b := untouched(p, lvl+1, w); b != "" {
						return in, b
					}
				}
			}
			if b := near(zero, prob*n, n, "zeros"); b != "" {
				return in, b
			}
			return in, near(pos, (n-zero)/2, n, "positive among non-zero")
		})
		v.Run("ternary weight", 80, func(r *rand.Rand) (string, string) {
			R := genRing(r, 8, 4, 61)
			lvl := r.Intn(len(R.Modulus))
			h := r.Intn(R.N + 1)
			if r.Intn(6) == 0 {
				h = R.N
			}
			mont := r.Intn(2) == 0
			in := In("TernarySamplerWithHammingWeight N=%d q=%v lvl=%d h=%d mont=%v", R.N, R.Modulus, lvl, h, mont)
			s := ring.NewTernarySamplerWithHammingWeight(keyed(newKey(r)), R, h, mont)
			w := r.Uint64()
			p := filled(R, len(R.Modulus), w)
			var tot, totPos float64
			pos := make([]int, R.N)
			for round := 0; round < 6; round++ {
				s.ReadLvl(lvl, p)
				e, b := signedAll(p, lvl, R.Modulus, 1, mont)
				if b != "" {
					return in, b
				}
				got := 0
				for k, x := range e {
					if x != 0 {
						got++
						tot++
						pos[k]++
					}
					if x > 0 {
						totPos++
					}
				}
				if got != h {
					return in, fmt.Sprintf("weight %d", got)
				}
			}
			if b := untouched(p, lvl+1, w); b != "" {
				return in, b
			}
			// the non-zero positions of independent draws are independent
			if h > 8 && R.N >= 64 && h < R.N/2 {
				hit := 0
				for _, c := range pos {
					if c > 0 {
						hit++
					}
				}
				if hit < h+h/4 {
					return in, fmt.Sprintf("six draws of weight %d use only %d positions", h, hit)
				}
			}
			return in, near(totPos, tot/2, tot, "positive among non-zero")
		})
		v.Run("gaussian", 60, func(r *rand.Rand) (string, string) {
			R := genRing(r, 8, 4, 61)
			for R.Modulus[0] < 4096 {
				R = genRing(r, 8, 4, 61)
			}
			lvl := r.Intn(len(R.Modulus))
			min := R.Modulus[0]
			for _, q := range R.Modulus {
				if q < min {
					min = q
				}
			}
			sigma := 0.5 + 20*r.Float64()
			bound := 1 + int(sigma*6)
			if r.Intn(3) == 0 {
				bound = 1 + int(sigma)
			}
			if uint64(bound) > min/2-1 {
				bound = int(min/2 - 1)
			}
			in := In("GaussianSampler N=%d q=%v lvl=%d sigma=%.3f bound=%d", R.N, R.Modulus, lvl, sigma, bound)
			key := newKey(r)
			mk := func() *ring.GaussianSampler { return ring.NewGaussianSampler(keyed(key), R, sigma, bound) }
			s := mk()
			w := r.Uint64()
			p := filled(R, len(R.Modulus), w)
			dist := r.Intn(3) == 0
			if dist {
				ring.NewGaussianSampler(keyed(key), R, 1, 1).ReadFromDistLvl(lvl, p, R, sigma, bound)
			} else {
				s.ReadLvl(lvl, p)
			}
			e, b := signedAll(p, lvl, R.Modulus, int64(bound), false)
			if b != "" {
				return in, b
			}
			if b := untouched(p, lvl+1, w); b != "" {
				return in, b
			}
			// adding a fresh error changes every coefficient by a common small integer
			a := genPoly(r, R, len(R.Modulus))
			before := clonePoly(a)
			s2 := mk()
			if dist {
				s2.ReadAndAddFromDistLvl(lvl, a, R, sigma, bound)
			} else {
				s2.ReadAndAddLvl(lvl, a)
			}
			diff := ring.NewPoly(R.N, lvl+1)
			for i := 0; i <= lvl; i++ {
				q := R.Modulus[i]
				for k := range diff.Coeffs[i] {
					if a.Coeffs[i][k] >= q {
						return in, fmt.Sprintf("ReadAndAdd: row %d coefficient %d = %d", i, k, a.Coeffs[i][k])
					}
					diff.Coeffs[i][k] = modBig(new(big.Int).Sub(bu(a.Coeffs[i][k]), bu(before.Coeffs[i][k])), q)
				}
			}
			e2, b := signedAll(diff, lvl, R.Modulus, int64(bound), false)
			if b != "" {
				return in, "ReadAndAdd: " + b
			}
			for i := lvl + 1; i < len(a.Coeffs); i++ {
				for k := range a.Coeffs[i] {
					if a.Coeffs[i][k] != before.Coeffs[i][k] {
						return in, fmt.Sprintf("ReadAndAdd: row %d above the level changed", i)
					}
				}
			}
			for _, f := range [][]int64{e, e2} {
				var sq, n float64
				neg, pos := 0.0, 0.0
				for _, x := range f {
					sq += float64(x * x)
					n++
					if x < 0 {
						neg++
					}
					if x > 0 {
						pos++
					}
				}
				if b := near(neg, pos, 4*n, "negative against positive"); b != "" {
					return in, b
				}
				if n >= 128 && float64(bound) >= 5*sigma && sigma > 1 {
					if sd := math.Sqrt(sq / n); sd < sigma*0.5 || sd > sigma*1.6 {
						return in, fmt.Sprintf("standard deviation %.2f", sd)
					}
				}
			}
			return in, ""
		})
		v.Run("generator", 60, func(r *rand.Rand) (string, string) {
			key := newKey(r)
			n := 1 + r.Intn(20)
			size := 1 + r.Intn(200)
			in := In("KeyedPRNG key=%x n=%d size=%d", key, n, size)
			a, b, c := keyed(key), keyed(key), keyed(append([]byte{byte(r.Intn(256)), 1}, key[:len(key)/2]...))
			x, y, z := make([]byte, size), make([]byte, size), make([]byte, size)
			for i := 0; i < n; i++ {
				if a.GetClock() != uint64(i) {
					return in, fmt.Sprintf("clock %d after %d reads", a.GetClock(), i)
				}
				a.Clock(x)
				c.Clock(z)
			}
			if err := b.SetClock(y, uint64(n)); err != nil {
				return in, err.Error()
			}
			if b.GetClock() != uint64(n) || string(x) != string(y) {
				return in, "SetClock differs from n reads"
			}
			a.Clock(x)
			b.Clock(y)
			c.Clock(z)
			if string(x) != string(y) {
				return in, "the generators diverge after SetClock"
			}
			if size >= 16 && string(x) == string(z) {
				return in, "different keys, same output"
			}
			if r.Intn(2) == 0 {
				at := a.GetClock()
				if a.SetClock(x, uint64(r.Intn(int(at)))) == nil {
					return in, "SetClock to a past state gives no error"
				}
				b.Clock(y)
				a.Clock(x)
				if a.GetClock() != at+1 || string(x) != string(y) {
					return in, "a refused SetClock changed the generator"
				}
			}
			return in, ""
		})
	})
}
