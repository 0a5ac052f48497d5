package driver

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/fckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

func evalParams(r *rand.Rand) (ckks.Parameters, string) {
	logN := 4 + r.Intn(3)
	m := 2 << uint(logN)
	sizes := []int{25, 30, 36, 45, 55, 60, 61}
	bq := sizes[r.Intn(len(sizes))]
	np := 1 + r.Intn(2)
	nq := 1 + r.Intn(6)
	ps := nttPrimes(bq, m, nq+np)
	q, p := append([]uint64{}, ps[:nq]...), append([]uint64{}, ps[nq:nq+np]...)
	if r.Intn(2) == 0 && bq > 40 { // one modulus of another size
		q = append(q, nttPrimes(bq-7, m, 1)[0])
	}
	rp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: q, P: p, Sigma: rlwe.DefaultSigma, H: 1 + r.Intn(1<<uint(logN))})
	if err != nil {
		panic(err)
	}
	params, err := ckks.NewParameters(rp, logN-1, math.Exp2(float64(bq-5)))
	if err != nil {
		panic(err)
	}
	return params, fmt.Sprintf("logN=%d Q=%#x P=%#x", logN, q, p)
}

func fill(r *rand.Rand, R *ring.Ring, p *ring.Poly) {
	for i := range p.Coeffs {
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = residue(r, R.Modulus[i])
		}
	}
}

func randCt(r *rand.Rand, params ckks.Parameters, deg, lvl int, scale float64) *ckks.Ciphertext {
	ct := ckks.NewCiphertext(params, deg, lvl, scale)
	for _, p := range ct.Value {
		fill(r, params.RingQ(), p)
	}
	return ct
}

// snapshot of an operand
type snap struct {
	v     []*ring.Poly
	scale float64
}

func take(op ckks.Operand) snap {
	s := snap{scale: op.ScalingFactor()}
	for _, p := range op.El().Value {
		s.v = append(s.v, clonePoly(p))
	}
	return s
}

func (s snap) same(op ckks.Operand) string {
	el := op.El()
	if len(el.Value) != len(s.v) || op.ScalingFactor() != s.scale {
		return fmt.Sprintf("degree %d scale %g, was degree %d scale %g", len(el.Value)-1, op.ScalingFactor(), len(s.v)-1, s.scale)
	}
	for i := range s.v {
		if d := samePoly(el.Value[i], s.v[i]); d != "" {
			return fmt.Sprintf("part %d: %s", i, d)
		}
	}
	return ""
}

func (s snap) at(i, j, k int) uint64 {
	if i >= len(s.v) {
		return 0
	}
	return s.v[i].Coeffs[j][k]
}

func kmod(k *big.Int, q uint64) uint64 { return modBig(k, q) }

// match: ct has the given degree, level and scale, and part i row j entry k equals want mod q; strict: and is reduced
func match(R *ring.Ring, ct *ckks.Ciphertext, deg, lvl int, scale float64, strict bool, want func(i, j, k int) uint64) string {
	if ct.Degree() != deg || ct.Level() != lvl {
		return fmt.Sprintf("degree %d level %d, want degree %d level %d", ct.Degree(), ct.Level(), deg, lvl)
	}
	if math.Abs(ct.Scale-scale) > 1e-9*math.Abs(scale) {
		return fmt.Sprintf("scale %g, want %g", ct.Scale, scale)
	}
	for i, p := range ct.Value {
		if len(p.Coeffs) != lvl+1 || !p.IsNTT {
			return fmt.Sprintf("part %d: %d rows NTT=%v, want %d rows in the NTT domain", i, len(p.Coeffs), p.IsNTT, lvl+1)
		}
		for j := 0; j <= lvl; j++ {
			q := R.Modulus[j]
			for k := 0; k < R.N; k++ {
				x := p.Coeffs[j][k]
				if w := want(i, j, k); x%q != w%q || (strict && x > q) {
					return fmt.Sprintf("part %d row %d entry %d is %d, want %d modulo %d", i, j, k, x, w%q, q)
				}
			}
		}
	}
	return ""
}

func call(what string, f func()) (bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("%s panics: %v", what, e)
		}
	}()
	f()
	return ""
}

func TestVerifC17(t *testing.T) {
	verifMain(t, "degree 16..64, 1..7 moduli of 23..61 bits, every combination of levels, degrees 0..2, plaintext and ciphertext operands, equal and different scales, results in place of either operand or elsewhere (dirty), constants of every accepted type; every part, row and entry against math/big; relinearization and rotations within the worst-case noise; distinct = distinct inputs", func(v *V) {
		v.Run("addition and subtraction", 250, func(r *rand.Rand) (string, string) {
			params, in := evalParams(r)
			R := params.RingQ()
			eval := ckks.NewEvaluator(params, rlwe.EvaluationKey{})
			max := params.MaxLevel()
			s0 := math.Exp2(float64(10 + r.Intn(20)))
			s1 := s0
			switch r.Intn(9) {
			case 0:
				s1 = s0 * float64(2+r.Intn(1000))
			case 1:
				s1 = s0 / float64(int(1)<<uint(1+r.Intn(9)))
			case 2:
				s1 = s0 * 1.25
			case 3, 5:
				s1 = s0 * (2.5 + r.Float64()*100)
			case 4, 6:
				s1 = s0 / (1.5 + r.Float64()*5)
			}
			d0, d1 := r.Intn(3), r.Intn(3)
			if d0+d1 == 0 {
				d0 = 1
			}
			l0, l1, lo := r.Intn(max+1), r.Intn(max+1), r.Intn(max+1)
			mk := func(d, l int, s float64) ckks.Operand {
				if d == 0 && r.Intn(2) == 0 {
					pt := ckks.NewPlaintext(params, l, s)
					fill(r, R, pt.Value)
					return pt
				}
				return randCt(r, params, d, l, s)
			}
			a, b := mk(d0, l0, s0), mk(d1, l1, s1)
			deg := d0
			if d1 > deg {
				deg = d1
			}
			var out *ckks.Ciphertext
			how := r.Intn(5)
			switch {
			case how == 0 && d0 == deg:
				out, _ = a.(*ckks.Ciphertext)
			case how == 1 && d1 == deg:
				out, _ = b.(*ckks.Ciphertext)
			case how == 2:
				b, s1, d1, l1 = a, s0, d0, l0
				deg = d0
				if d0 == 0 {
					return in, ""
				}
			}
			op := r.Intn(8)
			fresh := out == nil
			if fresh {
				out = randCt(r, params, deg+r.Intn(3-deg), lo, 3)
			}
			if op >= 4 { // New forms
				out = nil
			}
			sa, sb := take(a), take(b)
			outIsA, outIsB := out != nil && ckks.Operand(out) == a, out != nil && ckks.Operand(out) == b
			lvl := l0
			if l1 < lvl {
				lvl = l1
			}
			if out != nil && out.Level() < lvl {
				lvl = out.Level()
			}
			k0, k1 := big.NewInt(1), big.NewInt(1)
			if s0 > s1 {
				k1.SetInt64(int64(math.Floor(s0 / s1)))
			} else if s1 > s0 {
				k0.SetInt64(int64(math.Floor(s1 / s0)))
			}
			name := []string{"Add", "AddNoMod", "Sub", "SubNoMod", "AddNew", "AddNoModNew", "SubNew", "SubNoModNew"}[op]
			in = In("%s %s degrees %d,%d levels %d,%d scales %g,%g inplace %v,%v out level %d a=%v b=%v", in, name, d0, d1, l0, l1, s0, s1, outIsA, outIsB, lo, sa.v[0].Coeffs, sb.v[0].Coeffs)
			if bad := call(name, func() {
				switch op {
				case 0:
					eval.Add(a, b, out)
				case 1:
					eval.AddNoMod(a, b, out)
				case 2:
					eval.Sub(a, b, out)
				case 3:
					eval.SubNoMod(a, b, out)
				case 4:
					out = eval.AddNew(a, b)
				case 5:
					out = eval.AddNoModNew(a, b)
				case 6:
					out = eval.SubNew(a, b)
				case 7:
					out = eval.SubNoModNew(a, b)
				}
			}); bad != "" {
				return in, bad
			}
			if !outIsA && !(how == 2 && outIsB) {
				if d := sa.same(a); d != "" {
					return in, "first operand changed: " + d
				}
			}
			if !outIsB && !(how == 2 && outIsA) {
				if d := sb.same(b); d != "" {
					return in, "second operand changed: " + d
				}
			}
			sub := op == 2 || op == 3 || op >= 6
			return in, match(R, out, deg, lvl, math.Max(s0, s1), op%2 == 0, func(i, j, k int) uint64 {
				q := R.Modulus[j]
				x, y := mulModBig(sa.at(i, j, k), kmod(k0, q), q), mulModBig(sb.at(i, j, k), kmod(k1, q), q)
				if sub {
					y = (q - y) % q
				}
				return addMod(x, y, q)
			})
		})
		v.Run("unary operations", 120, func(r *rand.Rand) (string, string) {
			params, in := evalParams(r)
			R := params.RingQ()
			N := R.N
			eval := ckks.NewEvaluator(params, rlwe.EvaluationKey{})
			max := params.MaxLevel()
			deg := r.Intn(3)
			l0 := r.Intn(max + 1)
			lo := r.Intn(l0 + 1)
			a := randCt(r, params, deg, l0, 1000)
			out := randCt(r, params, deg, lo, 3)
			inPlace := r.Intn(3) == 0
			if inPlace {
				out = a
			}
			sa := take(a)
			op := r.Intn(10)
			if op >= 5 {
				out, inPlace = nil, false
			}
			pw := r.Intn(60)
			drop := r.Intn(l0 + 1)
			name := []string{"Neg", "MultByi", "DivByi", "Reduce", "DropLevel", "NegNew", "MultByiNew", "DivByiNew", "ReduceNew", "DropLevelNew"}[op]
			scaleUp := r.Intn(4) == 0 && op%5 == 0
			if scaleUp {
				name = "ScaleUp" + name[3:]
			}
			if (op == 6 || op == 7) && deg != 1 {
				return in, ""
			}
			if op == 3 || op == 8 { // unreduced input
				for _, p := range a.Value {
					for i := range p.Coeffs {
						for k := range p.Coeffs[i] {
							if q := R.Modulus[i]; r.Intn(2) == 0 {
								p.Coeffs[i][k] += q * uint64(r.Intn(4))
							}
						}
					}
				}
				sa = take(a)
			}
			in = In("%s %s degree %d levels %d,%d inplace %v 2^%d drop %d a=%v", in, name, deg, l0, lo, inPlace, pw, drop, sa.v[0].Coeffs)
			var kept *ckks.Ciphertext
			if bad := call(name, func() {
				switch op {
				case 0:
					if scaleUp {
						eval.ScaleUp(a, math.Exp2(float64(pw)), out)
					} else {
						eval.Neg(a, out)
					}
				case 1:
					eval.MultByi(a, out)
				case 2:
					eval.DivByi(a, out)
				case 3:
					if err := eval.Reduce(a, out); err != nil {
						panic(err)
					}
				case 4:
					kept = a.CopyNew()
					eval.DropLevel(a, drop)
					out, inPlace = a, true
				case 5:
					if scaleUp {
						out = eval.ScaleUpNew(a, math.Exp2(float64(pw)))
					} else {
						out = eval.NegNew(a)
					}
				case 6:
					out = eval.MultByiNew(a)
				case 7:
					out = eval.DivByiNew(a)
				case 8:
					out = eval.ReduceNew(a)
				case 9:
					out = eval.DropLevelNew(a, drop)
				}
			}); bad != "" {
				return in, bad
			}
			_ = kept
			if !inPlace {
				if d := sa.same(a); d != "" {
					return in, "operand changed: " + d
				}
			}
			lvl := l0
			if op < 4 && !inPlace {
				lvl = lo
			}
			if op == 4 || op == 9 {
				lvl = l0 - drop
			}
			want := make([][][]uint64, len(sa.v))
			scale := 1000.0
			for i := range want {
				rows := inCoeffs(R, &ring.Poly{Coeffs: reduceRows(R, sa.v[i])}, true)
				want[i] = rows
				for j := range rows {
					q := R.Modulus[j]
					neg := func(x uint64) uint64 { return (q - x) % q }
					n := make([]uint64, N)
					for k, x := range rows[j] {
						switch {
						case scaleUp:
							n[k] = mulModBig(x, kmod(new(big.Int).Lsh(big.NewInt(1), uint(pw)), q), q)
							scale = 1000 * math.Exp2(float64(pw))
						case op%5 == 0:
							n[k] = neg(x)
						case op%5 == 1: // times X^(N/2)
							if k < N/2 {
								n[k+N/2] = x
							} else {
								n[k-N/2] = neg(x)
							}
						case op%5 == 2:
							if k < N/2 {
								n[k+N/2] = neg(x)
							} else {
								n[k-N/2] = x
							}
						default:
							n[k] = x
						}
					}
					want[i][j] = n
				}
			}
			got := make([][][]uint64, len(out.Value))
			for i := range got {
				got[i] = inCoeffs(R, &ring.Poly{Coeffs: reduceRows(R, out.Value[i])}, true)
			}
			for i := range out.Value {
				if d := reduced(R, fmt.Sprintf("part %d", i), out.Value[i]); d != "" {
					return in, d
				}
			}
			if out.Degree() != deg || out.Level() != lvl || math.Abs(out.Scale-scale) > 1e-9*scale {
				return in, fmt.Sprintf("degree %d level %d scale %g, want %d %d %g", out.Degree(), out.Level(), out.Scale, deg, lvl, scale)
			}
			for i := range got {
				if d := rowsEqual(got[i], want[i][:lvl+1]); d != "" {
					return in, fmt.Sprintf("part %d: %s", i, d)
				}
			}
			return in, ""
		})
		v.Run("constants", 150, func(r *rand.Rand) (string, string) {
			params, in := evalParams(r)
			R := params.RingQ()
			N := R.N
			eval := ckks.NewEvaluator(params, rlwe.EvaluationKey{})
			max := params.MaxLevel()
			deg := 1 + r.Intn(2)
			la := r.Intn(max + 1)
			op := r.Intn(7)
			acc := op == 4 || op == 6
			mult := op >= 2
			inPlace := !acc && r.Intn(3) == 0
			lvl := la
			if r.Intn(2) == 0 && op != 1 && op != 3 && !inPlace { // the result is at a lower level
				lvl = r.Intn(la + 1)
			}
			ql := float64(R.Modulus[lvl])
			bq := math.Log2(ql)
			scale := math.Exp2(float64(int(bq) - 8))
			a := randCt(r, params, deg, la, scale)
			one := R.NewPolyLvl(la)
			for j := range one.Coeffs {
				for k := range one.Coeffs[j] {
					one.Coeffs[j][k] = 1 // NTT of the constant 1
				}
			}
			var c interface{}
			var re, im *big.Float
			fl := func(x float64) *big.Float { return new(big.Float).SetPrec(300).SetFloat64(x) }
			small := func() float64 {
				switch r.Intn(5) {
				case 0:
					return 0
				case 1:
					return float64(r.Intn(41) - 20)
				case 2:
					return r.Float64() - 0.5
				case 3:
					return math.Exp2(-float64(r.Intn(int(bq)))) * float64(1-2*r.Intn(2))
				}
				return (r.Float64() - 0.5) * 40
			}
			whole := true
			gauss := false
			name := []string{"AddConst", "AddConstNew", "MultByConst", "MultByConstNew", "MultByConstAndAdd", "MultByGaussianInteger", "MultByGaussianIntegerAndAdd"}[op]
			var g0, g1 interface{}
			if op >= 5 {
				gauss = true
				gi := func() (interface{}, *big.Float) {
					switch r.Intn(3) {
					case 0:
						x := edge64(r)
						if r.Intn(2) == 0 {
							x = uint64(r.Intn(1000))
						}
						return x, new(big.Float).SetPrec(300).SetUint64(x)
					case 1:
						x := int64(edge64(r))
						if r.Intn(2) == 0 {
							x = int64(r.Intn(1000)) - 500
						}
						return x, new(big.Float).SetPrec(300).SetInt64(x)
					}
					x := new(big.Int).Lsh(big.NewInt(int64(r.Intn(1000)-500)), uint(r.Intn(100)))
					return x, new(big.Float).SetPrec(300).SetInt(x)
				}
				g0, re = gi()
				g1, im = gi()
			} else {
				switch r.Intn(5) {
				case 0:
					x, y := small(), small()
					c, re, im = complex(x, y), fl(x), fl(y)
					whole = x == math.Trunc(x) && y == math.Trunc(y)
				case 1:
					x := small()
					c, re, im = x, fl(x), fl(0)
					whole = x == math.Trunc(x)
				case 2:
					x := uint64(r.Intn(1 << 20))
					c, re, im = x, fl(float64(x)), fl(0)
				case 3:
					x := int64(r.Intn(1<<20)) - 1<<19
					c, re, im = x, fl(float64(x)), fl(0)
				case 4:
					x := r.Intn(1<<20) - 1<<19
					c, re, im = x, fl(float64(x)), fl(0)
				}
			}
			if mult {
				a.Value[0].Coeffs = one.Coeffs
			}
			sa := take(a)
			out := randCt(r, params, deg, lvl, 3)
			if inPlace {
				out = a
			}
			f := 1.0
			if !whole {
				f = ql
			}
			if acc { // the accumulator has the scale of the product, so nothing is rescaled
				out.Scale = scale * f
			}
			kacc := uint64(1)
			if op == 4 {
				switch r.Intn(3) {
				case 0: // the accumulator is multiplied by the ratio of the scales first
					kacc = uint64(1) << uint(1+r.Intn(6))
					out.Scale /= float64(kacc) + []float64{0, 0.25, 0.75}[r.Intn(3)]
				case 1: // the constant is scaled up to the accumulator's scale
					x := math.Exp2(float64(1 + r.Intn(5)))
					f *= x
					out.Scale *= x
				}
			}
			so := take(out)
			if kacc != 1 {
				for i := range so.v {
					for j := range so.v[i].Coeffs {
						for k := range so.v[i].Coeffs[j] {
							so.v[i].Coeffs[j][k] = mulModBig(so.v[i].Coeffs[j][k], kacc, R.Modulus[j])
						}
					}
				}
			}
			in = In("%s %s constant %v (%v,%v) degree %d level %d scale %g inplace %v a=%v", in, name, c, g0, g1, deg, lvl, scale, inPlace, sa.v[0].Coeffs)
			if bad := call(name, func() {
				switch op {
				case 0:
					eval.AddConst(a, c, out)
				case 1:
					out, inPlace = eval.AddConstNew(a, c), false
				case 2:
					eval.MultByConst(a, c, out)
				case 3:
					out, inPlace = eval.MultByConstNew(a, c), false
				case 4:
					eval.MultByConstAndAdd(a, c, out)
				case 5:
					eval.MultByGaussianInteger(a, g0, g1, out)
				case 6:
					eval.MultByGaussianIntegerAndAdd(a, g0, g1, out)
				}
			}); bad != "" {
				return in, bad
			}
			if !inPlace {
				if d := sa.same(a); d != "" {
					return in, "operand changed: " + d
				}
			}
			ws := scale
			if mult {
				ws = scale * f
			}
			if out.Level() != lvl || math.Abs(out.Scale-ws) > 1e-9*ws {
				return in, fmt.Sprintf("level %d scale %g, want %d %g", out.Level(), out.Scale, lvl, ws)
			}
			// the constant that was actually used, from part 0
			p0 := R.NewPolyLvl(lvl)
			for j := range p0.Coeffs {
				q := R.Modulus[j]
				for k := range p0.Coeffs[j] {
					x := out.Value[0].Coeffs[j][k] % q
					if acc {
						x = addMod(x, (q-so.at(0, j, k))%q, q)
					} else if !mult {
						x = addMod(x, (q-sa.at(0, j, k))%q, q)
					}
					p0.Coeffs[j][k] = x
				}
			}
			cr, ci := new(big.Int), new(big.Int)
			rows := inCoeffs(R, p0, true)
			M := prodBig(R.Modulus[:lvl+1])
			for k := 0; k < N; k++ {
				z := crtBig(&ring.Poly{Coeffs: rows}, lvl, k, R.Modulus)
				if z.Cmp(new(big.Int).Rsh(M, 1)) > 0 {
					z.Sub(z, M)
				}
				switch k {
				case 0:
					cr = z
				case N / 2:
					ci = z
				default:
					if z.Sign() != 0 {
						return in, fmt.Sprintf("the constant has coefficient %s at X^%d", z, k)
					}
				}
			}
			sf := fl(f)
			if !mult {
				sf = fl(scale)
			}
			if gauss {
				sf = fl(1)
			}
			for n, w := range []*big.Float{re, im} {
				e := new(big.Float).SetPrec(300).Mul(w, sf)
				got := []*big.Int{cr, ci}[n]
				var diff *big.Float
				if gauss {
					ei, _ := e.Int(nil)
					d := new(big.Int).Sub(got, ei)
					d.Mod(d, M)
					diff = new(big.Float).SetInt(d)
				} else {
					diff = new(big.Float).SetPrec(300).Sub(e, new(big.Float).SetPrec(300).SetInt(got))
				}
				tol := new(big.Float).Mul(new(big.Float).Abs(e), fl(math.Exp2(-50)))
				if !gauss {
					tol.Add(tol, fl(0.6))
				} else {
					tol = fl(0)
				}
				if diff.Abs(diff).Cmp(tol) > 0 && new(big.Float).Abs(e).Cmp(new(big.Float).SetInt(new(big.Int).Rsh(M, 2))) < 0 {
					return in, fmt.Sprintf("part %d of the constant was taken as %s, want %s", n, got, e.Text('f', 3))
				}
			}
			// the other parts
			for i := 0; i <= deg; i++ {
				if d := reduced(R, fmt.Sprintf("part %d", i), out.Value[i]); d != "" {
					return in, d
				}
				if i == 0 {
					continue
				}
				ai := inCoeffs(R, sa.v[i], true)
				oi := inCoeffs(R, out.Value[i], true)
				var ao [][]uint64
				if acc {
					ao = inCoeffs(R, so.v[i], true)
				}
				for j := range oi {
					q := R.Modulus[j]
					a, b := kmod(cr, q), kmod(ci, q)
					for k := 0; k < N; k++ {
						w := ai[j][k]
						if mult {
							w = mulModBig(ai[j][k], a, q)
							if k >= N/2 {
								w = addMod(w, mulModBig(ai[j][k-N/2], b, q), q)
							} else {
								w = addMod(w, (q-mulModBig(ai[j][k+N/2], b, q))%q, q)
							}
						}
						if acc {
							w = addMod(w, ao[j][k], q)
						}
						if oi[j][k] != w {
							return in, fmt.Sprintf("part %d row %d coefficient %d is %d, want %d", i, j, k, oi[j][k], w)
						}
					}
				}
			}
			return in, ""
		})
		v.Run("products", 150, func(r *rand.Rand) (string, string) {
			params, in := evalParams(r)
			R := params.RingQ()
			eval := ckks.NewEvaluator(params, rlwe.EvaluationKey{})
			max := params.MaxLevel()
			l0, l1, lo := r.Intn(max+1), r.Intn(max+1), r.Intn(max+1)
			d0, d1 := r.Intn(2), r.Intn(2)
			if d0+d1 == 0 {
				d0, d1 = 1, 1
			}
			mk := func(d, l int, s float64) ckks.Operand {
				if d == 0 {
					pt := ckks.NewPlaintext(params, l, s)
					fill(r, R, pt.Value)
					return pt
				}
				return randCt(r, params, d, l, s)
			}
			a, b := mk(d0, l0, 64), mk(d1, l1, 16)
			op := r.Intn(3)
			deg := d0 + d1
			var out *ckks.Ciphertext
			switch r.Intn(6) {
			case 0:
				if op == 0 {
					out, _ = a.(*ckks.Ciphertext)
				}
			case 1:
				if op == 0 {
					out, _ = b.(*ckks.Ciphertext)
				}
			case 2:
				if d0 == 1 {
					b, l1, d1, deg = a, l0, 1, 2
				}
			case 3:
				if d0 == 1 && op == 0 {
					b, l1, d1, deg = a, l0, 1, 2
					out = a.(*ckks.Ciphertext)
				}
			}
			if out == nil && op != 1 {
				od := deg
				if deg == 2 && r.Intn(3) == 0 {
					od = 1
				}
				out = randCt(r, params, od, lo, 3)
			}
			res := a.ScalingFactor() * b.ScalingFactor()
			k := big.NewInt(1)
			if op == 2 {
				switch r.Intn(3) {
				case 0:
					out.Scale = res / 4
					k.SetInt64(4)
				case 1:
					out.Scale = res / 32
					k.SetInt64(32)
				default:
					out.Scale = res
				}
			}
			sa, sb := take(a), take(b)
			so := snap{}
			if out != nil {
				so = take(out)
			}
			inA, inB := out != nil && ckks.Operand(out) == a, out != nil && ckks.Operand(out) == b
			lvl := l0
			if l1 < lvl {
				lvl = l1
			}
			if out != nil && out.Level() < lvl {
				lvl = out.Level()
			}
			name := []string{"Mul", "MulNew", "MulAndAdd"}[op]
			in = In("%s %s degrees %d,%d levels %d,%d,%d same operand %v inplace %v,%v a=%v b=%v", in, name, d0, d1, l0, l1, lo, a == b, inA, inB, sa.v[0].Coeffs, sb.v[0].Coeffs)
			if bad := call(name, func() {
				switch op {
				case 0:
					eval.Mul(a, b, out)
				case 1:
					out = eval.MulNew(a, b)
				case 2:
					eval.MulAndAdd(a, b, out)
				}
			}); bad != "" {
				return in, bad
			}
			if !inA && !(a == b && inB) {
				if d := sa.same(a); d != "" {
					return in, "first operand changed: " + d
				}
			}
			if !inB && !(a == b && inA) {
				if d := sb.same(b); d != "" {
					return in, "second operand changed: " + d
				}
			}
			return in, match(R, out, deg, lvl, res, true, func(i, j, n int) uint64 {
				q := R.Modulus[j]
				var z uint64
				for x := 0; x <= i; x++ {
					if x <= d0 && i-x <= d1 {
						z = addMod(z, mulModBig(sa.at(x, j, n), sb.at(i-x, j, n), q), q)
					}
				}
				if op == 2 {
					z = addMod(z, mulModBig(so.at(i, j, n), kmod(k, q), q), q)
				}
				return z
			})
		})
		v.Run("key switching operations", 60, func(r *rand.Rand) (string, string) {
			params, in := evalParams(r)
			R := params.RingQ()
			max := params.MaxLevel()
			kg := ckks.NewKeyGenerator(params)
			sk := kg.GenSecretKey()
			sk2 := kg.GenSecretKey()
			rot := 1 + r.Intn(R.N/2-1)
			if r.Intn(2) == 0 {
				rot -= R.N / 2
			}
			rlk := kg.GenRelinearizationKey(sk, 1)
			rtks := kg.GenRotationKeysForRotations([]int{rot}, true, sk)
			swk := kg.GenSwitchingKey(sk, sk2)
			eval := ckks.NewEvaluator(params, rlwe.EvaluationKey{Rlk: rlk, Rtks: rtks})
			l0 := r.Intn(max + 1)
			l1 := l0
			if r.Intn(2) == 0 {
				l1 = r.Intn(max + 1)
			}
			lo := r.Intn(max + 1)
			op := r.Intn(7)
			name := []string{"MulRelin", "MulRelinAndAdd", "Relinearize", "Rotate", "Conjugate", "SwitchKeys", "MulRelinNew"}[op]
			if op == 3 && r.Intn(2) == 0 {
				rot = 0
			}
			d := 1
			if op == 2 {
				d = 2
			}
			a := randCt(r, params, d, l0, 8)
			b := a
			if op == 0 || op == 1 || op == 6 {
				if r.Intn(3) != 0 {
					b = randCt(r, params, 1, l1, 4)
				} else {
					l1 = l0
				}
			} else {
				l1 = l0
			}
			lvl := l0
			if l1 < lvl {
				lvl = l1
			}
			if op >= 3 && op < 6 { // the result keeps its own level
				lo = r.Intn(l0 + 1)
			}
			out := randCt(r, params, 1, lo, 32)
			inPlace := ""
			if op != 1 && op != 6 && r.Intn(3) == 0 {
				out, inPlace = a, "first"
				if op == 0 && a != b && r.Intn(2) == 0 {
					out, inPlace = b, "second"
				}
			}
			if out.Level() < lvl && op != 6 {
				lvl = out.Level()
			}
			sa, sb, so := take(a), take(b), take(out)
			in = In("%s %s rotation %d levels %d,%d,%d same operand %v in place of %q a=%v", in, name, rot, l0, l1, out.Level(), a == b, inPlace, sa.v[0].Coeffs)
			s := plainKey(params.Parameters, sk)
			sOut := s
			if bad := call(name, func() {
				switch op {
				case 0:
					eval.MulRelin(a, b, out)
				case 1:
					out.Scale = a.Scale * b.Scale
					so = take(out)
					eval.MulRelinAndAdd(a, b, out)
				case 2:
					eval.Relinearize(a, out)
				case 3:
					eval.Rotate(a, rot, out)
				case 4:
					eval.Conjugate(a, out)
				case 5:
					eval.SwitchKeys(a, swk, out)
					sOut = plainKey(params.Parameters, sk2)
				case 6:
					out = eval.MulRelinNew(a, b)
				}
			}); bad != "" {
				return in, bad
			}
			if inPlace != "first" {
				if d := sa.same(a); d != "" {
					return in, "operand changed: " + d
				}
			}
			if inPlace != "second" && a != b {
				if d := sb.same(b); d != "" {
					return in, "second operand changed: " + d
				}
			}
			if out.Degree() != 1 || out.Level() != lvl {
				return in, fmt.Sprintf("degree %d level %d, want 1 and %d", out.Degree(), out.Level(), lvl)
			}
			ws := 8.0
			if op == 0 || op == 1 || op == 6 {
				ws = a.Scale * b.Scale
				if inPlace != "" {
					ws = sa.scale * sb.scale
				}
			}
			if out.Scale != ws {
				return in, fmt.Sprintf("scale %g, want %g", out.Scale, ws)
			}
			for i, p := range out.Value {
				if d := reduced(R, fmt.Sprintf("part %d", i), p); d != "" {
					return in, d
				}
				if !p.IsNTT {
					return in, fmt.Sprintf("part %d is not in the NTT domain", i)
				}
			}
			B := ksBoundOf(params.Parameters, lvl)
			if new(big.Int).Lsh(B, 3).Cmp(prodBig(R.Modulus[:lvl+1])) >= 0 {
				return in, ""
			}
			cut := func(sn snap) (ps []*ring.Poly) {
				for _, p := range sn.v {
					ps = append(ps, &ring.Poly{Coeffs: p.Coeffs[:lvl+1]})
				}
				return
			}
			got := phase(R, out.Value, sOut, lvl, true)
			want := phase(R, cut(sa), s, lvl, true)
			switch op {
			case 0, 1, 6:
				o := phase(R, cut(sb), s, lvl, true)
				for j := range want {
					want[j] = negMul(want[j], o[j], R.Modulus[j])
				}
				if op == 1 {
					o := phase(R, cut(so), s, lvl, true)
					for j := range want {
						for k := range want[j] {
							want[j][k] = addMod(want[j][k], o[j][k], R.Modulus[j])
						}
					}
				}
			case 3, 4:
				if op == 3 {
					want = galois(R, want, rot)
				} else {
					want = applyGal(R, want, uint64(2*R.N-1))
				}
			}
			for k, e := range centred(R, got, want, lvl) {
				if e.CmpAbs(B) > 0 {
					return in, fmt.Sprintf("coefficient %d of the message is off by %s, worst-case noise %s", k, e, B)
				}
			}
			return in, ""
		})
		v.Run("fckks operations", 40, func(r *rand.Rand) (string, string) {
			logN := 4 + r.Intn(3)
			m := 2 << uint(logN)
			bq := []int{30, 36, 45, 50}[r.Intn(4)]
			np, nq, gamma := 1+r.Intn(3), 1+r.Intn(6), 1+r.Intn(3)
			ps := nttPrimes(bq, m, nq+np)
			q, p := ps[:nq:nq], ps[nq:nq+np]
			need := np*bq + gamma*bq + logN + 9
			T := nttPrimes(56, m, need/55+1)
			params := fckks.NewParametersFromLiteral(fckks.ParametersLiteral{LogN: logN, LogSlots: logN - 1, Q: q, P: p, T: T, DefaultScale: 1 << 20, Sigma: rlwe.DefaultSigma, Gamma: gamma, H: 1 + r.Intn(1<<uint(logN))})
			R := params.RingQ()
			kg := fckks.NewKeyGenerator(params)
			sk, _ := kg.GenKeyPair()
			eval := fckks.NewEvaluator(params)
			max := nq - 1
			l0, l1, lo := r.Intn(nq), r.Intn(nq), r.Intn(nq)
			op := r.Intn(6)
			if op == 2 || op == 4 {
				lo = r.Intn(l0 + 1)
			}
			_ = max
			name := []string{"MulRelin", "MulRelinNew", "Rotate", "RotateNew", "SwitchKeys", "SwitchKeysNew"}[op]
			a, b := randCt(r, params.Parameters, 1, l0, 8), randCt(r, params.Parameters, 1, l1, 4)
			if r.Intn(3) == 0 {
				b, l1 = a, l0
			}
			out := randCt(r, params.Parameters, 1, lo, 3)
			inPlace := op%2 == 0 && r.Intn(3) == 0
			if inPlace {
				out, lo = a, l0
			}
			rot := 1 + r.Intn(R.N/2-1)
			if r.Intn(2) == 0 {
				rot -= R.N / 2
			}
			sa, sb := take(a), take(b)
			in := In("logN=%d Q=%#x P=%#x T=%#x gamma=%d %s rotation %d levels %d,%d,%d same %v in place %v a=%v", logN, q, p, T, gamma, name, rot, l0, l1, lo, a == b, inPlace, sa.v[0].Coeffs)
			lvl := l0
			if op < 2 && l1 < lvl {
				lvl = l1
			}
			if op%2 == 0 && lo < lvl {
				lvl = lo
			}
			ws := sa.scale
			if op < 2 {
				ws *= sb.scale
			}
			if bad := call(name, func() {
				switch op {
				case 0:
					eval.MulRelin(a, b, kg.GenRelinKey(sk), out)
				case 1:
					out = eval.MulRelinNew(a, b, kg.GenRelinKey(sk))
				case 2:
					eval.Rotate(a, kg.GenRotKey(rot, sk), out)
				case 3:
					out = eval.RotateNew(a, kg.GenRotKey(rot, sk))
				case 4:
					eval.SwitchKeys(a, kg.GenRelinKey(sk).Value, out)
				case 5:
					out = eval.SwitchKeysNew(a, kg.GenRelinKey(sk).Value)
				}
			}); bad != "" {
				return in, bad
			}
			if !inPlace {
				if d := sa.same(a); d != "" {
					return in, "operand changed: " + d
				}
			}
			if a != b {
				if d := sb.same(b); d != "" {
					return in, "second operand changed: " + d
				}
			}
			if out.Degree() != 1 || out.Level() != lvl || out.Scale != ws {
				return in, fmt.Sprintf("degree %d level %d scale %g, want 1 %d %g", out.Degree(), out.Level(), out.Scale, lvl, ws)
			}
			for i, p := range out.Value {
				if d := reduced(R, fmt.Sprintf("part %d", i), p); d != "" {
					return in, d
				}
			}
			B := ksBoundOf(params.Parameters.Parameters, lvl)
			if new(big.Int).Lsh(B, 3).Cmp(prodBig(R.Modulus[:lvl+1])) >= 0 {
				return in, ""
			}
			cut := func(sn snap) (ps []*ring.Poly) {
				for _, p := range sn.v {
					ps = append(ps, &ring.Poly{Coeffs: p.Coeffs[:lvl+1]})
				}
				return
			}
			s := plainKey(params.Parameters.Parameters, sk)
			got := phase(R, out.Value, s, lvl, true)
			want := phase(R, cut(sa), s, lvl, true)
			switch {
			case op < 2:
				o := phase(R, cut(sb), s, lvl, true)
				for j := range want {
					want[j] = negMul(want[j], o[j], R.Modulus[j])
				}
			case op < 4:
				want = galois(R, want, rot)
			default: // the relinearization key switches from s^2 to s
				s2 := clonePoly(s)
				for j := range s2.Coeffs {
					s2.Coeffs[j] = negMul(s.Coeffs[j], s.Coeffs[j], R.Modulus[j])
				}
				want = phase(R, cut(sa), s2, lvl, true)
			}
			for k, e := range centred(R, got, want, lvl) {
				if e.CmpAbs(B) > 0 {
					return in, fmt.Sprintf("coefficient %d of the message is off by %s, worst-case noise %s", k, e, B)
				}
			}
			return in, ""
		})
		v.Run("rescaling", 120, func(r *rand.Rand) (string, string) {
			params, in := evalParams(r)
			R := params.RingQ()
			eval := ckks.NewEvaluator(params, rlwe.EvaluationKey{})
			max := params.MaxLevel()
			if max == 0 {
				return in, ""
			}
			lvl := 1 + r.Intn(max)
			deg := r.Intn(3)
			min := math.Exp2(float64(5 + r.Intn(30)))
			want := r.Intn(lvl + 2)
			scale := min * (0.6 + r.Float64()*4)
			if r.Intn(2) == 0 {
				scale = min * []float64{0.49, 0.499, 0.502, 0.51, 0.52, 0.9, 1.01}[r.Intn(7)]
			}
			for i := 0; i < want; i++ {
				x := lvl - i
				if x < 0 {
					x = 0
				}
				scale *= float64(R.Modulus[x])
			}
			a := randCt(r, params, deg, lvl, scale)
			out := randCt(r, params, deg, lvl, 3)
			inPlace := r.Intn(2) == 0
			if inPlace {
				out = a
			}
			sa := take(a)
			in = In("%s level %d degree %d scale %g minScale %g inplace %v a=%v", in, lvl, deg, scale, min, inPlace, sa.v[0].Coeffs)
			if bad := call("Rescale", func() {
				if err := eval.Rescale(a, min, out); err != nil {
					panic(err)
				}
			}); bad != "" {
				return in, bad
			}
			if !inPlace {
				if d := sa.same(a); d != "" {
					return in, "operand changed: " + d
				}
			}
			ws, n := scale, 0
			for lvl-n > 0 && ws/float64(R.Modulus[lvl-n]) >= min/2 {
				ws /= float64(R.Modulus[lvl-n])
				n++
			}
			if out.Level() != lvl-n || math.Abs(out.Scale-ws) > 1e-9*ws || out.Degree() != deg {
				return in, fmt.Sprintf("degree %d level %d scale %g, want %d %d %g", out.Degree(), out.Level(), out.Scale, deg, lvl-n, ws)
			}
			for i := range out.Value {
				x := inCoeffs(R, sa.v[i], true)
				y := inCoeffs(R, out.Value[i], true)
				if d := reduced(R, fmt.Sprintf("part %d", i), out.Value[i]); d != "" {
					return in, d
				}
				for k := 0; k < R.N; k++ {
					z := crtBig(&ring.Poly{Coeffs: x}, lvl, k, R.Modulus)
					for t := 0; t < n; t++ {
						q := R.Modulus[lvl-t]
						z.Add(z, bu((q-1)>>1))
						z.Quo(z, bu(q))
					}
					for j := 0; j <= lvl-n; j++ {
						if w := kmod(z, R.Modulus[j]); y[j][k] != w {
							return in, fmt.Sprintf("part %d row %d coefficient %d is %d, want %d after dividing by %d moduli", i, j, k, y[j][k], w, n)
						}
					}
				}
			}
			return in, ""
		})
	})
}

func reduceRows(R *ring.Ring, p *ring.Poly) [][]uint64 {
	t := clonePoly(p)
	for i := range t.Coeffs {
		for k := range t.Coeffs[i] {
			t.Coeffs[i][k] %= R.Modulus[i]
		}
	}
	return t.Coeffs
}

func ksBoundOf(params rlwe.Parameters, lvl int) *big.Int {
	alpha := params.PCount()
	beta := (lvl + alpha) / alpha
	blk := new(big.Int)
	q := params.Q()
	for i := 0; i <= lvl; i += alpha {
		e := i + alpha
		if e > lvl+1 {
			e = lvl + 1
		}
		if b := prodBig(q[i:e]); b.Cmp(blk) > 0 {
			blk = b
		}
	}
	B := new(big.Int).Mul(blk, big.NewInt(int64(beta*params.N()*20*(alpha+1))))
	B.Quo(B, params.PBigInt())
	return B.Add(B, big.NewInt(int64(2*(params.N()+2))))
}

// negacyclic product modulo q (schoolbook)
func negMul(a, b []uint64, q uint64) []uint64 {
	n := len(a)
	out := make([]uint64, n)
	for i, x := range a {
		if x == 0 {
			continue
		}
		for j, y := range b {
			z := mulModBig(x, y, q)
			k := i + j
			if k >= n {
				k -= n
				z = (q - z) % q
			}
			out[k] = addMod(out[k], z, q)
		}
	}
	return out
}

func addMod(a, b, q uint64) uint64 {
	s := a + b
	if s < a || s >= q {
		s -= q
	}
	return s
}

// the secret key modulo each modulus in the coefficient domain
func plainKey(params rlwe.Parameters, sk *rlwe.SecretKey) *ring.Poly {
	R := params.RingQ()
	s := clonePoly(sk.Value.Q)
	R.InvMForm(s, s)
	R.InvNTT(s, s)
	return s
}

// rows of a polynomial in the coefficient domain, reduced
func inCoeffs(R *ring.Ring, p *ring.Poly, ntt bool) [][]uint64 {
	t := clonePoly(p)
	lvl := len(t.Coeffs) - 1
	if ntt {
		R.InvNTTLvl(lvl, t, t)
	}
	for i := range t.Coeffs {
		for k := range t.Coeffs[i] {
			t.Coeffs[i][k] %= R.Modulus[i]
		}
	}
	return t.Coeffs
}

// sum of ct[i]*s^i, row by row
func phase(R *ring.Ring, ct []*ring.Poly, s *ring.Poly, lvl int, ntt bool) [][]uint64 {
	var acc [][]uint64
	for i := len(ct) - 1; i >= 0; i-- {
		c := inCoeffs(R, &ring.Poly{Coeffs: ct[i].Coeffs[:lvl+1]}, ntt)
		if acc == nil {
			acc = c
			continue
		}
		for j := 0; j <= lvl; j++ {
			acc[j] = negMul(acc[j], s.Coeffs[j], R.Modulus[j])
			for k := range acc[j] {
				acc[j][k] = addMod(acc[j][k], c[j][k], R.Modulus[j])
			}
		}
	}
	return acc
}

// the difference of two row-wise residues as centred integers
func centred(R *ring.Ring, a, b [][]uint64, lvl int) []*big.Int {
	d := R.NewPolyLvl(lvl)
	for j := 0; j <= lvl; j++ {
		q := R.Modulus[j]
		for k := range d.Coeffs[j] {
			d.Coeffs[j][k] = addMod(a[j][k], (q-b[j][k]%q)%q, q)
		}
	}
	M := prodBig(R.Modulus[:lvl+1])
	h := new(big.Int).Rsh(M, 1)
	out := make([]*big.Int, R.N)
	for k := range out {
		z := crtBig(d, lvl, k, R.Modulus)
		if z.Cmp(h) > 0 {
			z.Sub(z, M)
		}
		out[k] = z
	}
	return out
}

func randRows(r *rand.Rand, R *ring.Ring, lvl int) *ring.Poly {
	p := R.NewPolyLvl(lvl)
	for i := range p.Coeffs {
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = residue(r, R.Modulus[i])
		}
	}
	return p
}

func rowsEqual(a, b [][]uint64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d rows, want %d", len(a), len(b))
	}
	for i := range a {
		for k := range a[i] {
			if a[i][k] != b[i][k] {
				return fmt.Sprintf("row %d coefficient %d is %d, want %d", i, k, a[i][k], b[i][k])
			}
		}
	}
	return ""
}

func reduced(R *ring.Ring, what string, p *ring.Poly) string {
	for i := range p.Coeffs {
		for k, x := range p.Coeffs[i] {
			if x > R.Modulus[i] {
				return fmt.Sprintf("%s: row %d coefficient %d = %d is not reduced modulo %d", what, i, k, x, R.Modulus[i])
			}
		}
	}
	return ""
}


// the image of the rows (coefficient domain) under X -> X^g
func applyGal(R *ring.Ring, rows [][]uint64, g uint64) [][]uint64 {
	out := make([][]uint64, len(rows))
	for j := range rows {
		q := R.Modulus[j]
		n := make([]uint64, R.N)
		for k, x := range rows[j] {
			t := int(uint64(k) * g % uint64(2*R.N))
			if t >= R.N {
				n[t-R.N] = (q - x) % q
			} else {
				n[t] = x
			}
		}
		out[j] = n
	}
	return out
}

func galois(R *ring.Ring, rows [][]uint64, rot int) [][]uint64 {
	g := uint64(1)
	for i := 0; i < (rot%(R.N/2)+R.N/2)%(R.N/2); i++ {
		g = g * 5 % uint64(2*R.N)
	}
	return applyGal(R, rows, g)
}
