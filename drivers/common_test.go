package driver

// Shared helpers of the bounded drivers: they call the real code on generated
// inputs, compare with an independent oracle (math/big), and write what they
// covered, and the first failing input of each group, to $VERIF_OUT.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
	"time"

	"fast-ksw/ring"
)

type V struct {
	t    *testing.T
	out  *os.File
	seed int64
	mult int
	slot time.Duration
}

func (v *V) emit(m map[string]interface{}) {
	b, _ := json.Marshal(m)
	v.out.Write(append(b, '\n'))
}

func verifMain(t *testing.T, rule string, f func(v *V)) {
	p := os.Getenv("VERIF_OUT")
	if p == "" {
		p = os.DevNull
	}
	out, err := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		t.Fatal(err)
	}
	v := &V{t: t, out: out, seed: 1, mult: 1, slot: 2 * time.Second}
	if n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		v.seed = n
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && n > 20 {
		v.mult = n / 20
		v.slot = time.Duration(n) * time.Second / 10
	}
	v.emit(map[string]interface{}{"Kind": "rule", "Rule": rule})
	f(v)
	v.emit(map[string]interface{}{"Kind": "done"})
}

// Run evaluates one group of cases: f makes an input from r, runs the real
// code and returns the input as text and, if the property is broken, how.
func (v *V) Run(id string, n int, f func(r *rand.Rand) (in, bad string)) {
	v.emit(map[string]interface{}{"Kind": "start", "Group": id})
	h := fnv.New64a()
	h.Write([]byte(id))
	r := rand.New(rand.NewSource(v.seed ^ int64(h.Sum64()&(1<<62-1))))
	seen := map[uint64]bool{}
	t0 := time.Now()
	evals := 0
	failed := false
	for i := 0; i < n*v.mult && time.Since(t0) < v.slot; i++ {
		in, bad := safely(r, f)
		evals++
		g := fnv.New64a()
		g.Write([]byte(in))
		seen[g.Sum64()] = true
		if i < 1 {
			v.emit(map[string]interface{}{"Kind": "sample", "Group": id, "Sample": cut(in, 300)})
		}
		if bad != "" {
			v.emit(map[string]interface{}{"Kind": "fail", "ID": id, "Group": id, "Input": cut(in, 6000), "What": cut(bad, 3000)})
			failed = true
			break
		}
	}
	v.emit(map[string]interface{}{"Kind": "group", "Group": id, "Evals": evals, "Distinct": len(seen)})
	if failed {
		v.t.Errorf("%s failed", id)
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var curIn string

// In records the input of the running case, so that a panic reports it.
func In(format string, a ...interface{}) string {
	curIn = fmt.Sprintf(format, a...)
	return curIn
}

func safely(r *rand.Rand, f func(r *rand.Rand) (string, string)) (in, bad string) {
	defer func() {
		if e := recover(); e != nil {
			in, bad = curIn, fmt.Sprintf("panic: %v\n%s", e, cut(string(debug.Stack()), 2000))
		}
	}()
	curIn = ""
	return f(r)
}

// ---- generators and oracles ----

func bu(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

var bigR64 = new(big.Int).Lsh(big.NewInt(1), 64)

// edge64 draws 64-bit words with emphasis on boundaries.
func edge64(r *rand.Rand, near ...uint64) uint64 {
	switch r.Intn(8) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return ^uint64(0) - uint64(r.Intn(4))
	case 2:
		return uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 3, 4:
		if len(near) > 0 {
			return near[r.Intn(len(near))]*uint64(1+r.Intn(3)) + uint64(r.Intn(5)) - 2
		}
	case 5:
		return r.Uint64() >> uint(r.Intn(64))
	}
	return r.Uint64()
}

// oddModulus draws an odd q with 1 < q < 2^bits.
func oddModulus(r *rand.Rand, bits int) uint64 {
	for {
		b := uint(2 + r.Intn(bits-1))
		q := r.Uint64()>>(64-b) | 1 | 1<<(b-1)
		if r.Intn(6) == 0 {
			q = 1<<b - 1 - 2*uint64(r.Intn(3))
		} else if r.Intn(8) == 0 {
			q = 1<<(b-1) + 1 + 2*uint64(r.Intn(3))
		}
		if q > 1 && q < 1<<uint(bits) {
			return q | 1
		}
	}
}

func anyModulus(r *rand.Rand, bits int) uint64 {
	q := oddModulus(r, bits)
	if r.Intn(3) == 0 && q > 3 {
		q--
	}
	return q
}

func residue(r *rand.Rand, q uint64) uint64 {
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(3)) % q
	case 1:
		return q - 1 - uint64(r.Intn(3))%q
	}
	return r.Uint64() % q
}

func mulModBig(x, y, q uint64) uint64 {
	z := new(big.Int).Mul(bu(x), bu(y))
	return z.Mod(z, bu(q)).Uint64()
}

func congBig(a, b *big.Int, q uint64) bool {
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, bu(q)).Sign() == 0
}

// qinvBig is q^-1 mod 2^64, bredBig is floor(2^128/q) as two words.
func qinvBig(q uint64) uint64 {
	return new(big.Int).ModInverse(bu(q), bigR64).Uint64()
}

func bredBig(q uint64) []uint64 {
	z := new(big.Int).Lsh(big.NewInt(1), 128)
	z.Quo(z, bu(q))
	return []uint64{new(big.Int).Rsh(z, 64).Uint64(), new(big.Int).Mod(z, bigR64).Uint64()}
}

// montBig is a*2^-64 mod q
func montBig(a *big.Int, q uint64) uint64 {
	i := new(big.Int).ModInverse(bigR64, bu(q))
	i.Mul(i, a)
	return i.Mod(i, bu(q)).Uint64()
}

// mformBig is a*2^64 mod q
func mformBig(a, q uint64) uint64 {
	z := new(big.Int).Lsh(bu(a), 64)
	return z.Mod(z, bu(q)).Uint64()
}

func bad(format string, a ...interface{}) string { return fmt.Sprintf(format, a...) }

func primeNTT(bits int, logN2 uint, k int) uint64 {
	// the k-th prime below 2^bits that is 1 mod 2^logN2
	q := uint64(1)<<uint(bits) + 1
	for {
		q -= 1 << logN2
		if bu(q).ProbablyPrime(20) {
			if k == 0 {
				return q
			}
			k--
		}
	}
}

// ---- rings ----

var primeCache = map[[2]int][]uint64{}

// nttPrimes lists n primes = 1 mod m of about the given bit size (math/big only).
func nttPrimes(bits, m, n int) []uint64 {
	k := [2]int{bits, m}
	if c := primeCache[k]; len(c) >= n {
		return c[:n:n]
	}
	var out []uint64
	for q := (uint64(1)<<uint(bits)-1)/uint64(m)*uint64(m) + 1; len(out) < n && q > uint64(m); q -= uint64(m) {
		if q>>uint(bits) == 0 && bu(q).ProbablyPrime(10) {
			out = append(out, q)
		}
	}
	primeCache[k] = out
	return out[:len(out):len(out)]
}

// genModuli draws 1..max distinct primes = 1 mod m, of mixed sizes.
func genModuli(r *rand.Rand, m, max, maxBits int) []uint64 {
	lo := 4
	for 1<<uint(lo) < m {
		lo++
	}
	lo += 4
	var out []uint64
	seen := map[uint64]bool{}
	for n := 1 + r.Intn(max); len(out) < n; {
		b := lo + r.Intn(maxBits-lo+1)
		if r.Intn(3) == 0 {
			b = maxBits
		}
		ps := nttPrimes(b, m, 4)
		if len(ps) == 0 {
			continue
		}
		q := ps[r.Intn(len(ps))]
		if !seen[q] {
			seen[q] = true
			out = append(out, q)
		}
	}
	return out
}

// genRing draws a standard ring of degree 16..maxN.
func genRing(r *rand.Rand, maxLog, maxMod, maxBits int) *ring.Ring {
	logN := 4 + r.Intn(maxLog-3)
	return mustRing(ring.NewRing(1<<uint(logN), genModuli(r, 2<<uint(logN), maxMod, maxBits)))
}

func mustRing(R *ring.Ring, err error) *ring.Ring {
	if err != nil {
		panic(err)
	}
	return R
}

// genPoly draws a polynomial with rows rows of N reduced coefficients.
func genPoly(r *rand.Rand, R *ring.Ring, rows int) *ring.Poly {
	p := &ring.Poly{Coeffs: make([][]uint64, rows)}
	for i := range p.Coeffs {
		p.Coeffs[i] = make([]uint64, R.N)
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = residue(r, R.Modulus[i])
		}
	}
	return p
}

func rawPoly(r *rand.Rand, R *ring.Ring, rows int) *ring.Poly {
	p := genPoly(r, R, rows)
	for i := range p.Coeffs {
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = edge64(r, R.Modulus[i])
		}
	}
	return p
}

func clonePoly(p *ring.Poly) *ring.Poly {
	q := &ring.Poly{IsNTT: p.IsNTT, IsMForm: p.IsMForm}
	for _, c := range p.Coeffs {
		q.Coeffs = append(q.Coeffs, append([]uint64{}, c...))
	}
	return q
}

// samePoly reports the first differing coefficient of two polynomials.
func samePoly(got, want *ring.Poly) string {
	if len(got.Coeffs) != len(want.Coeffs) {
		return fmt.Sprintf("%d rows, want %d", len(got.Coeffs), len(want.Coeffs))
	}
	for i := range want.Coeffs {
		if len(got.Coeffs[i]) != len(want.Coeffs[i]) {
			return fmt.Sprintf("row %d has length %d, want %d", i, len(got.Coeffs[i]), len(want.Coeffs[i]))
		}
		for k := range want.Coeffs[i] {
			if got.Coeffs[i][k] != want.Coeffs[i][k] {
				return fmt.Sprintf("row %d coefficient %d = %d, want %d", i, k, got.Coeffs[i][k], want.Coeffs[i][k])
			}
		}
	}
	return ""
}

// crtBig reconstructs coefficient k of the rows 0..lvl modulo their product.
func crtBig(p *ring.Poly, lvl, k int, Q []uint64) *big.Int {
	x, m := new(big.Int), big.NewInt(1)
	for i := 0; i <= lvl; i++ {
		q := bu(Q[i])
		d := new(big.Int).Sub(bu(p.Coeffs[i][k]), x)
		d.Mul(d, new(big.Int).ModInverse(m, q))
		d.Mod(d, q)
		x.Add(x, d.Mul(d, m))
		m.Mul(m, q)
	}
	return x
}

func prodBig(Q []uint64) *big.Int {
	m := big.NewInt(1)
	for _, q := range Q {
		m.Mul(m, bu(q))
	}
	return m
}

func modBig(x *big.Int, q uint64) uint64 { return new(big.Int).Mod(x, bu(q)).Uint64() }
