package driver

import (
	"fmt"
	"math/bits"
	"math/rand"
	"reflect"
	"testing"

	"fast-ksw/utils"
)

func small(r *rand.Rand, n int) []uint64 {
	s := make([]uint64, n)
	for i := range s {
		s[i] = uint64(r.Intn(4))
		if r.Intn(4) == 0 {
			s[i] = edge64(r)
		}
	}
	return s
}

func rot(n, k, i int) int { return (((i+k)%n)+n)%n }

func TestVerifC11(t *testing.T) {
	verifMain(t, "slices of length 0..40 with repeated values, rotations from -3n to 3n, 64-bit words with boundary patterns, bit lengths 1..64; distinct = distinct inputs", func(v *V) {
		v.Run("equal slices", 3000, func(r *rand.Rand) (string, string) {
			n := r.Intn(20)
			a := small(r, n)
			b := append([]uint64{}, a...)
			switch r.Intn(4) {
			case 0:
				if n > 0 {
					b[r.Intn(n)] ^= 1 << uint(r.Intn(64))
				}
			case 1:
				b = b[:r.Intn(n+1)]
			case 2:
				b = append(b, uint64(r.Intn(2)))
			}
			in := In("a=%d b=%d", a, b)
			want := len(a) == len(b)
			for i := 0; want && i < n; i++ {
				want = a[i] == b[i]
			}
			if utils.EqualSliceUint64(a, b) != want {
				return in, fmt.Sprintf("EqualSliceUint64 = %v", !want)
			}
			ai, bi := make([]int64, len(a)), make([]int64, len(b))
			a8, b8 := make([]uint8, len(a)), make([]uint8, len(b))
			w8 := len(a) == len(b)
			for i, x := range a {
				ai[i], a8[i] = int64(x), uint8(x)
			}
			for i, x := range b {
				bi[i], b8[i] = int64(x), uint8(x)
			}
			for i := 0; w8 && i < n; i++ {
				w8 = a8[i] == b8[i]
			}
			if utils.EqualSliceInt64(ai, bi) != want || utils.EqualSliceUint8(a8, b8) != w8 {
				return in, "EqualSliceInt64 or EqualSliceUint8 is wrong"
			}
			x := edge64(r)
			if n > 0 && r.Intn(2) == 0 {
				x = a[r.Intn(n)]
			}
			is, max, dis := false, uint64(0), true
			ints := make([]int, n)
			for i, y := range a {
				ints[i] = int(y)
				is = is || x == y
				if y > max {
					max = y
				}
				for _, z := range a[:i] {
					dis = dis && z != y
				}
			}
			if utils.IsInSliceUint64(x, a) != is || utils.IsInSliceInt(int(x), ints) != is {
				return in, fmt.Sprintf("membership of %d is reported as %v", x, !is)
			}
			if utils.MaxSliceUint64(a) != max {
				return in, "MaxSliceUint64"
			}
			if utils.AllDistinct(a) != dis {
				return in, "AllDistinct"
			}
			return in, ""
		})
		v.Run("rotations", 3000, func(r *rand.Rand) (string, string) {
			n := r.Intn(41)
			k := 0
			if n > 0 {
				k = r.Intn(6*n+1) - 3*n
			}
			u := small(r, n)
			i64, f, c := make([]int64, n), make([]float64, n), make([]complex128, n)
			for i := range u {
				i64[i], f[i], c[i] = int64(u[i]), float64(u[i]), complex(float64(u[i]), float64(i))
			}
			u0 := append([]uint64{}, u...)
			in := In("s=%d k=%d", u, k)
			ru, ri, rf, rc := utils.RotateUint64Slice(u, k), utils.RotateInt64Slice(i64, k), utils.RotateFloat64Slice(f, k), utils.RotateComplex128Slice(c, k)
			if len(ru) != n || len(ri) != n || len(rf) != n || len(rc) != n {
				return in, "wrong length"
			}
			for i := 0; i < n; i++ {
				j := rot(n, k, i)
				if ru[i] != u[j] || ri[i] != i64[j] || rf[i] != f[j] || rc[i] != c[j] {
					return in, fmt.Sprintf("element %d is not element %d of the input", i, j)
				}
			}
			for _, p := range [][2]interface{}{{u, ru}, {i64, ri}, {f, rf}, {c, rc}} {
				if n > 0 && !reflect.DeepEqual(utils.RotateSlice(p[0], k), p[1]) {
					return in, fmt.Sprintf("RotateSlice on %T", p[0])
				}
			}
			if n >= 2 {
				s := utils.RotateUint64Slots(u, k)
				h := n / 2
				for i := range s {
					w := 0
					if i < h {
						w = rot(h, k, i)
					} else {
						w = h + rot(n-h, k, i-h)
					}
					if s[i] != u[w] {
						return in, fmt.Sprintf("RotateUint64Slots: slot %d is not slot %d", i, w)
					}
				}
				s[0]++
			}
			for i := range ru {
				ru[i], ri[i], rf[i], rc[i] = ru[i]+7, ri[i]+7, rf[i]+7e18, rc[i]+1
			}
			for i := range u {
				if u[i] != u0[i] || i64[i] != int64(u0[i]) || f[i] != float64(u0[i]) || real(c[i]) != float64(u0[i]) {
					return in, "the result shares memory with the input, or the input changed"
				}
			}
			return in, ""
		})
		v.Run("bits", 200000, func(r *rand.Rand) (string, string) {
			b := uint64(1 + r.Intn(64))
			x, y := edge64(r), edge64(r)
			in := In("x=%d y=%d bitLen=%d", x, y, b)
			z := x
			if b < 64 {
				z &= 1<<b - 1
			}
			w := uint64(0)
			for i := uint64(0); i < b; i++ {
				w = w<<1 | z>>i&1
			}
			if g := utils.BitReverse64(z, b); g != w {
				return in, fmt.Sprintf("BitReverse64(%d) = %d, want %d", z, g, w)
			}
			if g := utils.HammingWeight64(x); g != uint64(bits.OnesCount64(x)) {
				return in, fmt.Sprintf("HammingWeight64 = %d", g)
			}
			mn, mx := x, y
			if y < x {
				mn, mx = y, x
			}
			if utils.MinUint64(x, y) != mn || utils.MaxUint64(x, y) != mx {
				return in, "MinUint64 / MaxUint64"
			}
			im, iM := int(x), int(y)
			if iM < im {
				im, iM = iM, im
			}
			if utils.MinInt(int(x), int(y)) != im || utils.MaxInt(int(x), int(y)) != iM {
				return in, "MinInt / MaxInt"
			}
			return in, ""
		})
	})
}
