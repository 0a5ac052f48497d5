package driver

import (
	"math/big"
	"math/rand"
	"testing"

	"fast-ksw/ring"
)

func TestVerifC02(t *testing.T) {
	verifMain(t, "random and boundary moduli up to 63 bits; distinct = distinct argument tuples", func(v *V) {
		v.Run("BRedParams", 100000, func(r *rand.Rand) (string, string) {
			q := anyModulus(r, 63)
			if r.Intn(4) == 0 {
				q = 2 + uint64(r.Intn(1000))
			}
			in := In("BRedParams(%d)", q)
			w := bredBig(q)
			g := ring.BRedParams(q)
			if len(g) != 2 || g[0] != w[0] || g[1] != w[1] {
				return in, bad("got %v want %v", g, w)
			}
			return in, ""
		})
		v.Run("MRedParams", 200000, func(r *rand.Rand) (string, string) {
			q := edge64(r) | 1
			in := In("MRedParams(%d)", q)
			if g := ring.MRedParams(q); g*q != 1 {
				return in, bad("got %d, whose product with q is %d mod 2^64", g, g*q)
			}
			return in, ""
		})
		v.Run("PowerOf2", 200000, func(r *rand.Rand) (string, string) {
			q := oddModulus(r, 63)
			n := r.Intn(65)
			x := residue(r, q)
			in := In("PowerOf2(%d, %d, q=%d)", x, n, q)
			g := ring.PowerOf2(x, n, q, qinvBig(q))
			gr := new(big.Int).Lsh(bu(g), 64)
			if g >= q || !congBig(gr, new(big.Int).Lsh(bu(x), uint(n)), q) {
				return in, bad("got %d", g)
			}
			return in, ""
		})
	})
}
