package driver

import (
	"math/big"
	"math/rand"
	"testing"

	"fast-ksw/ring"
)

func TestVerifC01(t *testing.T) {
	verifMain(t, "random and boundary (q, x, y) with q<=2^63 within each operation's input bound; distinct = distinct argument tuples", func(v *V) {
		type op struct {
			name string
			odd  bool
			f    func(r *rand.Rand, q uint64) (string, string)
		}
		rng := func(got uint64, lim uint64) string {
			if got >= lim {
				return bad("result %d is not below %d", got, lim)
			}
			return ""
		}
		chk := func(got, lim uint64, want *big.Int, scale bool, q uint64) string {
			if s := rng(got, lim); s != "" {
				return s
			}
			g := bu(got)
			if scale {
				g.Mul(g, bigR64)
			}
			if !congBig(g, want, q) {
				return bad("result %d: wrong residue", got)
			}
			return ""
		}
		mprod := func(r *rand.Rand, q uint64) (x, y uint64) {
			// x*y < q*2^64
			x = edge64(r, q)
			lim := new(big.Int).Mul(bu(q), bigR64)
			if x == 0 {
				return x, edge64(r, q)
			}
			lim.Sub(lim, big.NewInt(1))
			lim.Quo(lim, bu(x))
			if !lim.IsUint64() {
				return x, edge64(r, q)
			}
			m := lim.Uint64()
			if m == ^uint64(0) {
				return x, edge64(r, q)
			}
			if r.Intn(3) == 0 {
				return x, m - uint64(r.Intn(2))%(m+1)
			}
			y = edge64(r, q)
			if y > m {
				y = r.Uint64() % (m + 1)
			}
			return
		}
		ops := []op{
			{"MRed", true, func(r *rand.Rand, q uint64) (string, string) {
				x, y := mprod(r, q)
				s := In("MRed(%d, %d, q=%d)", x, y, q)
				return s, chk(ring.MRed(x, y, q, qinvBig(q)), q, new(big.Int).Mul(bu(x), bu(y)), true, q)
			}},
			{"MRedConstant", true, func(r *rand.Rand, q uint64) (string, string) {
				x, y := mprod(r, q)
				s := In("MRedConstant(%d, %d, q=%d)", x, y, q)
				return s, chk(ring.MRedConstant(x, y, q, qinvBig(q)), 2*q, new(big.Int).Mul(bu(x), bu(y)), true, q)
			}},
			{"CRed", false, func(r *rand.Rand, q uint64) (string, string) {
				x := edge64(r, q)
				s := In("CRed(%d, q=%d)", x, q)
				want := x
				if x >= q {
					want = x - q
				}
				if g := ring.CRed(x, q); g != want {
					return s, bad("got %d want %d", g, want)
				}
				return s, ""
			}},
			{"MForm", false, func(r *rand.Rand, q uint64) (string, string) {
				x := edge64(r, q)
				s := In("MForm(%d, q=%d)", x, q)
				return s, chk(ring.MForm(x, q, bredBig(q)), q, new(big.Int).Lsh(bu(x), 64), false, q)
			}},
			{"MFormConstant", false, func(r *rand.Rand, q uint64) (string, string) {
				x := edge64(r, q)
				s := In("MFormConstant(%d, q=%d)", x, q)
				return s, chk(ring.MFormConstant(x, q, bredBig(q)), 2*q, new(big.Int).Lsh(bu(x), 64), false, q)
			}},
			{"InvMForm", true, func(r *rand.Rand, q uint64) (string, string) {
				x := edge64(r, q)
				s := In("InvMForm(%d, q=%d)", x, q)
				return s, chk(ring.InvMForm(x, q, qinvBig(q)), q, bu(x), true, q)
			}},
			{"InvMFormConstant", true, func(r *rand.Rand, q uint64) (string, string) {
				x := edge64(r, q)
				s := In("InvMFormConstant(%d, q=%d)", x, q)
				return s, chk(ring.InvMFormConstant(x, q, qinvBig(q)), q+1, bu(x), true, q)
			}},
			{"BRedAdd", false, func(r *rand.Rand, q uint64) (string, string) {
				x := edge64(r, q)
				s := In("BRedAdd(%d, q=%d)", x, q)
				return s, chk(ring.BRedAdd(x, q, bredBig(q)), q, bu(x), false, q)
			}},
			{"BRedAddConstant", false, func(r *rand.Rand, q uint64) (string, string) {
				x := edge64(r, q)
				s := In("BRedAddConstant(%d, q=%d)", x, q)
				return s, chk(ring.BRedAddConstant(x, q, bredBig(q)), 2*q, bu(x), false, q)
			}},
			{"BRed", false, func(r *rand.Rand, q uint64) (string, string) {
				x, y := edge64(r, q), edge64(r, q)
				s := In("BRed(%d, %d, q=%d)", x, y, q)
				return s, chk(ring.BRed(x, y, q, bredBig(q)), q, new(big.Int).Mul(bu(x), bu(y)), false, q)
			}},
			{"BRedConstant", false, func(r *rand.Rand, q uint64) (string, string) {
				x, y := edge64(r, q), edge64(r, q)
				s := In("BRedConstant(%d, %d, q=%d)", x, y, q)
				return s, chk(ring.BRedConstant(x, y, q, bredBig(q)), 2*q, new(big.Int).Mul(bu(x), bu(y)), false, q)
			}},
		}
		for _, o := range ops {
			o := o
			v.Run(o.name, 200000, func(r *rand.Rand) (string, string) {
				q := anyModulus(r, 63)
				if o.odd {
					q |= 1
				}
				return o.f(r, q)
			})
		}
	})
}
