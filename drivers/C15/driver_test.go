package driver

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
)

// words lists pointers to every word (and flag) reachable from x through exported fields.
func words(v reflect.Value, out *[]reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			words(v.Elem(), out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			words(v.Index(i), out)
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			words(it.Value(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				words(v.Field(i), out)
			}
		}
	case reflect.Uint64, reflect.Bool, reflect.Float64:
		if v.CanSet() {
			*out = append(*out, v)
		}
	}
}

func snapshot(x interface{}) string {
	var w []reflect.Value
	words(reflect.ValueOf(x), &w)
	s := make([]interface{}, len(w))
	for i := range w {
		s[i] = w[i].Interface()
	}
	return fmt.Sprint(s)
}

func scramble(x interface{}) {
	var w []reflect.Value
	words(reflect.ValueOf(x), &w)
	for _, v := range w {
		switch v.Kind() {
		case reflect.Uint64:
			v.SetUint(^v.Uint() + 5)
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.Float64:
			v.SetFloat(v.Float() + 1)
		}
	}
}

// independent: the copy equals the original, and changing every word of one leaves the other alone.
func independent(orig, cp interface{}) string {
	if !reflect.DeepEqual(orig, cp) {
		return "the copy differs from the original"
	}
	s := snapshot(orig)
	scramble(cp)
	if snapshot(orig) != s {
		return "changing the copy changes the original"
	}
	s = snapshot(cp)
	scramble(orig)
	if snapshot(cp) != s {
		return "changing the original changes the copy"
	}
	return ""
}

func poly(r *rand.Rand, N, n int) *ring.Poly {
	p := ring.NewPoly(N, n)
	for i := range p.Coeffs {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = edge64(r)
		}
	}
	p.IsNTT, p.IsMForm = r.Intn(2) == 0, r.Intn(2) == 0
	return p
}

func qp(r *rand.Rand) rlwe.PolyQP {
	var x rlwe.PolyQP
	N := 1 << uint(r.Intn(5))
	if r.Intn(6) > 0 {
		x.Q = poly(r, N, 1+r.Intn(4))
	}
	if r.Intn(4) > 0 {
		x.P = poly(r, N, 1+r.Intn(3))
	}
	return x
}

func swk(r *rand.Rand) *rlwe.SwitchingKey {
	k := &rlwe.SwitchingKey{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		k.Value = append(k.Value, [2]rlwe.PolyQP{qp(r), qp(r)})
	}
	return k
}

// change makes one small change somewhere in x; false if there is no word to change.
func change(r *rand.Rand, x interface{}) bool {
	var w, u []reflect.Value
	words(reflect.ValueOf(x), &w)
	for _, v := range w {
		if v.Kind() == reflect.Uint64 {
			u = append(u, v)
		}
	}
	if len(u) == 0 {
		return false
	}
	v := u[r.Intn(len(u))]
	v.SetUint(v.Uint() ^ 1<<uint(r.Intn(64)))
	return true
}

func TestVerifC15(t *testing.T) {
	verifMain(t, "polynomials with 1..16 coefficients and 0..4 rows of arbitrary words and flags, with missing Q or P part; keys and ciphertexts built from them; distinct = distinct inputs", func(v *V) {
		v.Run("new polynomials", 300, func(r *rand.Rand) (string, string) {
			N, n := r.Intn(20), r.Intn(6)
			in := In("N=%d rows=%d", N, n)
			p := ring.NewPoly(N, n)
			if len(p.Coeffs) != n || p.IsNTT || p.IsMForm {
				return in, "shape"
			}
			for i := range p.Coeffs {
				if len(p.Coeffs[i]) != N {
					return in, "shape"
				}
				for j, c := range p.Coeffs[i] {
					if c != 0 {
						return in, "not zero"
					}
					p.Coeffs[i][j] = uint64(i*100+j) + 1
				}
			}
			for i := range p.Coeffs {
				for j, c := range p.Coeffs[i] {
					if c != uint64(i*100+j)+1 {
						return in, "rows share memory"
					}
				}
			}
			p.IsNTT = true
			p.Zero()
			for i := range p.Coeffs {
				for _, c := range p.Coeffs[i] {
					if c != 0 {
						return in, "Zero leaves a coefficient"
					}
				}
			}
			return in, ""
		})
		v.Run("polynomial copies", 1000, func(r *rand.Rand) (string, string) {
			N := 1 + r.Intn(16)
			p, q := poly(r, N, r.Intn(5)), poly(r, N, r.Intn(5))
			in := In("p=%v q=%v", *p, *q)
			s := snapshot(p)
			if bad := independent(p, p.CopyNew()); bad != "" {
				return in, "CopyNew: " + bad
			}
			p = poly(r, N, r.Intn(5))
			s = snapshot(p)
			g := p.GetCoefficients()
			if !reflect.DeepEqual(g, p.Coeffs) {
				return in, "GetCoefficients"
			}
			scramble(&g)
			if snapshot(p) != s {
				return in, "GetCoefficients shares memory"
			}
			n := len(p.Coeffs)
			if len(q.Coeffs) < n {
				n = len(q.Coeffs)
			}
			lvl := n - 1
			how, flags := r.Intn(7), false
			before := [][]uint64{}
			for i := range q.Coeffs {
				before = append(before, append([]uint64{}, q.Coeffs[i]...))
			}
			ntt, mf := q.IsNTT, q.IsMForm
			switch how {
			case 0:
				ring.CopyValues(p, q)
			case 1:
				ring.Copy(p, q)
				flags = true
			case 2, 3:
				if n > 0 {
					lvl = r.Intn(n)
				}
				if how == 2 {
					ring.CopyValuesLvl(lvl, p, q)
				} else {
					ring.CopyLvl(lvl, p, q)
					flags = true
				}
			case 4:
				q.CopyValues(p)
			case 5:
				q.Copy(p)
				flags = true
			case 6:
				q.SetCoefficients(p.Coeffs[:n])
			}
			in = In("p=%v q=%v %v operation %d level %d", *p, before, q.IsNTT, how, lvl)
			if snapshot(p) != s {
				return in, "the source changed"
			}
			for i := range q.Coeffs {
				for j := range q.Coeffs[i] {
					w := before[i][j]
					if i <= lvl {
						w = p.Coeffs[i][j]
					}
					if q.Coeffs[i][j] != w {
						return in, fmt.Sprintf("coefficient %d %d is %d, want %d", i, j, q.Coeffs[i][j], w)
					}
				}
			}
			if flags {
				ntt, mf = p.IsNTT, p.IsMForm
			}
			if q.IsNTT != ntt || q.IsMForm != mf {
				return in, "flags"
			}
			scramble(q)
			if snapshot(p) != s {
				return in, "the copy shares memory with the source"
			}
			return in, ""
		})
		v.Run("polynomial equality", 2000, func(r *rand.Rand) (string, string) {
			N := 1 + r.Intn(16)
			p := poly(r, N, r.Intn(4))
			q := p.CopyNew()
			want := true
			switch r.Intn(5) {
			case 0:
				want = !change(r, q)
			case 1:
				q.Coeffs = append(q.Coeffs, make([]uint64, N))
				want = false
			case 2:
				if i := len(q.Coeffs); i > 0 {
					q.Coeffs[r.Intn(i)] = make([]uint64, N+1)
					want = false
				}
			}
			in := In("p=%v q=%v", *p, *q)
			if p.Equals(q) != want || q.Equals(p) != want || !p.Equals(p) || p.Equals(nil) {
				return in, fmt.Sprintf("Equals is wrong, want %v", want)
			}
			return in, ""
		})
		v.Run("equality in a ring", 400, func(r *rand.Rand) (string, string) {
			rg := genRing(r, 5, 4, 61)
			lvl := len(rg.Modulus) - 1
			p, q := rg.NewPoly(), rg.NewPoly()
			for i, m := range rg.Modulus {
				for j := range p.Coeffs[i] {
					x := residue(r, m)
					p.Coeffs[i][j] = x + m*uint64(r.Intn(7))
					q.Coeffs[i][j] = x + m*uint64(r.Intn(7))
				}
			}
			want := true
			at := r.Intn(lvl + 1)
			if r.Intn(2) == 0 {
				q.Coeffs[at][r.Intn(rg.N)] += 1
				want = false
			}
			l := r.Intn(lvl + 1)
			in := In("moduli %v, %v and %v, level %d", rg.Modulus, p.Coeffs, q.Coeffs, l)
			if got := rg.EqualLvl(l, p.CopyNew(), q.CopyNew()); got != (want || at > l) {
				return in, fmt.Sprintf("EqualLvl = %v", got)
			}
			if got := rg.Equal(p, q); got != want {
				return in, fmt.Sprintf("Equal = %v", got)
			}
			return in, ""
		})
		v.Run("QP polynomials and keys", 600, func(r *rand.Rand) (string, string) {
			x := qp(r)
			y := x.CopyNew()
			in := In("Q=%v P=%v", x.Q, x.P)
			if !x.Equals(y) || !y.Equals(x) {
				return in, "PolyQP: a copy is not equal to the original"
			}
			z := x.CopyNew()
			if change(r, &z) && (x.Equals(z) || z.Equals(x)) {
				return in, fmt.Sprintf("PolyQP: equal to a different polynomial Q=%v P=%v", z.Q, z.P)
			}
			w := x.CopyNew()
			if r.Intn(2) == 0 && w.Q != nil {
				w.Q = nil
			} else {
				w.P = nil
			}
			if same := (w.Q == nil) == (x.Q == nil) && (w.P == nil) == (x.P == nil); x.Equals(w) != same || w.Equals(x) != same {
				return in, "PolyQP: equal to a polynomial without one part"
			}
			d := x.CopyNew()
			scramble(&d)
			d.Copy(x)
			if !reflect.DeepEqual(d, x) {
				return in, "PolyQP.Copy"
			}
			scramble(&d)
			d.CopyValues(x)
			if !d.Equals(x) {
				return in, "PolyQP.CopyValues"
			}
			if bad := independent(&x, &y); bad != "" {
				return in, "PolyQP.CopyNew: " + bad
			}
			sk := &rlwe.SecretKey{Value: qp(r)}
			pk := &rlwe.PublicKey{Value: [2]rlwe.PolyQP{qp(r), qp(r)}}
			k := swk(r)
			rlk := &rlwe.RelinearizationKey{Keys: []*rlwe.SwitchingKey{swk(r), swk(r)}}
			in = In("keys %s %s %s %s", snapshot(sk), snapshot(pk), snapshot(k), snapshot(rlk))
			pk2, k2, rlk2 := pk.CopyNew(), k.CopyNew(), rlk.CopyNew()
			rt := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{3: swk(r), 5: swk(r)}}
			rt2 := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{5: rt.Keys[5].CopyNew(), 3: rt.Keys[3].CopyNew()}}
			if !pk.Equals(pk2) || !k.Equals(k2) || !rlk.Equals(rlk2) || !rt.Equals(rt2) || !rt.Includes(rt2) {
				return in, "a copy of a key is not equal to the original"
			}
			if change(r, pk2) && pk.Equals(pk2) || change(r, k2) && k.Equals(k2) || change(r, rlk2) && rlk.Equals(rlk2) || change(r, rt2) && rt.Equals(rt2) {
				return in, "a key is equal to a different key"
			}
			k2.Value = k2.Value[:len(k2.Value)-1]
			if k.Equals(k2) || k2.Equals(k) {
				return in, "switching keys of different sizes are equal"
			}
			delete(rt2.Keys, 3)
			rt2.Keys[7] = rt.Keys[3]
			if rt.Equals(rt2) || rt.Includes(rt2) {
				return in, "rotation key sets for different elements are equal"
			}
			for _, p := range [][2]interface{}{{sk, sk.CopyNew()}, {pk, pk.CopyNew()}, {k, k.CopyNew()}, {rlk, rlk.CopyNew()}} {
				if bad := independent(p[0], p[1]); bad != "" {
					return in, fmt.Sprintf("%T.CopyNew: %s", p[0], bad)
				}
			}
			return in, ""
		})
		v.Run("ciphertexts", 600, func(r *rand.Rand) (string, string) {
			N, l := 1<<uint(r.Intn(5)), 1+r.Intn(4)
			ct := &rlwe.Ciphertext{}
			other := &rlwe.Ciphertext{}
			for i := 1 + r.Intn(3); i > 0; i-- {
				ct.Value = append(ct.Value, poly(r, N, l))
				other.Value = append(other.Value, poly(r, N, l))
			}
			in := In("%s", snapshot(ct))
			other.Copy(ct)
			if !reflect.DeepEqual(other, ct) {
				return in, "Ciphertext.Copy"
			}
			if bad := independent(ct, other); bad != "" {
				return in, "Ciphertext.Copy: " + bad
			}
			if bad := independent(ct, ct.CopyNew()); bad != "" {
				return in, "Ciphertext.CopyNew: " + bad
			}
			c := &ckks.Ciphertext{Ciphertext: ct, Scale: r.Float64()}
			if bad := independent(c, c.CopyNew()); bad != "" {
				return in, "ckks Ciphertext.CopyNew: " + bad
			}
			pt := &rlwe.Plaintext{Value: poly(r, N, l)}
			p2 := &rlwe.Plaintext{Value: poly(r, N, l)}
			p2.Copy(pt)
			if bad := independent(pt, p2); bad != "" {
				return in, "Plaintext.Copy: " + bad
			}
			return in, ""
		})
	})
}
