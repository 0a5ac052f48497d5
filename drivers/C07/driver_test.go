package driver

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"fast-ksw/ckks"
	"fast-ksw/ring"
	"fast-ksw/rlwe"
	"fast-ksw/utils"
)

type codec interface {
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

func poly(r *rand.Rand, logN int) *ring.Poly {
	p := &ring.Poly{Coeffs: make([][]uint64, 1+r.Intn(5)), IsNTT: r.Intn(2) == 0, IsMForm: r.Intn(2) == 0}
	for i := range p.Coeffs {
		p.Coeffs[i] = make([]uint64, 1<<uint(logN))
		for k := range p.Coeffs[i] {
			p.Coeffs[i][k] = edge64(r)
		}
	}
	return p
}

func polyQP(r *rand.Rand, logN int) (p rlwe.PolyQP) {
	switch r.Intn(4) {
	case 0:
		p.Q = poly(r, logN)
	case 1:
		p.P = poly(r, logN)
	default:
		p.Q, p.P = poly(r, logN), poly(r, logN)
	}
	return
}

func swk(r *rand.Rand, logN int) *rlwe.SwitchingKey {
	s := &rlwe.SwitchingKey{Value: make([][2]rlwe.PolyQP, 1+r.Intn(4))}
	for i := range s.Value {
		s.Value[i] = [2]rlwe.PolyQP{polyQP(r, logN), polyQP(r, logN)}
	}
	return s
}

func ct(r *rand.Rand, logN int) *rlwe.Ciphertext {
	c := &rlwe.Ciphertext{}
	for i := 0; i <= r.Intn(4); i++ {
		c.Value = append(c.Value, poly(r, logN))
	}
	return c
}

func rot(r *rand.Rand, logN int) *rlwe.RotationKeySet {
	s := &rlwe.RotationKeySet{Keys: map[uint64]*rlwe.SwitchingKey{}}
	for i := r.Intn(4); i >= 0; i-- {
		s.Keys[uint64(r.Uint32()|1)] = swk(r, logN)
	}
	return s
}

func rlk(r *rand.Rand, logN int) *rlwe.RelinearizationKey {
	s := &rlwe.RelinearizationKey{}
	for i := r.Intn(3); i >= 0; i-- {
		s.Keys = append(s.Keys, swk(r, logN))
	}
	return s
}

func params(r *rand.Rand) (rlwe.Parameters, error) {
	logN := 4 + r.Intn(4)
	rt, m := ring.Standard, 2<<uint(logN)
	if r.Intn(2) == 0 {
		rt, m = ring.ConjugateInvariant, 4<<uint(logN)
	}
	all := genModuli(r, m, 6, 60)
	n := 1 + r.Intn(len(all))
	return rlwe.NewParameters(logN, all[:n], all[n:], 1+r.Intn(1<<uint(logN)), 0.5+r.Float64()*10, rt)
}

func equalP(a, b rlwe.Parameters) string {
	if a.LogN() != b.LogN() || a.HammingWeight() != b.HammingWeight() || a.Sigma() != b.Sigma() || a.RingType() != b.RingType() ||
		fmt.Sprint(a.Q()) != fmt.Sprint(b.Q()) || fmt.Sprint(a.P()) != fmt.Sprint(b.P()) || !a.Equals(b) || !b.Equals(a) {
		return fmt.Sprintf("decoded logN=%d h=%d sigma=%v type=%v Q=%d P=%d", a.LogN(), a.HammingWeight(), a.Sigma(), a.RingType(), a.Q(), a.P())
	}
	if bad := equalR(a.RingQ(), b.RingQ()); bad != "" {
		return "Q: " + bad
	}
	return equalR(a.RingP(), b.RingP())
}

func equalR(a, b *ring.Ring) string {
	if (a == nil) != (b == nil) {
		return "one ring is nil"
	}
	if a == nil {
		return ""
	}
	x, y := *a, *b
	if x.ModulusBigint.Cmp(y.ModulusBigint) != 0 {
		return "different modulus"
	}
	x.ModulusBigint, y.ModulusBigint = nil, nil
	if !reflect.DeepEqual(x, y) {
		return fmt.Sprintf("different rings (NTT %T, %T)", a.NumberTheoreticTransformer, b.NumberTheoreticTransformer)
	}
	return ""
}

// accepted tells whether decoding data succeeds (an error or a panic is a refusal).
func accepted(c codec, data []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return c.UnmarshalBinary(data) == nil
}

// roundTrip encodes x and decodes it into fresh and into used receivers.
func roundTrip(r *rand.Rand, name string, x codec, used []codec, fresh func() codec, wantLen int, prefixes bool) (string, string) {
	in := In("%s %s", name, show(x))
	data, err := x.MarshalBinary()
	if err != nil {
		return in, "encoding fails: " + err.Error()
	}
	if wantLen >= 0 && len(data) != wantLen {
		return in, fmt.Sprintf("%d bytes, announced %d", len(data), wantLen)
	}
	d2, err := x.MarshalBinary()
	if _, isRot := x.(*rlwe.RotationKeySet); err != nil || (!isRot && fmt.Sprint(d2) != fmt.Sprint(data)) {
		return in, "a second encoding differs"
	}
	for i, y := range append(used, fresh()) {
		in0 := append([]byte{}, data...)
		if err := y.UnmarshalBinary(in0); err != nil {
			return in, "decoding fails: " + err.Error()
		}
		if fmt.Sprint(in0) != fmt.Sprint(data) {
			return in, "decoding changes its input"
		}
		if !reflect.DeepEqual(x, y) {
			return in, fmt.Sprintf("receiver %d (of %d used, then a fresh one): decoded %s", i, len(used), show(y))
		}
		for k := range in0 {
			in0[k] ^= 0xff
		}
		if !reflect.DeepEqual(x, y) {
			return in, "the decoded object shares memory with the encoding"
		}
	}
	if prefixes {
		n := r.Intn(len(data))
		if accepted(fresh(), data[:n:n]) {
			return in, fmt.Sprintf("the first %d of %d bytes are accepted", n, len(data))
		}
	}
	return in, ""
}

func showPoly(p *ring.Poly) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprintf("{ntt=%v mform=%v %v}", p.IsNTT, p.IsMForm, p.Coeffs)
}

func showQP(p rlwe.PolyQP) string { return "Q:" + showPoly(p.Q) + " P:" + showPoly(p.P) }

func showSwk(k *rlwe.SwitchingKey) string {
	s := ""
	for _, e := range k.Value {
		s += "[" + showQP(e[0]) + ", " + showQP(e[1]) + "]"
	}
	return s
}

func show(x codec) (s string) {
	switch x := x.(type) {
	case *ring.Poly:
		return showPoly(x)
	case *rlwe.Ciphertext:
		for _, p := range x.Value {
			s += showPoly(p)
		}
	case *ckks.Ciphertext:
		s = fmt.Sprintf("scale=%v ", x.Scale)
		for _, p := range x.Value {
			s += showPoly(p)
		}
	case *rlwe.SecretKey:
		return showQP(x.Value)
	case *rlwe.PublicKey:
		return showQP(x.Value[0]) + showQP(x.Value[1])
	case *rlwe.SwitchingKey:
		return showSwk(x)
	case *rlwe.RelinearizationKey:
		for _, k := range x.Keys {
			s += showSwk(k)
		}
	case *rlwe.RotationKeySet:
		for g, k := range x.Keys {
			s += fmt.Sprintf("%d:%s", g, showSwk(k))
		}
	}
	return s
}

func TestVerif(t *testing.T) {
	verifMain(t, "random polynomials (1..5 rows, degree 4..32), keys with either part absent, ciphertexts of degree 0..3, parameter sets of both ring types; fresh and used receivers and buffers, truncated encodings; oracle: structural equality", func(v *V) {
		v.Run("Buffer", 200, func(r *rand.Rand) (string, string) {
			old := make([]byte, r.Intn(2)*40) // recycled memory with old contents
			r.Read(old)
			b := utils.NewBuffer(old[:0])
			a8, a64 := make([]uint8, r.Intn(5)), make([]uint64, r.Intn(5))
			for i := range a8 {
				a8[i] = uint8(edge64(r))
			}
			for i := range a64 {
				a64[i] = edge64(r)
			}
			x, y := uint8(edge64(r)), edge64(r)
			in := In("Buffer %v %v %v %v", x, a64, y, a8)
			b.WriteUint8(x)
			b.WriteUint64Slice(a64)
			b.WriteUint64(y)
			b.WriteUint8Slice(a8)
			if len(b.Bytes()) != 9+8*len(a64)+len(a8) {
				return in, fmt.Sprintf("%d bytes", len(b.Bytes()))
			}
			c := utils.NewBuffer(b.Bytes())
			g8, g64 := make([]uint8, len(a8)), make([]uint64, len(a64))
			gx := c.ReadUint8()
			c.ReadUint64Slice(g64)
			gy := c.ReadUint64()
			c.ReadUint8Slice(g8)
			if gx != x || gy != y || fmt.Sprint(g8) != fmt.Sprint(a8) || fmt.Sprint(g64) != fmt.Sprint(a64) || len(c.Bytes()) != 0 {
				return in, fmt.Sprintf("read %v %v %v %v", gx, g64, gy, g8)
			}
			return in, ""
		})
		v.Run("Poly", 150, func(r *rand.Rand) (string, string) {
			p := poly(r, 2+r.Intn(4))
			return roundTrip(r, "Poly", p, []codec{poly(r, 2+r.Intn(4)), poly(r, 2)}, func() codec { return new(ring.Poly) }, p.GetDataLen(true), true)
		})
		v.Run("Poly.WriteTo", 150, func(r *rand.Rand) (string, string) {
			p := poly(r, 2+r.Intn(4))
			w32 := r.Intn(2) == 0
			n := p.GetDataLen(true)
			if w32 {
				for _, c := range p.Coeffs {
					for k := range c {
						c[k] &= 1<<32 - 1
					}
				}
				n = p.GetDataLen32(true)
			}
			in := In("WriteTo into a used buffer (32 bits: %v) %s", w32, showPoly(p))
			data := make([]byte, n+r.Intn(9))
			r.Read(data)
			tail := append([]byte{}, data[n:]...)
			write, q := p.WriteTo, poly(r, 2+r.Intn(3))
			if r.Intn(2) == 0 {
				q = new(ring.Poly)
			}
			read := q.DecodePolyNew
			if w32 {
				write, read = p.WriteTo32, q.DecodePolyNew32
			}
			if k, err := write(data); err != nil || k != n {
				return in, fmt.Sprintf("wrote %d bytes (%v), announced %d", k, err, n)
			}
			if fmt.Sprint(tail) != fmt.Sprint(data[n:]) {
				return in, "wrote beyond the announced length"
			}
			if _, err := write(make([]byte, n-1)); err == nil {
				return in, "a buffer one byte too short is accepted"
			}
			if k, err := read(data); err != nil || k != n || !reflect.DeepEqual(p, q) {
				return in, fmt.Sprintf("read %d bytes (%v): %s", k, err, showPoly(q))
			}
			return in, ""
		})
		v.Run("coefficients", 100, func(r *rand.Rand) (string, string) {
			p := poly(r, 2+r.Intn(4))
			N, rows := len(p.Coeffs[0]), len(p.Coeffs)
			in := In("WriteCoeffsTo, DecodeCoeffs %v", p.Coeffs)
			off := r.Intn(20)
			data := make([]byte, off+8*N*rows+3)
			r.Read(data)
			d0 := append([]byte{}, data...)
			k, err := ring.WriteCoeffsTo(off, N, rows, p.Coeffs, data)
			if err != nil || k != off+8*N*rows || fmt.Sprint(d0[:off]) != fmt.Sprint(data[:off]) || fmt.Sprint(d0[k:]) != fmt.Sprint(data[k:]) {
				return in, fmt.Sprintf("pointer %d, %v", k, err)
			}
			q := poly(r, 0)
			q.Coeffs = make([][]uint64, rows)
			if r.Intn(2) == 0 {
				k, err = ring.DecodeCoeffsNew(off, N, rows, q.Coeffs, data)
			} else {
				for i := range q.Coeffs {
					q.Coeffs[i] = make([]uint64, N)
				}
				k, err = ring.DecodeCoeffs(off, N, rows, q.Coeffs, data)
			}
			if err != nil || k != off+8*N*rows {
				return in, fmt.Sprintf("decoding: pointer %d, %v", k, err)
			}
			if bad := samePoly(q, p); bad != "" {
				return in, bad
			}
			if d := make([]byte, p.GetDataLen(false)); true {
				if k, err := p.WriteCoeffs(d); err != nil || k != len(d) || fmt.Sprint(d) != fmt.Sprint(data[off:off+len(d)]) {
					return in, "WriteCoeffs differs"
				}
			}
			return in, ""
		})
		v.Run("PolyQP", 150, func(r *rand.Rand) (string, string) {
			p, q := polyQP(r, 2+r.Intn(3)), polyQP(r, 2+r.Intn(3))
			in := In("PolyQP %s into %s", showQP(p), showQP(q))
			n := p.GetDataLen(true)
			data := make([]byte, n)
			r.Read(data)
			data[0], data[1] = byte(r.Intn(2)), byte(r.Intn(2))
			if k, err := p.WriteTo(data); err != nil || k != n {
				return in, fmt.Sprintf("wrote %d bytes (%v), announced %d", k, err, n)
			}
			if k, err := q.DecodePolyNew(data); err != nil || k != n || !reflect.DeepEqual(p, q) {
				return in, fmt.Sprintf("read %d bytes (%v): %s", k, err, showQP(q))
			}
			return in, ""
		})
		v.Run("SecretKey", 80, func(r *rand.Rand) (string, string) {
			p := &rlwe.SecretKey{Value: polyQP(r, 3)}
			return roundTrip(r, "SecretKey", p, []codec{&rlwe.SecretKey{Value: polyQP(r, 2)}}, func() codec { return new(rlwe.SecretKey) }, p.GetDataLen(true), true)
		})
		v.Run("PublicKey", 80, func(r *rand.Rand) (string, string) {
			mk := func() *rlwe.PublicKey { return &rlwe.PublicKey{Value: [2]rlwe.PolyQP{polyQP(r, 3), polyQP(r, 3)}} }
			p := mk()
			return roundTrip(r, "PublicKey", p, []codec{mk()}, func() codec { return new(rlwe.PublicKey) }, p.GetDataLen(true), true)
		})
		v.Run("SwitchingKey", 80, func(r *rand.Rand) (string, string) {
			p := swk(r, 3)
			return roundTrip(r, "SwitchingKey", p, []codec{swk(r, 2), swk(r, 3)}, func() codec { return new(rlwe.SwitchingKey) }, p.GetDataLen(true), true)
		})
		v.Run("RelinearizationKey", 60, func(r *rand.Rand) (string, string) {
			p := rlk(r, 2)
			return roundTrip(r, "RelinearizationKey", p, []codec{rlk(r, 3)}, func() codec { return new(rlwe.RelinearizationKey) }, p.GetDataLen(true), true)
		})
		v.Run("RotationKeySet", 60, func(r *rand.Rand) (string, string) {
			p := rot(r, 2)
			return roundTrip(r, "RotationKeySet", p, []codec{rot(r, 3)}, func() codec { return new(rlwe.RotationKeySet) }, p.GetDataLen(true), false)
		})
		v.Run("Ciphertext", 100, func(r *rand.Rand) (string, string) {
			p := ct(r, 2+r.Intn(3))
			return roundTrip(r, "rlwe.Ciphertext", p, []codec{ct(r, 2), ct(r, 4)}, func() codec { return new(rlwe.Ciphertext) }, p.GetDataLen(true), true)
		})
		v.Run("ckks.Ciphertext", 100, func(r *rand.Rand) (string, string) {
			mk := func() *ckks.Ciphertext {
				return &ckks.Ciphertext{Ciphertext: ct(r, 3), Scale: r.NormFloat64() * float64(uint64(1)<<uint(r.Intn(60)))}
			}
			p := mk()
			return roundTrip(r, "ckks.Ciphertext", p, []codec{mk()}, func() codec { return new(ckks.Ciphertext) }, p.GetDataLen(true), true)
		})
		v.Run("rlwe.Parameters", 80, func(r *rand.Rand) (string, string) {
			p, err := params(r)
			in := In("rlwe.Parameters logN=%d Q=%d P=%d h=%d sigma=%v type=%v", p.LogN(), p.Q(), p.P(), p.HammingWeight(), p.Sigma(), p.RingType())
			if err != nil {
				return in, "rejected: " + err.Error()
			}
			data, err := p.MarshalBinary()
			if err != nil || len(data) != p.MarshalBinarySize() {
				return in, fmt.Sprintf("%d bytes, announced %d (%v)", len(data), p.MarshalBinarySize(), err)
			}
			q, _ := params(r)
			if r.Intn(2) == 0 {
				q = rlwe.Parameters{}
			}
			j := q
			if err := q.UnmarshalBinary(data); err != nil {
				return in, "decoding fails: " + err.Error()
			}
			if bad := equalP(q, p); bad != "" {
				return in, bad
			}
			if n := r.Intn(len(data)); accepted(new(rlwe.Parameters), data[:n:n]) {
				return in, fmt.Sprintf("the first %d of %d bytes are accepted", n, len(data))
			}
			js, err := json.Marshal(p)
			if err != nil {
				return in, "JSON encoding fails: " + err.Error()
			}
			if err := json.Unmarshal(js, &j); err != nil {
				return in, "JSON decoding fails: " + err.Error()
			}
			if bad := equalP(j, p); bad != "" {
				return in, "JSON: " + bad
			}
			return in, ""
		})
		v.Run("ckks.Parameters", 80, func(r *rand.Rand) (string, string) {
			p0, err := params(r)
			if err != nil {
				return "params", "rejected: " + err.Error()
			}
			max := p0.LogN() - 1
			if p0.RingType() == ring.ConjugateInvariant {
				max++
			}
			p, err := ckks.NewParameters(p0, 1+r.Intn(max), 1+r.Float64()*float64(uint64(1)<<uint(r.Intn(60))))
			in := In("ckks.Parameters logN=%d Q=%d P=%d logSlots=%d scale=%v type=%v", p.LogN(), p.Q(), p.P(), p.LogSlots(), p.DefaultScale(), p.RingType())
			if err != nil {
				return in, "rejected: " + err.Error()
			}
			data, err := p.MarshalBinary()
			if err != nil || len(data) != p.MarshalBinarySize() {
				return in, fmt.Sprintf("%d bytes, announced %d (%v)", len(data), p.MarshalBinarySize(), err)
			}
			same := func(q ckks.Parameters) string {
				if q.LogSlots() != p.LogSlots() || q.DefaultScale() != p.DefaultScale() || !q.Equals(p) {
					return fmt.Sprintf("decoded logSlots=%d scale=%v", q.LogSlots(), q.DefaultScale())
				}
				return equalP(q.Parameters, p.Parameters)
			}
			var q, j ckks.Parameters
			if err := q.UnmarshalBinary(data); err != nil {
				return in, "decoding fails: " + err.Error()
			}
			if bad := same(q); bad != "" {
				return in, bad
			}
			n := r.Intn(len(data))
			if r.Intn(2) == 0 {
				n = len(data) - 1 - r.Intn(9)
			}
			if accepted(new(ckks.Parameters), data[:n:n]) {
				return in, fmt.Sprintf("the first %d of %d bytes are accepted", n, len(data))
			}
			js, err := json.Marshal(p)
			if err != nil {
				return in, "JSON encoding fails: " + err.Error()
			}
			if err := json.Unmarshal(js, &j); err != nil {
				return in, "JSON decoding fails: " + err.Error()
			}
			if bad := same(j); bad != "" {
				return in, "JSON: " + bad
			}
			if j.UnmarshalJSON([]byte(`{"LogN":5,"RingType":"Other","Q":[193],"P":[257]}`)) == nil {
				return in, "JSON with an unknown ring type is accepted"
			}
			return in, ""
		})
		v.Run("Ring", 60, func(r *rand.Rand) (string, string) {
			p, err := params(r)
			if err != nil {
				return "params", "rejected: " + err.Error()
			}
			R := p.RingQ()
			in := In("Ring N=%d Q=%d type=%v", R.N, R.Modulus, R.Type())
			data, err := R.MarshalBinary()
			if err != nil {
				return in, "encoding fails: " + err.Error()
			}
			S := new(ring.Ring)
			if r.Intn(2) == 0 {
				p2, _ := params(r)
				S = p2.RingQ()
			}
			if err := S.UnmarshalBinary(data); err != nil {
				return in, "decoding fails: " + err.Error()
			}
			return in, equalR(S, R)
		})
	})
}
