From 579fcdd4626faeaa7905ab10bb55bba58fccd814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 01/29] fix: ring: AddScalar and SubScalar (and their Bigint
 and Lvl forms) write the result on p2, not on p1

---
 ring/ring_operations.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 7882ff4..480a1b8 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -319,7 +319,7 @@ func (r *Ring) AddScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // AddScalarLvl adds a scalar to each coefficient of p1 and writes the result on p2.
 func (r *Ring) AddScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -332,7 +332,7 @@ func (r *Ring) AddScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) AddScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
@@ -344,7 +344,7 @@ func (r *Ring) SubScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // SubScalarLvl subtracts a scalar from each coefficient of p1 and writes the result on p2.
 func (r *Ring) SubScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -357,7 +357,7 @@ func (r *Ring) SubScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) SubScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
-- 
2.43.0


From b5ccff8085bcb3375eae4f46f0bcc81edf88a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 02/29] fix: ring: MulByPow2Lvl multiplies the Montgomery form
 of p1, also when p1 and p2 differ

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 480a1b8..0ca017f 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -444,7 +444,7 @@ func (r *Ring) MulByPow2(p1 *Poly, pow2 int, p2 *Poly) {
 func (r *Ring) MulByPow2Lvl(level int, p1 *Poly, pow2 int, p2 *Poly) {
 	r.MFormLvl(level, p1, p2)
 	for i := 0; i < level+1; i++ {
-		MulByPow2Vec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
+		MulByPow2Vec(p2.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From b9b29434ee3c1ee3ad52f0d6d9218324339fb23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 03/29] fix: ring: Shift reduces n modulo N and copies, instead
 of panicking for n outside [0,N] and aliasing p1 or writing past it

---
 ring/ring_operations.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 0ca017f..9175f64 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -390,9 +390,8 @@ func (r *Ring) MulScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly
 
 // Shift circulary shifts the coefficients of the polynomial p1 by n positions to the left and writes the result on p2.
 func (r *Ring) Shift(p1 *Poly, n int, p2 *Poly) {
-	mask := (1 << r.N) - 1
 	for i := range r.Modulus {
-		p2.Coeffs[i] = append(p1.Coeffs[i][(n&mask):], p1.Coeffs[i][:(n&mask)]...)
+		copy(p2.Coeffs[i][:r.N], utils.RotateUint64Slice(p1.Coeffs[i][:r.N], n))
 	}
 }
 
-- 
2.43.0


From f874ae098cf6be8a011275a5a93d154b61efb324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 04/29] fix: ring: Rotate writes the result on p2, and reduces
 negative n

---
 ring/ring_operations.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 9175f64..cb0dffd 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -581,7 +581,7 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 	var root, gal uint64
 
-	n &= (1 << r.N) - 1
+	n &= int(r.NthRoot) - 1
 
 	for i, qi := range r.Modulus {
 
@@ -593,7 +593,9 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 		gal = MForm(1, qi, r.BredParams[i])
 
-		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N]
+		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N]
+
+		p2tmp[0] = p1tmp[0]
 
 		for j := 1; j < r.N; j++ {
 
-- 
2.43.0


From 968a41b23c21f2c91b5f81c70264a01ac1f29c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 05/29] fix: utils: the slice rotations return a new slice also
 for k = 0

---
 utils/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index daa82d8..be63914 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -164,7 +164,7 @@ func AllDistinct(s []uint64) bool {
 
 // RotateUint64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateUint64Slice(s []uint64, k int) []uint64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -179,7 +179,7 @@ func RotateUint64Slice(s []uint64, k int) []uint64 {
 
 // RotateInt64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateInt64Slice(s []int64, k int) []int64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -204,7 +204,7 @@ func RotateUint64Slots(s []uint64, k int) []uint64 {
 
 // RotateComplex128Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateComplex128Slice(s []complex128, k int) []complex128 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -219,7 +219,7 @@ func RotateComplex128Slice(s []complex128, k int) []complex128 {
 
 // RotateFloat64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateFloat64Slice(s []float64, k int) []float64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
-- 
2.43.0


From b541ea5a49d6853eafc84708c594534e6f33aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 06/29] fix: utils: slices of different lengths are not equal

---
 utils/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index be63914..e8353c3 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -48,6 +48,9 @@ func RandComplex128(min, max float64) complex128 {
 
 // EqualSliceUint64 checks the equality between two uint64 slices.
 func EqualSliceUint64(a, b []uint64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -57,6 +60,9 @@ func EqualSliceUint64(a, b []uint64) (v bool) {
 
 // EqualSliceInt64 checks the equality between two int64 slices.
 func EqualSliceInt64(a, b []int64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -66,6 +72,9 @@ func EqualSliceInt64(a, b []int64) (v bool) {
 
 // EqualSliceUint8 checks the equality between two uint8 slices.
 func EqualSliceUint8(a, b []uint8) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
-- 
2.43.0


From fe6ea98e7bd652c6e9a385b339c59f7215d38e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 07/29] fix: SwitchCiphertextRingDegreeNTT writes the
 smaller-degree result to ctOut, not over ctIn

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index ba1f11e..b3ef2c0 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -168,7 +168,7 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 		pool := make([]uint64, NIn)
 		for i := range ctOut.Value {
 			for j := range ctOut.Value[i].Coeffs {
-				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctOut.Value[i].Coeffs[j]
 				ringQLargeDim.InvNTTSingle(j, tmpIn, pool)
 				for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+1, w1+gap {
 					tmpOut[w0] = pool[w1]
-- 
2.43.0


From 6dbc37d1ff25ce97a11774fb5c8c4a6bb30f2644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 08/29] fix: PolyQP.Equals is false when only one operand has a
 Q or P part

---
 rlwe/ring_qp.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 8756801..085077a 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -35,18 +35,7 @@ type PolyQP struct {
 // This method checks for equality of its two sub-polynomials.
 func (p *PolyQP) Equals(other PolyQP) (v bool) {
 
-	if p == &other {
-		return true
-	}
-
-	v = true
-	if p.Q != nil {
-		v = p.Q.Equals(other.Q)
-	}
-	if p.P != nil {
-		v = v && p.P.Equals(other.P)
-	}
-	return v
+	return p.Q.Equals(other.Q) && p.P.Equals(other.P)
 }
 
 // CopyValues copies the coefficients of p1 on the target polynomial.
-- 
2.43.0


From 3790c4550bf0f927fb84bfe10c3d661f17e1573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 09/29] fix: DivFloorByLastModulusNTTLvl reduces the last row
 before using it

The lazy inverse NTT returns q for a coefficient that is 0 mod q, so exact
multiples of the last modulus were floored to one less.
---
 ring/ring_scaling.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index e05b74e..c9424ab 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -306,7 +306,7 @@ func (ss *SimpleScaler) reconstructAndScale(p1, p2 *Poly) {
 // DivFloorByLastModulusNTTLvl divides (floored) the polynomial by its last modulus. The input must be in the NTT domain.
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivFloorByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[0])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[0])
 	for i := 0; i < level; i++ {
 		r.NTTSingleLazy(i, pool.Coeffs[0], pool.Coeffs[1])
 		// (-x[i] + x[-1]) * -InvQ
-- 
2.43.0


From e6c26ebd55ce97d370738503ff3979806d8441b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:01 +0000
Subject: [PATCH 10/29] fix: SimpleScaler reduces the rounded value modulo t

---
 ring/ring_scaling.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index c9424ab..a538277 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -265,6 +265,9 @@ func (ss *SimpleScaler) reconstructThenScale(p1, p2 *Poly) {
 			coeff.Add(coeff, ss.one)
 		}
 
+		// a value rounded up to t is 0 mod t
+		coeff.Mod(coeff, ss.tBI)
+
 		for j := range p2.Coeffs {
 			p2.Coeffs[j][i] = coeff.Uint64()
 		}
-- 
2.43.0


From d0fc161222ebbfc0220120f2aff2b5914467eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 11/29] fix: decoding a polynomial does not keep flags or rows
 of the receiver or the buffer

A receiver used before kept its NTT and Montgomery flags and its number of
rows, and encoding into a used buffer kept the buffer's flag bytes.
---
 ring/ring_poly.go | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index 8d88a9d..fbdfc71 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -208,6 +208,7 @@ func (pol *Poly) WriteTo(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -234,6 +235,7 @@ func (pol *Poly) WriteTo32(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -329,13 +331,8 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer := 4
 
@@ -357,17 +354,12 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
@@ -385,17 +377,12 @@ func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
-- 
2.43.0


From 12e8f0044c359790a351ce01a6f6211a5fa22587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 12/29] fix: PolyQP encoding and decoding forget an earlier Q
 or P part

Encoding into a used buffer or decoding into a used receiver (also one of a
switching key without a Q or P part) produced a part the polynomial does not have.
---
 rlwe/ring_qp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 085077a..85c2f86 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -355,6 +355,8 @@ func (p *PolyQP) GetDataLen(WithMetadata bool) (dataLen int) {
 func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 	var inc int
 
+	data[0], data[1] = 0, 0
+
 	if p.Q != nil {
 		data[0] = 1
 	}
@@ -388,6 +390,8 @@ func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 	var inc int
 	pt = 2
 
+	p.Q, p.P = nil, nil
+
 	if data[0] == 1 {
 		p.Q = new(ring.Poly)
 		if inc, err = p.Q.DecodePolyNew(data[pt:]); err != nil {
-- 
2.43.0


From e27be4e4615d6f31c69629e50d54c55ea92b35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 13/29] fix: the JSON form of rlwe.Parameters includes the ring
 type

---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 5c10865..5a8c519 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -479,7 +479,7 @@ func (p Parameters) MarshalBinarySize() int {
 
 // MarshalJSON returns a JSON representation of this parameter set. See `Marshal` from the `encoding/json` package.
 func (p Parameters) MarshalJSON() ([]byte, error) {
-	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma})
+	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma, RingType: p.ringType})
 }
 
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
-- 
2.43.0


From fdd9b635dc248f4663394796eb83180425a6bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 14/29] fix: ckks.Parameters.UnmarshalJSON returns the error of
 a malformed input

---
 ckks/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/params.go b/ckks/params.go
index 95e2a9b..0915cf3 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -602,7 +602,9 @@ func (p Parameters) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
 func (p *Parameters) UnmarshalJSON(data []byte) (err error) {
 	var params ParametersLiteral
-	json.Unmarshal(data, &params)
+	if err = json.Unmarshal(data, &params); err != nil {
+		return err
+	}
 	*p, err = NewParametersFromLiteral(params)
 	return
 }
-- 
2.43.0


From 547660bfc17ed8c4e424c1eff945e021b0d5eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:47 +0000
Subject: [PATCH 15/29] fix: Ring.UnmarshalBinary sets the NTT of the ring type

---
 ring/ring.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index b92420e..a23e3c9 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -376,6 +376,14 @@ func (r *Ring) UnmarshalBinary(data []byte) error {
 	if err := r.setParameters(parameters.N, parameters.Modulus); err != nil {
 		return err
 	}
+
+	// the NTT is that of the ring type with this root order
+	if parameters.NthRoot == uint64(parameters.N)<<2 {
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerConjugateInvariant{}
+	} else {
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerStandard{}
+	}
+
 	if err := r.genNTTParams(parameters.NthRoot); err != nil {
 		return err
 	}
-- 
2.43.0


From 7d6dec5a91bb3aa0d6c207385db617650d4afc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 16/29] fix: parameter decoders reject truncated input

ckks.Parameters took the scale of a truncated encoding from the moduli.
---
 ckks/params.go | 3 +++
 rlwe/params.go | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ckks/params.go b/ckks/params.go
index 0915cf3..23b1c5b 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -583,6 +583,9 @@ func (p *Parameters) UnmarshalBinary(data []byte) (err error) {
 	if err := rlweParams.UnmarshalBinary(data); err != nil {
 		return err
 	}
+	if len(data) != rlweParams.MarshalBinarySize()+9 {
+		return fmt.Errorf("invalid ckks.Parameter serialization")
+	}
 	logSlots := int(data[len(data)-9])
 	scale := math.Float64frombits(binary.BigEndian.Uint64(data[len(data)-8:]))
 	*p, err = NewParameters(rlweParams, logSlots, scale)
diff --git a/rlwe/params.go b/rlwe/params.go
index 5a8c519..cc31fad 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -447,7 +447,7 @@ func (p Parameters) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary decodes a []byte into a parameter set struct.
 func (p *Parameters) UnmarshalBinary(data []byte) error {
-	if len(data) < 11 {
+	if len(data) < 20 {
 		return fmt.Errorf("invalid rlwe.Parameter serialization")
 	}
 	b := utils.NewBuffer(data)
@@ -462,6 +462,10 @@ func (p *Parameters) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	if len(data) < 20+(lenQ+lenP)<<3 {
+		return fmt.Errorf("invalid rlwe.Parameter serialization")
+	}
+
 	qi := make([]uint64, lenQ)
 	pi := make([]uint64, lenP)
 	b.ReadUint64Slice(qi)
-- 
2.43.0


From b9c7208f374cb3dc86d660d0b82a395f233f0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 17/29] fix: NextNTTPrime and PreviousNTTPrime stay within
 their bounds

NextNTTPrime could return a prime of more than 61 bits when the first
candidate was prime, and PreviousNTTPrime tested q instead of the running
candidate, so that it wrapped around below zero.
---
 ring/primes.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ring/primes.go b/ring/primes.go
index 532aa46..b8caa1f 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -48,16 +48,16 @@ func NextNTTPrime(q uint64, NthRoot int) (qNext uint64, err error) {
 
 	qNext = q + uint64(NthRoot)
 
-	for !IsPrime(qNext) {
+	for bits.Len64(qNext) <= 61 {
 
-		qNext += uint64(NthRoot)
-
-		if bits.Len64(qNext) > 61 {
-			return 0, fmt.Errorf("next NTT prime exceeds the maximum bit-size of 61 bits")
+		if IsPrime(qNext) {
+			return qNext, nil
 		}
+
+		qNext += uint64(NthRoot)
 	}
 
-	return qNext, nil
+	return 0, fmt.Errorf("next NTT prime exceeds the maximum bit-size of 61 bits")
 }
 
 // PreviousNTTPrime returns the previous NthRoot NTT prime after q.
@@ -72,7 +72,7 @@ func PreviousNTTPrime(q uint64, NthRoot int) (qPrev uint64, err error) {
 
 	for !IsPrime(qPrev) {
 
-		if q < uint64(NthRoot) {
+		if qPrev < uint64(NthRoot) {
 			return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
 		}
 
-- 
2.43.0


From 04d928828ddb860f01443656d8186dffd393c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 18/29] fix: CheckModuli rejects moduli of more than 61 bits

62-bit Qi and 62- or 63-bit Pi were accepted, for which the lazy modular
arithmetic overflows: InvNTT(NTT(p)) is not p.
---
 rlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index cc31fad..4ca6bef 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -508,13 +508,13 @@ func CheckModuli(q, p []uint64) error {
 	}
 
 	for i, qi := range q {
-		if uint64(bits.Len64(qi)-1) > MaxModuliSize+1 {
+		if bits.Len64(qi) > MaxModuliSize+1 {
 			return fmt.Errorf("a Qi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
 
 	for i, pi := range p {
-		if uint64(bits.Len64(pi)-1) > MaxModuliSize+2 {
+		if bits.Len64(pi) > MaxModuliSize+1 {
 			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
-- 
2.43.0


From ae967125a5c1b04a2a6075efbea8ea67d0df0f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 19/29] fix: NewParameters returns empty parameters when a
 modulus is not NTT-friendly

---
 rlwe/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 4ca6bef..fbc4e1e 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -109,7 +109,11 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 	copy(params.qi, q)
 	copy(params.pi, p)
 
-	return params, params.initRings()
+	if err = params.initRings(); err != nil {
+		return Parameters{}, err
+	}
+
+	return params, nil
 }
 
 // NewParametersFromLiteral instantiate a set of generic RLWE parameters from a ParametersLiteral specification.
-- 
2.43.0


From 563d810d8190a6576b60b007f981d7c2ef399ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 20/29] fix: frlwe KeyGenerator.GenSecretKey and GenPublicKey
 called themselves without end

---
 frlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index 0f4a0b1..715470a 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -49,11 +49,11 @@ func NewKeyGenerator(params Parameters) (keygen *KeyGenerator) {
 }
 
 func (keygen *KeyGenerator) GenSecretKey() *rlwe.SecretKey {
-	return keygen.GenSecretKey()
+	return keygen.KeyGenerator.GenSecretKey()
 }
 
 func (keygen *KeyGenerator) GenPublicKey(sk *rlwe.SecretKey) *rlwe.PublicKey {
-	return keygen.GenPublicKey(sk)
+	return keygen.KeyGenerator.GenPublicKey(sk)
 }
 
 func (keygen *KeyGenerator) polyQPToPolyTs(polyQP rlwe.PolyQP, polyTs []*ring.Poly) {
-- 
2.43.0


From 06f67f39b80e1513299a655403be38ee733dc2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 21/29] fix: ckks Rescale panicked instead of stopping at level
 zero

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 546ef6e..698cbf6 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1076,7 +1076,7 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 1c7efce5c6dbeb0315eb7f65b75f062a6a1cefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 22/29] fix: ckks mulRelin added lazily reduced key-switching
 output without reducing it

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 698cbf6..eb9fcc6 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1195,8 +1195,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 			eval.RingQ().InvNTTLvl(level, c2, c2)
 			eval.SwitchKeysInPlace(level, c2, eval.rlk.Keys[0], eval.Pool[1].Q, eval.Pool[2].Q)
 
-			ringQ.NTTLazyLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
-			ringQ.NTTLazyLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
+			ringQ.NTTLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
+			ringQ.NTTLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
-- 
2.43.0


From 470574de74e5468bc7561fac7c82ad37ef799d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 23/29] fix: ckks mulRelinAndAdd left out one cross term of the
 product

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index eb9fcc6..96a8e3a 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1296,7 +1296,7 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[0], c0) // c0 = c[0]*c[0]
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c01, tmp1.Value[0], c1) // c1 = c[1]*c[0]
 
 		if relin {
 			c2.IsNTT = true
-- 
2.43.0


From ff8a6fd2d2f35331f0a069d4e97e840e3004f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 24/29] fix: ckks in-place rotation and conjugation lost the
 first part of the ciphertext

---
 ckks/evaluator.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 96a8e3a..d6dcd03 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1454,16 +1454,17 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 	}
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	pool1Q := eval.poolQMul[0]
 	pool2Q := eval.Pool[1].Q
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
 
-	ringQ.InvNTTLvl(level, ct0.Value[1], pool2Q)
-	pool2Q.IsNTT = false
-	eval.SwitchKeysInPlace(level, pool2Q, rtk, ctOut.Value[0], ctOut.Value[1])
+	ringQ.InvNTTLvl(level, ct0.Value[1], pool1Q)
+	pool1Q.IsNTT = false
+	eval.SwitchKeysInPlace(level, pool1Q, rtk, pool2Q, pool3Q)
 
-	ringQ.NTTLvl(level, ctOut.Value[0], pool2Q)
-	ringQ.NTTLvl(level, ctOut.Value[1], pool3Q)
+	ringQ.NTTLvl(level, pool2Q, pool2Q)
+	ringQ.NTTLvl(level, pool3Q, pool3Q)
 
 	ringQ.AddLvl(level, pool2Q, ct0.Value[0], pool2Q)
 
-- 
2.43.0


From e23ea4397411847581392ee5e49ec9121eb87ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 25/29] fix: fckks DecryptToMsg lost levels after decrypting a
 ciphertext of lower level

---
 fckks/decryptor.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fckks/decryptor.go b/fckks/decryptor.go
index a1e1227..3905787 100644
--- a/fckks/decryptor.go
+++ b/fckks/decryptor.go
@@ -7,15 +7,13 @@ import (
 
 type Decryptor struct {
 	ckks.Decryptor
-	params   Parameters
-	encoder  ckks.Encoder
-	ptxtPool *ckks.Plaintext
+	params  Parameters
+	encoder ckks.Encoder
 }
 
 func NewDecryptor(params Parameters, sk *rlwe.SecretKey) (dec *Decryptor) {
 	dec = new(Decryptor)
 	dec.params = params
-	dec.ptxtPool = ckks.NewPlaintext(params.Parameters, params.MaxLevel(), params.DefaultScale())
 	dec.Decryptor = ckks.NewDecryptor(params.Parameters, sk)
 	dec.encoder = ckks.NewEncoder(params.Parameters)
 
@@ -27,8 +25,8 @@ func (dec *Decryptor) Decrypt(ctIn *ckks.Ciphertext, ptOut *ckks.Plaintext) {
 }
 
 func (dec *Decryptor) DecryptToMsg(ctIn *ckks.Ciphertext, msgOut *Message) {
-	dec.Decrypt(ctIn, dec.ptxtPool)
-	msgOut.Value = dec.encoder.Decode(dec.ptxtPool, dec.params.LogSlots())
+	// the plaintext has the level of ctIn: decrypting into a shared plaintext would lower its level for good
+	msgOut.Value = dec.encoder.Decode(dec.DecryptNew(ctIn), dec.params.LogSlots())
 }
 
 func (dec *Decryptor) DecryptToMsgNew(ctIn *ckks.Ciphertext) (msgOut *Message) {
-- 
2.43.0


From 3f760661bc17d0cf32e53dd13bb028c911f4cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 26/29] fix: fckks Rotate did not set the scale of its output

---
 fckks/evaluator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index eb99bcf..24ec50a 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -79,6 +79,8 @@ func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctO
 
 	ringQ := eval.params.RingQ()
 
+	ctOut.Scale = ctIn.Scale
+
 	ringQ.InvNTTLvl(ctOut.Level(), ctIn.Value[1], eval.polyQPool[0])
 
 	eval.ksw.SwitchKey(ctOut.Level(), eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
-- 
2.43.0


From f07f505f8329561e213d729cc87e5db26a267016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 27/29] fix: fckks SwitchKeys panicked on NTT ciphertexts

---
 fckks/evaluator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index 24ec50a..0949080 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -104,7 +104,12 @@ func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingK
 
 	ctOut.Scale = ct0.Scale
 
-	eval.ksw.SwitchKey(level, ct0.Value[1], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+	ringQ.InvNTTLvl(level, ct0.Value[1], eval.polyQPool[0])
+
+	eval.ksw.SwitchKey(level, eval.polyQPool[0], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+
+	ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+	ringQ.NTTLvl(level, eval.polyQPool[2], eval.polyQPool[2])
 
 	ringQ.AddLvl(level, ct0.Value[0], eval.polyQPool[1], ctOut.Value[0])
 	ring.CopyValuesLvl(level, eval.polyQPool[2], ctOut.Value[1])
-- 
2.43.0


From 24159d9733155abedc2de6b770923a74aa9d0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:38 +0000
Subject: [PATCH 28/29] fix: rlwe Decrypt left the plaintext unreduced for
 degree 7 modulo 8

---
 rlwe/decryptor.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rlwe/decryptor.go b/rlwe/decryptor.go
index aa4d4c8..05a7374 100644
--- a/rlwe/decryptor.go
+++ b/rlwe/decryptor.go
@@ -82,9 +82,7 @@ func (d *decryptor) Decrypt(ciphertext *Ciphertext, plaintext *Plaintext) {
 		}
 	}
 
-	if (ciphertext.Degree())&7 != 7 {
-		ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
-	}
+	ringQ.ReduceLvl(level, plaintext.Value, plaintext.Value)
 
 	if !plaintext.Value.IsNTT {
 		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
-- 
2.43.0


From 91e1c80f54c9ced059c6519bfe11c2b763060153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:20 +0000
Subject: [PATCH 29/29] fix: ckks AddConst left the other parts of a distinct
 result unset

---
 ckks/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index d6dcd03..4c87850 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -566,6 +566,11 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 
 		ring.AddScalarVec(p0tmp[ringQ.N>>1:], p1tmp[ringQ.N>>1:], scaledConst, qi)
 	}
+
+	// The constant only changes the first part
+	for i := 1; i < utils.MinInt(len(ct0.Value), len(ctOut.Value)); i++ {
+		ring.CopyValuesLvl(level, ct0.Value[i], ctOut.Value[i])
+	}
 }
 
 // MultByConstAndAdd multiplies ct0 by the input constant, and adds it to the receiver element (it does not modify the input
-- 
2.43.0

