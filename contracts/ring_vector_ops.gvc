// Vector kernels (ring/ring_vector_ops.go): every lane, frame, in-place aliasing
def n3(p1, p2, p3) = mod(len(p1), 8) == 0 && len(p2) >= len(p1) && len(p3) >= len(p1)
def n2(p1, p2) = mod(len(p1), 8) == 0 && len(p2) >= len(p1)

// a word times a reduced scalar is within the input bound of the Montgomery product
lemmadef mulbound(x, s, q) = imp(0 <= x && x < R && 0 <= s && s < q, x*s < q*R)

fn ring.AddVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires qi >= 1
  requires forall(k, 0, len(p1), p1[k] + p2[k] < R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] == let(s, old(p1[k]) + old(p2[k]), ite(s < qi, s, s - qi)))

fn ring.AddVecNoMod
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires forall(k, 0, len(p1), p1[k] + p2[k] < R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] == old(p1[k]) + old(p2[k]))

fn ring.SubVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires qi >= 1
  requires forall(k, 0, len(p1), p1[k] + qi < R && p2[k] <= p1[k] + qi)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] == let(s, old(p1[k]) + qi - old(p2[k]), ite(s < qi, s, s - qi)))

fn ring.SubVecNomod
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires forall(k, 0, len(p1), p1[k] + qi < R && p2[k] <= p1[k] + qi)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] == old(p1[k]) + qi - old(p2[k]))

fn ring.NegVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires forall(k, 0, len(p1), p1[k] <= qi)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] == qi - old(p1[k]))

fn ring.ReduceVec
  prop C03 C10
  split p1 p2
  requires n2(p1, p2)
  requires modulus(qi) && isBRed(qi, bredParams) && base(bredParams) != base(p2)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < qi)
  ensures forall(k, 0, len(p1), cong(p2[k], old(p1[k]), qi))

fn ring.ReduceConstantVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires modulus(qi) && isBRed(qi, bredParams) && base(bredParams) != base(p2)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < 2*qi)
  ensures forall(k, 0, len(p1), cong(p2[k], old(p1[k]), qi))

fn ring.ModVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires modulus(m) && isBRed(m, bredParams) && base(bredParams) != base(p2)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < m)
  ensures forall(k, 0, len(p1), cong(p2[k], old(p1[k]), m))

fn ring.MulCoeffsVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isBRed(qi, bredParams) && base(bredParams) != base(p3)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] < qi)
  ensures forall(k, 0, len(p1), cong(p3[k], old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsConstantVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isBRed(qi, bredParams) && base(bredParams) != base(p3)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] < 2*qi)
  ensures forall(k, 0, len(p1), cong(p3[k], old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsAndAddVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isBRed(qi, bredParams) && base(bredParams) != base(p3)
  requires forall(k, 0, len(p1), p3[k] < qi)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] < qi)
  ensures forall(k, 0, len(p1), cong(p3[k], old(p3[k]) + old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsAndAddNoModVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isBRed(qi, bredParams) && base(bredParams) != base(p3)
  requires forall(k, 0, len(p1), p3[k] + qi <= R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), old(p3[k]) <= p3[k] && p3[k] < old(p3[k]) + qi)
  ensures forall(k, 0, len(p1), cong(p3[k], old(p3[k]) + old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsMontgomeryVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*p2[k] < qi*R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] < qi)
  ensures forall(k, 0, len(p1), cong(p3[k]*R, old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsMontgomeryConstantVec
  prop C03 C10
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*p2[k] < qi*R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] < 2*qi)
  ensures forall(k, 0, len(p1), p3[k]*R <= qi*R + old(p1[k])*old(p2[k]))
  ensures forall(k, 0, len(p1), cong(p3[k]*R, old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsMontgomeryAndAddVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*p2[k] < qi*R)
  requires forall(k, 0, len(p1), p3[k] < qi)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] < qi)
  ensures forall(k, 0, len(p1), cong(p3[k]*R, old(p3[k])*R + old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsMontgomeryAndAddNoModVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*p2[k] < qi*R)
  requires forall(k, 0, len(p1), p3[k] + qi <= R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), old(p3[k]) <= p3[k] && p3[k] < old(p3[k]) + qi)
  ensures forall(k, 0, len(p1), cong(p3[k]*R, old(p3[k])*R + old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsMontgomeryConstantAndAddNoModVec
  prop C03 C10
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*p2[k] < qi*R)
  requires forall(k, 0, len(p1), p3[k]*R + p1[k]*p2[k] + qi*R < R*R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), old(p3[k]) <= p3[k] && p3[k] < old(p3[k]) + 2*qi)
  ensures forall(k, 0, len(p1), p3[k]*R <= old(p3[k])*R + qi*R + old(p1[k])*old(p2[k]))
  ensures forall(k, 0, len(p1), cong(p3[k]*R, old(p3[k])*R + old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsMontgomeryAndSubVec
  prop C03 C10
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*p2[k] < qi*R)
  requires forall(k, 0, len(p1), p3[k] < qi)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] < qi)
  ensures forall(k, 0, len(p1), cong(p3[k]*R, old(p3[k])*R - old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsMontgomeryAndSubNoMod
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*p2[k] < qi*R)
  requires forall(k, 0, len(p1), p3[k] + qi < R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), old(p3[k]) < p3[k] && p3[k] <= old(p3[k]) + qi)
  ensures forall(k, 0, len(p1), cong(p3[k]*R, old(p3[k])*R - old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsMontgomeryConstantAndSubNoMod
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*p2[k] < qi*R)
  requires forall(k, 0, len(p1), p3[k] + 2*qi < R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), old(p3[k]) < p3[k] && p3[k] <= old(p3[k]) + 2*qi)
  ensures forall(k, 0, len(p1), cong(p3[k]*R, old(p3[k])*R - old(p1[k])*old(p2[k]), qi))

fn ring.MulCoeffsMontgomeryConstantAndNeg
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires qi < R/2 && modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*p2[k] < qi*R)
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), 0 < p3[k] && p3[k] <= 2*qi)
  ensures forall(k, 0, len(p1), cong(p3[k]*R, 0 - old(p1[k])*old(p2[k]), qi))

fn ring.AddVecNoModAndMulScalarMontgomeryVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k] + p2[k] < R)
  requires forall(k, 0, len(p1), by(mulbound(p1[k] + p2[k], scalarMont, qi), (p1[k] + p2[k])*scalarMont < qi*R))
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] < qi)
  ensures forall(k, 0, len(p1), cong(p3[k]*R, (old(p1[k]) + old(p2[k]))*scalarMont, qi))

fn ring.AddScalarVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires qi >= 1
  requires forall(k, 0, len(p1), p1[k] + scalar < R)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] == let(s, old(p1[k]) + scalar, ite(s < qi, s, s - qi)))

fn ring.AddScalarNoModVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires forall(k, 0, len(p1), p1[k] + scalar < R)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] == old(p1[k]) + scalar)

fn ring.AddScalarNoModAndNegTwoQiNoModVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires scalar + 2*qi < R
  requires forall(k, 0, len(p1), p1[k] <= scalar + 2*qi)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] == scalar + 2*qi - old(p1[k]))

fn ring.SubScalarVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires qi >= 1
  requires forall(k, 0, len(p1), p1[k] + qi < R && scalar <= p1[k] + qi)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] == let(s, old(p1[k]) + qi - scalar, ite(s < qi, s, s - qi)))

fn ring.MulScalarMontgomeryVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*scalarMont < qi*R)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < qi)
  ensures forall(k, 0, len(p1), cong(p2[k]*R, old(p1[k])*scalarMont, qi))

fn ring.MulScalarMontgomeryConstantVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*scalarMont < qi*R)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < 2*qi)
  ensures forall(k, 0, len(p1), cong(p2[k]*R, old(p1[k])*scalarMont, qi))

fn ring.MulScalarMontgomeryAndAddVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p1[k]*scalarMont < qi*R)
  requires forall(k, 0, len(p1), p2[k] < qi)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < qi)
  ensures forall(k, 0, len(p1), cong(p2[k]*R, old(p2[k])*R + old(p1[k])*scalarMont, qi))

fn ring.SubVecAndMulScalarMontgomeryTwoQiVec
  prop C03
  split p1 p2 p3
  requires n3(p1, p2, p3)
  requires 2*qi < R && modulus(qi) && isQInv(qi, mredParams)
  requires forall(k, 0, len(p1), p2[k] <= 2*qi + p1[k] && 2*qi + p1[k] < R)
  requires forall(k, 0, len(p1), by(mulbound(2*qi + p1[k] - p2[k], scalarMont, qi), (2*qi + p1[k] - p2[k])*scalarMont < qi*R))
  modifies p3[0:len(p1)]
  ensures forall(k, 0, len(p1), p3[k] < qi)
  ensures forall(k, 0, len(p1), cong(p3[k]*R, (2*qi + old(p1[k]) - old(p2[k]))*scalarMont, qi))

fn ring.MFormVec
  prop C03 C10
  split p1 p2
  requires n2(p1, p2)
  requires modulus(qi) && isBRed(qi, bredParams) && base(bredParams) != base(p2)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < qi)
  ensures forall(k, 0, len(p1), cong(p2[k], old(p1[k])*R, qi))

fn ring.MFormConstantVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires modulus(qi) && isBRed(qi, bredParams) && base(bredParams) != base(p2)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < 2*qi)
  ensures forall(k, 0, len(p1), cong(p2[k], old(p1[k])*R, qi))

fn ring.InvMFormVec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires modulus(qi) && isQInv(qi, mredParams)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < qi)
  ensures forall(k, 0, len(p1), cong(p2[k]*R, old(p1[k]), qi))

fn ring.MulByPow2Vec
  prop C03
  split p1 p2
  requires n2(p1, p2)
  requires modulus(qi) && isQInv(qi, mredParams)
  requires 0 <= pow2 && pow2 <= 64
  requires forall(k, 0, len(p1), p1[k]*pow2(pow2) < qi*R)
  modifies p2[0:len(p1)]
  ensures forall(k, 0, len(p1), p2[k] < qi)
  ensures forall(k, 0, len(p1), cong(p2[k]*R, old(p1[k])*pow2(pow2), qi))
