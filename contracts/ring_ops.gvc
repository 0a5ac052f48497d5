// RNS polynomials and the level-wise operations (ring/ring_operations.go)

// rows of a polynomial lie in pairwise different memory blocks, none of them shared with
// another polynomial or with a table of the ring
def rowsOK(s, n) = base(s) >= 1 && forall(i, 0, len(s), len(s[i]) >= n && U_owner(base(s[i])) == base(s) && U_ridx(base(s[i])) == off(s) + i)
def polyAt(p, level, n) = len(p.Coeffs) > level && rowsOK(p.Coeffs, n)
def table(t) = U_owner(base(t)) == 0
def minLvl2(r, p1, p2) = min(len(r.Modulus), min(len(p1.Coeffs), len(p2.Coeffs))) - 1
def minLvl3(r, p1, p2, p3) = min(minLvl2(r, p1, p2), len(p3.Coeffs) - 1)
def ringMod(r, level) = level >= -1 && len(r.Modulus) > level && r.N >= 0 && mod(r.N, 8) == 0 && table(r.Modulus) && forall(i, 0, level + 1, modulus(r.Modulus[i]))
def ringMont(r, level) = ringMod(r, level) && len(r.MredParams) > level && table(r.MredParams) && forall(i, 0, level + 1, isQInv(r.Modulus[i], r.MredParams[i]))
def ringBarr(r, level) = ringMod(r, level) && len(r.BredParams) > level && forall(i, 0, level + 1, table(r.BredParams[i]) && isBRed(r.Modulus[i], r.BredParams[i]))

fn ring.Ring.ModLvl
  prop C04
  split p1 p2
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && modulus(m)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < m)
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]), m))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.Mod
  prop C04
  split p1 p2
  requires ringMod(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N) && modulus(m)
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < m)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]), m))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MulScalarLvl
  prop C04
  split p1 p2
  requires ringMont(r, level) && ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k])*scalar, r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MulScalar
  prop C04
  split p1 p2
  requires ringMont(r, minLvl2(r, p1, p2)) && ringBarr(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k])*scalar, r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MulScalarBigintLvl
  prop C04
  split p1 p2
  requires ringMont(r, level) && ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k])*val(scalar), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MulScalarBigint
  prop C04
  split p1 p2
  requires ringMont(r, minLvl2(r, p1, p2)) && ringBarr(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k])*val(scalar), r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.AddScalarBigintLvl
  prop C04
  split p1 p2
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]) + val(scalar), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.AddScalarBigint
  prop C04
  split p1 p2
  requires ringMod(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  requires forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p1.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]) + val(scalar), r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.SubScalarBigintLvl
  prop C04
  split p1 p2
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]) - val(scalar), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.SubScalarBigint
  prop C04
  split p1 p2
  requires ringMod(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  requires forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p1.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]) - val(scalar), r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MulByPow2Lvl
  prop C04
  split p1 p2
  requires ringMont(r, level) && ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  requires 0 <= pow2 && pow2 <= 64
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k])*pow2(pow2), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MulByPow2
  prop C04
  split p1 p2
  requires ringMont(r, minLvl2(r, p1, p2)) && ringBarr(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  requires 0 <= pow2 && pow2 <= 64
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k])*pow2(pow2), r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))


fn ring.Ring.AddLvl
  prop C04
  split p1 p2 p3
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k] + p2.Coeffs[i][k] < R)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] == let(s, old(p1.Coeffs[i][k]) + old(p2.Coeffs[i][k]), ite(s < r.Modulus[i], s, s - r.Modulus[i])))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.Add
  prop C04
  split p1 p2 p3
  requires ringMod(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k] + p2.Coeffs[i][k] < R)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] == let(s, old(p1.Coeffs[i][k]) + old(p2.Coeffs[i][k]), ite(s < r.Modulus[i], s, s - r.Modulus[i])))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.AddNoModLvl
  prop C04
  split p1 p2 p3
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k] + p2.Coeffs[i][k] < R)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] == old(p1.Coeffs[i][k]) + old(p2.Coeffs[i][k]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.AddNoMod
  prop C04
  split p1 p2 p3
  requires ringMod(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k] + p2.Coeffs[i][k] < R)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] == old(p1.Coeffs[i][k]) + old(p2.Coeffs[i][k]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.SubLvl
  prop C04
  split p1 p2 p3
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k] + r.Modulus[i] < R && p2.Coeffs[i][k] <= p1.Coeffs[i][k] + r.Modulus[i])
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] == let(s, old(p1.Coeffs[i][k]) + r.Modulus[i] - old(p2.Coeffs[i][k]), ite(s < r.Modulus[i], s, s - r.Modulus[i])))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.Sub
  prop C04
  split p1 p2 p3
  requires ringMod(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k] + r.Modulus[i] < R && p2.Coeffs[i][k] <= p1.Coeffs[i][k] + r.Modulus[i])
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] == let(s, old(p1.Coeffs[i][k]) + r.Modulus[i] - old(p2.Coeffs[i][k]), ite(s < r.Modulus[i], s, s - r.Modulus[i])))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.SubNoModLvl
  prop C04
  split p1 p2 p3
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k] + r.Modulus[i] < R && p2.Coeffs[i][k] <= p1.Coeffs[i][k] + r.Modulus[i])
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] == old(p1.Coeffs[i][k]) + r.Modulus[i] - old(p2.Coeffs[i][k]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.SubNoMod
  prop C04
  split p1 p2 p3
  requires ringMod(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k] + r.Modulus[i] < R && p2.Coeffs[i][k] <= p1.Coeffs[i][k] + r.Modulus[i])
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] == old(p1.Coeffs[i][k]) + r.Modulus[i] - old(p2.Coeffs[i][k]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsLvl
  prop C04
  split p1 p2 p3
  requires ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k], old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffs
  prop C04
  split p1 p2 p3
  requires ringBarr(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k], old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsAndAddLvl
  prop C04
  split p1 p2 p3
  requires ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k], old(p3.Coeffs[i][k]) + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsAndAdd
  prop C04
  split p1 p2 p3
  requires ringBarr(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k], old(p3.Coeffs[i][k]) + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsAndAddNoModLvl
  prop C04
  split p1 p2 p3
  requires ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] + r.Modulus[i] <= R)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, old(p3.Coeffs[i][k]) <= p3.Coeffs[i][k] && p3.Coeffs[i][k] < old(p3.Coeffs[i][k]) + r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k], old(p3.Coeffs[i][k]) + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsAndAddNoMod
  prop C04
  split p1 p2 p3
  requires ringBarr(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] + r.Modulus[i] <= R)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, old(p3.Coeffs[i][k]) <= p3.Coeffs[i][k] && p3.Coeffs[i][k] < old(p3.Coeffs[i][k]) + r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k], old(p3.Coeffs[i][k]) + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryLvl
  prop C04
  split p1 p2 p3
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, by(mulbound(p1.Coeffs[i][k], p2.Coeffs[i][k], r.Modulus[i]), p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R))
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomery
  prop C04
  split p1 p2 p3
  requires ringMont(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryConstantLvl
  prop C04 C10
  split p1 p2 p3
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < 2*r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k]*R <= r.Modulus[i]*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]))
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryConstant
  prop C04
  split p1 p2 p3
  requires ringMont(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < 2*r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k]*R <= r.Modulus[i]*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryConstantAndNegLvl
  prop C04
  split p1 p2 p3
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, r.Modulus[i] < R/2)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, 0 < p3.Coeffs[i][k] && p3.Coeffs[i][k] <= 2*r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, 0 - old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryAndAddLvl
  prop C04
  split p1 p2 p3
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryAndAdd
  prop C04
  split p1 p2 p3
  requires ringMont(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryAndAddNoModLvl
  prop C04
  split p1 p2 p3
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] + r.Modulus[i] <= R)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, old(p3.Coeffs[i][k]) <= p3.Coeffs[i][k] && p3.Coeffs[i][k] < old(p3.Coeffs[i][k]) + r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryAndAddNoMod
  prop C04
  split p1 p2 p3
  requires ringMont(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] + r.Modulus[i] <= R)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, old(p3.Coeffs[i][k]) <= p3.Coeffs[i][k] && p3.Coeffs[i][k] < old(p3.Coeffs[i][k]) + r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryConstantAndAddNoModLvl
  prop C04 C10
  split p1 p2 p3
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k]*R + p1.Coeffs[i][k]*p2.Coeffs[i][k] + r.Modulus[i]*R < R*R)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, old(p3.Coeffs[i][k]) <= p3.Coeffs[i][k] && p3.Coeffs[i][k] < old(p3.Coeffs[i][k]) + 2*r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k]*R <= old(p3.Coeffs[i][k])*R + r.Modulus[i]*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]))
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryConstantAndAddNoMod
  prop C04
  split p1 p2 p3
  requires ringMont(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k]*R + p1.Coeffs[i][k]*p2.Coeffs[i][k] + r.Modulus[i]*R < R*R)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, old(p3.Coeffs[i][k]) <= p3.Coeffs[i][k] && p3.Coeffs[i][k] < old(p3.Coeffs[i][k]) + 2*r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k]*R <= old(p3.Coeffs[i][k])*R + r.Modulus[i]*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R + old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryAndSubLvl
  prop C04 C10
  split p1 p2 p3
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R - old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryAndSub
  prop C04
  split p1 p2 p3
  requires ringMont(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R - old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryAndSubNoModLvl
  prop C04
  split p1 p2 p3
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] + r.Modulus[i] < R)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, old(p3.Coeffs[i][k]) < p3.Coeffs[i][k] && p3.Coeffs[i][k] <= old(p3.Coeffs[i][k]) + r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R - old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryAndSubNoMod
  prop C04
  split p1 p2 p3
  requires ringMont(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] + r.Modulus[i] < R)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, old(p3.Coeffs[i][k]) < p3.Coeffs[i][k] && p3.Coeffs[i][k] <= old(p3.Coeffs[i][k]) + r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R - old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsMontgomeryConstantAndSubNoModLvl
  prop C04
  split p1 p2 p3
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k]*p2.Coeffs[i][k] < r.Modulus[i]*R)
  requires forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] + 2*r.Modulus[i] < R)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, old(p3.Coeffs[i][k]) < p3.Coeffs[i][k] && p3.Coeffs[i][k] <= old(p3.Coeffs[i][k]) + 2*r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k]*R, old(p3.Coeffs[i][k])*R - old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsConstantLvl
  prop C04
  split p1 p2 p3
  requires ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && polyAt(p3, level, r.N)
  modifies rows(p3.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p3.Coeffs[i][k] < 2*r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p3.Coeffs[i][k], old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.MulCoeffsConstant
  prop C04
  split p1 p2 p3
  requires ringBarr(r, minLvl3(r, p1, p2, p3)) && polyAt(p1, minLvl3(r, p1, p2, p3), r.N) && polyAt(p2, minLvl3(r, p1, p2, p3), r.N) && polyAt(p3, minLvl3(r, p1, p2, p3), r.N)
  modifies rows(p3.Coeffs, 0, minLvl3(r, p1, p2, p3) + 1)
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, p3.Coeffs[i][k] < 2*r.Modulus[i])
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, 0, r.N, cong(p3.Coeffs[i][k], old(p1.Coeffs[i][k])*old(p2.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl3(r, p1, p2, p3) + 1, k, r.N, len(p3.Coeffs[i]), p3.Coeffs[i][k] == old(p3.Coeffs[i][k]))

fn ring.Ring.NegLvl
  prop C04
  split p1 p2
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k] <= r.Modulus[i])
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] == r.Modulus[i] - old(p1.Coeffs[i][k]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.Neg
  prop C04
  split p1 p2
  requires ringMod(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  requires forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p1.Coeffs[i][k] <= r.Modulus[i])
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] == r.Modulus[i] - old(p1.Coeffs[i][k]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.ReduceLvl
  prop C04 C10
  split p1 p2
  requires ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.Reduce
  prop C04
  split p1 p2
  requires ringBarr(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.ReduceConstantLvl
  prop C04
  split p1 p2
  requires ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < 2*r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.ReduceConstant
  prop C04
  split p1 p2
  requires ringBarr(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < 2*r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.AddScalarLvl
  prop C04
  split p1 p2
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k] + scalar < R)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] == let(s, old(p1.Coeffs[i][k]) + scalar, ite(s < r.Modulus[i], s, s - r.Modulus[i])))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.AddScalar
  prop C04
  split p1 p2
  requires ringMod(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  requires forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p1.Coeffs[i][k] + scalar < R)
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] == let(s, old(p1.Coeffs[i][k]) + scalar, ite(s < r.Modulus[i], s, s - r.Modulus[i])))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.SubScalarLvl
  prop C04
  split p1 p2
  requires ringMod(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k] + r.Modulus[i] < R && scalar <= p1.Coeffs[i][k] + r.Modulus[i])
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] == let(s, old(p1.Coeffs[i][k]) + r.Modulus[i] - scalar, ite(s < r.Modulus[i], s, s - r.Modulus[i])))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.SubScalar
  prop C04
  split p1 p2
  requires ringMod(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  requires forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p1.Coeffs[i][k] + r.Modulus[i] < R && scalar <= p1.Coeffs[i][k] + r.Modulus[i])
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] == let(s, old(p1.Coeffs[i][k]) + r.Modulus[i] - scalar, ite(s < r.Modulus[i], s, s - r.Modulus[i])))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MFormLvl
  prop C04 C10
  split p1 p2
  requires ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k])*R, r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MForm
  prop C04
  split p1 p2
  requires ringBarr(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k])*R, r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MFormConstantLvl
  prop C04
  split p1 p2
  requires ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < 2*r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k], old(p1.Coeffs[i][k])*R, r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.InvMFormLvl
  prop C04
  split p1 p2
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k]*R, old(p1.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.InvMForm
  prop C04
  split p1 p2
  requires ringMont(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N)
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k]*R, old(p1.Coeffs[i][k]), r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))
