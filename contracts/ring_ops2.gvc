// Remaining polynomial operations (ring/ring_operations.go)

def allRows(r, p) = polyAt(p, len(r.Modulus) - 1, r.N)

fn ring.Ring.Shift
  prop C04
  split p1 p2
  requires r.N >= 1 && table(r.Modulus) && allRows(r, p1) && allRows(r, p2)
  let s = mod(n, r.N)
  modifies rows(p2.Coeffs, 0, len(r.Modulus))
  ensures forall(i, 0, len(r.Modulus), k, 0, r.N - s, p2.Coeffs[i][k] == old(p1.Coeffs[i][k + s]))
  ensures forall(i, 0, len(r.Modulus), k, r.N - s, r.N, p2.Coeffs[i][k] == old(p1.Coeffs[i][k + s - r.N]))
  ensures forall(i, 0, len(r.Modulus), k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MulByVectorMontgomeryLvl
  prop C04
  split p1 p2
  requires ringMont(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N) && len(vector) >= r.N && table(vector)
  requires forall(i, 0, level + 1, k, 0, r.N, p1.Coeffs[i][k]*vector[k] < r.Modulus[i]*R)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level + 1, k, 0, r.N, cong(p2.Coeffs[i][k]*R, old(p1.Coeffs[i][k])*vector[k], r.Modulus[i]))
  ensures forall(i, 0, level + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

fn ring.Ring.MulByVectorMontgomery
  prop C04
  split p1 p2
  requires ringMont(r, minLvl2(r, p1, p2)) && polyAt(p1, minLvl2(r, p1, p2), r.N) && polyAt(p2, minLvl2(r, p1, p2), r.N) && len(vector) >= r.N && table(vector)
  requires forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p1.Coeffs[i][k]*vector[k] < r.Modulus[i]*R)
  modifies rows(p2.Coeffs, 0, minLvl2(r, p1, p2) + 1)
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, p2.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, 0, r.N, cong(p2.Coeffs[i][k]*R, old(p1.Coeffs[i][k])*vector[k], r.Modulus[i]))
  ensures forall(i, 0, minLvl2(r, p1, p2) + 1, k, r.N, len(p2.Coeffs[i]), p2.Coeffs[i][k] == old(p2.Coeffs[i][k]))

