// Allocation and copying of polynomials (ring/ring_poly.go, ring/ring.go)

def rowsAt(s) = forall(i, 0, len(s), U_owner(base(s[i])) == base(s) && U_ridx(base(s[i])) == off(s) + i && fresh(s[i]))

fn ring.NewPoly
  prop C15
  requires N >= 0 && nbModuli >= 0
  fresh pol
  ensures len(pol.Coeffs) == nbModuli && base(pol.Coeffs) >= 1 && fresh(pol.Coeffs)
  ensures forall(i, 0, nbModuli, len(pol.Coeffs[i]) == N)
  ensures rowsAt(pol.Coeffs)
  ensures forall(i, 0, nbModuli, k, 0, N, pol.Coeffs[i][k] == 0)
  ensures !pol.IsNTT && !pol.IsMForm

fn ring.Ring.NewPoly
  prop C15
  requires r.N >= 0
  fresh result
  ensures len(result.Coeffs) == len(r.Modulus) && base(result.Coeffs) >= 1 && fresh(result.Coeffs)
  ensures forall(i, 0, len(r.Modulus), len(result.Coeffs[i]) == r.N)
  ensures rowsAt(result.Coeffs)
  ensures forall(i, 0, len(r.Modulus), k, 0, r.N, result.Coeffs[i][k] == 0)
  ensures !result.IsNTT && !result.IsMForm

fn ring.Ring.NewPolyLvl
  prop C15
  requires r.N >= 0 && level >= -1 && level < 1099511627776
  fresh result
  ensures len(result.Coeffs) == level + 1 && base(result.Coeffs) >= 1 && fresh(result.Coeffs)
  ensures forall(i, 0, level + 1, len(result.Coeffs[i]) == r.N)
  ensures rowsAt(result.Coeffs)
  ensures forall(i, 0, level + 1, k, 0, r.N, result.Coeffs[i][k] == 0)
  ensures !result.IsNTT && !result.IsMForm

fn ring.Poly.CopyNew
  prop C15
  fresh result
  ensures len(result.Coeffs) == len(pol.Coeffs) && fresh(result.Coeffs)
  ensures forall(i, 0, len(pol.Coeffs), len(result.Coeffs[i]) == len(pol.Coeffs[i]))
  ensures rowsAt(result.Coeffs)
  ensures forall(i, 0, len(pol.Coeffs), k, 0, len(pol.Coeffs[i]), result.Coeffs[i][k] == pol.Coeffs[i][k])
  ensures result.IsNTT == pol.IsNTT && result.IsMForm == pol.IsMForm

fn ring.Poly.Zero
  prop C15
  requires rowsOK(pol.Coeffs, 0)
  modifies rows(pol.Coeffs, 0, len(pol.Coeffs))
  ensures forall(i, 0, len(pol.Coeffs), k, 0, len(pol.Coeffs[i]), pol.Coeffs[i][k] == 0)

def copied(p0, p1, n) = forall(i, 0, n, k, 0, min(len(p0.Coeffs[i]), len(p1.Coeffs[i])), p1.Coeffs[i][k] == old(p0.Coeffs[i][k]))
def kept(p0, p1, n) = forall(i, 0, n, k, len(p0.Coeffs[i]), len(p1.Coeffs[i]), p1.Coeffs[i][k] == old(p1.Coeffs[i][k]))

fn ring.CopyValuesLvl
  prop C15
  split p0 p1
  requires level >= -1 && polyAt(p0, level, 0) && polyAt(p1, level, 0)
  modifies rows(p1.Coeffs, 0, level + 1)
  ensures copied(p0, p1, level + 1)
  ensures kept(p0, p1, level + 1)

fn ring.CopyValues
  prop C15
  split p0 p1
  requires rowsOK(p0.Coeffs, 0) && rowsOK(p1.Coeffs, 0)
  let n = min(len(p0.Coeffs), len(p1.Coeffs))
  modifies rows(p1.Coeffs, 0, n)
  ensures copied(p0, p1, n)
  ensures kept(p0, p1, n)

fn ring.Copy
  prop C15
  split p0 p1
  requires rowsOK(p0.Coeffs, 0) && rowsOK(p1.Coeffs, 0)
  let n = min(len(p0.Coeffs), len(p1.Coeffs))
  modifies rows(p1.Coeffs, 0, n)
  modifies p1.IsNTT
  modifies p1.IsMForm
  ensures copied(p0, p1, n)
  ensures kept(p0, p1, n)
  ensures p1.IsNTT == old(p0.IsNTT) && p1.IsMForm == old(p0.IsMForm)

fn ring.CopyLvl
  prop C15
  split p0 p1
  requires level >= -1 && polyAt(p0, level, 0) && polyAt(p1, level, 0)
  modifies rows(p1.Coeffs, 0, level + 1)
  modifies p1.IsNTT
  modifies p1.IsMForm
  ensures copied(p0, p1, level + 1)
  ensures kept(p0, p1, level + 1)
  ensures p1.IsNTT == old(p0.IsNTT) && p1.IsMForm == old(p0.IsMForm)

fn ring.Poly.CopyValues
  prop C15
  split pol p1
  requires rowsOK(pol.Coeffs, 0) && rowsOK(p1.Coeffs, 0)
  let n = min(len(p1.Coeffs), len(pol.Coeffs))
  modifies rows(pol.Coeffs, 0, n)
  ensures copied(p1, pol, n)
  ensures kept(p1, pol, n)

fn ring.Poly.Copy
  prop C15
  split pol p1
  requires rowsOK(pol.Coeffs, 0) && rowsOK(p1.Coeffs, 0)
  let n = min(len(p1.Coeffs), len(pol.Coeffs))
  modifies rows(pol.Coeffs, 0, n)
  modifies pol.IsNTT
  modifies pol.IsMForm
  ensures copied(p1, pol, n)
  ensures kept(p1, pol, n)
  ensures pol.IsNTT == old(p1.IsNTT) && pol.IsMForm == old(p1.IsMForm)

fn ring.Poly.Equals
  prop C15
  nilable pol other
  ensures imp(isnil(pol) || isnil(other), iff(result, isnil(pol) && isnil(other)))
  ensures imp(result && !isnil(pol) && !isnil(other), len(pol.Coeffs) == len(other.Coeffs))
  ensures imp(result && !isnil(pol) && !isnil(other), forall(i, 0, len(pol.Coeffs), len(pol.Coeffs[i]) == len(other.Coeffs[i])))
  ensures imp(result && !isnil(pol) && !isnil(other), forall(i, 0, len(pol.Coeffs), k, 0, len(pol.Coeffs[i]), pol.Coeffs[i][k] == other.Coeffs[i][k]))
  ensures imp(!isnil(pol) && !isnil(other) && len(pol.Coeffs) == len(other.Coeffs) && forall(i, 0, len(pol.Coeffs), len(pol.Coeffs[i]) == len(other.Coeffs[i])) && forall(i, 0, len(pol.Coeffs), k, 0, len(pol.Coeffs[i]), pol.Coeffs[i][k] == other.Coeffs[i][k]), result)

fn ring.Poly.SetCoefficients
  prop C15
  requires len(coeffs) <= len(pol.Coeffs) && (base(coeffs) != base(pol.Coeffs) || off(coeffs) == off(pol.Coeffs)) && rowsOK(pol.Coeffs, 0) && rowsOK(coeffs, 0)
  modifies rows(pol.Coeffs, 0, len(coeffs))
  ensures forall(i, 0, len(coeffs), k, 0, min(len(coeffs[i]), len(pol.Coeffs[i])), pol.Coeffs[i][k] == old(coeffs[i][k]))
  ensures forall(i, 0, len(coeffs), k, len(coeffs[i]), len(pol.Coeffs[i]), pol.Coeffs[i][k] == old(pol.Coeffs[i][k]))

fn ring.Poly.GetCoefficients
  prop C15
  ensures len(coeffs) == len(pol.Coeffs) && fresh(coeffs)
  ensures forall(i, 0, len(pol.Coeffs), len(coeffs[i]) == len(pol.Coeffs[i]))
  ensures rowsAt(coeffs)
  ensures forall(i, 0, len(pol.Coeffs), k, 0, len(pol.Coeffs[i]), coeffs[i][k] == pol.Coeffs[i][k])

fn ring.Ring.EqualLvl
  prop C15
  split p1 p2
  requires ringBarr(r, level) && polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  modifies rows(p1.Coeffs, 0, level + 1)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures imp(result, forall(i, 0, level + 1, len(p1.Coeffs[i]) == len(p2.Coeffs[i])))
  ensures imp(result, forall(i, 0, level + 1, k, 0, r.N, cong(old(p1.Coeffs[i][k]), old(p2.Coeffs[i][k]), r.Modulus[i])))
  ensures imp(forall(i, 0, level + 1, len(p1.Coeffs[i]) == len(p2.Coeffs[i])) && forall(i, 0, level + 1, k, 0, r.N, cong(old(p1.Coeffs[i][k]), old(p2.Coeffs[i][k]), r.Modulus[i])), result)

fn ring.Ring.Equal
  prop C15
  split p1 p2
  requires ringBarr(r, len(r.Modulus) - 1) && polyAt(p1, len(r.Modulus) - 1, r.N) && polyAt(p2, len(r.Modulus) - 1, r.N)
  modifies rows(p1.Coeffs, 0, len(r.Modulus))
  modifies rows(p2.Coeffs, 0, len(r.Modulus))
  ensures imp(result, forall(i, 0, len(r.Modulus), len(p1.Coeffs[i]) == len(p2.Coeffs[i])))
  ensures imp(result, forall(i, 0, len(r.Modulus), k, 0, r.N, cong(old(p1.Coeffs[i][k]), old(p2.Coeffs[i][k]), r.Modulus[i])))
  ensures imp(forall(i, 0, len(r.Modulus), len(p1.Coeffs[i]) == len(p2.Coeffs[i])) && forall(i, 0, len(r.Modulus), k, 0, r.N, cong(old(p1.Coeffs[i][k]), old(p2.Coeffs[i][k]), r.Modulus[i])), result)
