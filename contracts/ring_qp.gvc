// Operations on QP polynomials (rlwe/ring_qp.go)
// generated by tools/gen_ring_qp.py, then the hand-written part contracts/ring_qp.pre

def offBoth(a, b) = base(a.Q.Coeffs) != base(b.P.Coeffs) && base(a.P.Coeffs) != base(b.Q.Coeffs)

fn rlwe.RingQP.NewPoly
  prop C13
  requires imp(!isnil(r.RingQ), r.RingQ.N >= 0) && imp(!isnil(r.RingP), r.RingP.N >= 0)
  ensures iff(isnil(result.Q), isnil(r.RingQ)) && iff(isnil(result.P), isnil(r.RingP))
  ensures imp(!isnil(r.RingQ), len(result.Q.Coeffs) == len(r.RingQ.Modulus) && fresh(result.Q.Coeffs))
  ensures imp(!isnil(r.RingQ), forall(i, 0, len(r.RingQ.Modulus), len(result.Q.Coeffs[i]) == r.RingQ.N))
  ensures imp(!isnil(r.RingQ), rowsAt(result.Q.Coeffs))
  ensures imp(!isnil(r.RingQ), forall(i, 0, len(r.RingQ.Modulus), k, 0, r.RingQ.N, result.Q.Coeffs[i][k] == 0))
  ensures imp(!isnil(r.RingP), len(result.P.Coeffs) == len(r.RingP.Modulus) && fresh(result.P.Coeffs))
  ensures imp(!isnil(r.RingP), forall(i, 0, len(r.RingP.Modulus), len(result.P.Coeffs[i]) == r.RingP.N))
  ensures imp(!isnil(r.RingP), rowsAt(result.P.Coeffs))
  ensures imp(!isnil(r.RingP), forall(i, 0, len(r.RingP.Modulus), k, 0, r.RingP.N, result.P.Coeffs[i][k] == 0))

fn rlwe.RingQP.NewPolyLvl
  prop C13
  requires imp(!isnil(r.RingQ), r.RingQ.N >= 0) && imp(!isnil(r.RingP), r.RingP.N >= 0) && levelQ >= -1 && levelP >= -1 && levelQ < 1099511627776 && levelP < 1099511627776
  ensures iff(isnil(result.Q), isnil(r.RingQ)) && iff(isnil(result.P), isnil(r.RingP))
  ensures imp(!isnil(r.RingQ), len(result.Q.Coeffs) == levelQ + 1 && fresh(result.Q.Coeffs))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, len(result.Q.Coeffs[i]) == r.RingQ.N))
  ensures imp(!isnil(r.RingQ), rowsAt(result.Q.Coeffs))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, result.Q.Coeffs[i][k] == 0))
  ensures imp(!isnil(r.RingP), len(result.P.Coeffs) == levelP + 1 && fresh(result.P.Coeffs))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, len(result.P.Coeffs[i]) == r.RingP.N))
  ensures imp(!isnil(r.RingP), rowsAt(result.P.Coeffs))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, result.P.Coeffs[i][k] == 0))

fn rlwe.RingQP.CopyValuesLvl
  prop C13
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q) && levelQ >= -1 && polyAt(p1.Q, levelQ, 0) && polyAt(p2.Q, levelQ, 0))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P) && levelP >= -1 && polyAt(p1.P, levelP, 0) && polyAt(p2.P, levelP, 0))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), offBoth(p1, p2) && base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs))
  modifies rows(p2.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(p2.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), copied(p1.Q, p2.Q, levelQ + 1))
  ensures imp(!isnil(r.RingQ), kept(p1.Q, p2.Q, levelQ + 1))
  ensures imp(!isnil(r.RingP), copied(p1.P, p2.P, levelP + 1))
  ensures imp(!isnil(r.RingP), kept(p1.P, p2.P, levelP + 1))

fn rlwe.PolyQP.Copy
  prop C13 C15
  requires imp(!isnil(polFrom.Q), !isnil(p.Q) && separate(p.Q, polFrom.Q) && rowsOK(p.Q.Coeffs, 0) && rowsOK(polFrom.Q.Coeffs, 0))
  requires imp(!isnil(polFrom.P), !isnil(p.P) && separate(p.P, polFrom.P) && rowsOK(p.P.Coeffs, 0) && rowsOK(polFrom.P.Coeffs, 0))
  requires imp(!isnil(polFrom.Q) && !isnil(polFrom.P), p.Q != p.P && p.Q != polFrom.P && p.P != polFrom.Q && offBoth(p, polFrom) && base(p.Q.Coeffs) != base(p.P.Coeffs))
  let nQ = ite(isnil(polFrom.Q), 0, min(len(polFrom.Q.Coeffs), len(p.Q.Coeffs)))
  let nP = ite(isnil(polFrom.P), 0, min(len(polFrom.P.Coeffs), len(p.P.Coeffs)))
  modifies rows(p.Q.Coeffs, 0, nQ)
  modifies rows(p.P.Coeffs, 0, nP)
  modifies p.Q.IsNTT
  modifies p.Q.IsMForm
  modifies p.P.IsNTT
  modifies p.P.IsMForm
  ensures imp(!isnil(polFrom.Q), copied(polFrom.Q, p.Q, nQ))
  ensures imp(!isnil(polFrom.Q), kept(polFrom.Q, p.Q, nQ))
  ensures imp(!isnil(polFrom.Q), p.Q.IsNTT == old(polFrom.Q.IsNTT) && p.Q.IsMForm == old(polFrom.Q.IsMForm))
  ensures imp(!isnil(polFrom.P), copied(polFrom.P, p.P, nP))
  ensures imp(!isnil(polFrom.P), kept(polFrom.P, p.P, nP))
  ensures imp(!isnil(polFrom.P), p.P.IsNTT == old(polFrom.P.IsNTT) && p.P.IsMForm == old(polFrom.P.IsMForm))

fn rlwe.RingQP.ExtendBasisSmallNormAndCenter
  prop C13 C10
  nilable polyOutQ
  split polyInQ polyOutQ
  requires imp(!isnil(polyOutQ), rowsOK(polyOutQ.Coeffs, 0) && base(polyOutQ.Coeffs) != base(polyOutP.Coeffs))
  requires r.RingQ.N >= 0 && len(r.RingQ.Modulus) >= 1 && len(polyInQ.Coeffs) >= 1 && rowsOK(polyInQ.Coeffs, r.RingQ.N)
  requires table(r.RingQ.Modulus) && levelP >= -1 && len(r.RingP.Modulus) > levelP && table(r.RingP.Modulus) && polyAt(polyOutP, levelP, r.RingQ.N)
  requires base(polyInQ.Coeffs) != base(polyOutP.Coeffs)
  let Q = r.RingQ.Modulus[0]
  requires Q >= 1 && forall(k, 0, r.RingQ.N, polyInQ.Coeffs[0][k] < Q)
  requires forall(i, 0, levelP + 1, div(Q, 2) < r.RingP.Modulus[i])
  let nQ = ite(isnil(polyOutQ), 0, ite(polyInQ == polyOutQ, 0, min(len(polyInQ.Coeffs), len(polyOutQ.Coeffs))))
  modifies rows(polyOutQ.Coeffs, 0, nQ)
  modifies polyOutQ.IsNTT
  modifies polyOutQ.IsMForm
  modifies rows(polyOutP.Coeffs, 0, levelP + 1)
  ensures imp(!isnil(polyOutQ), forall(i, 0, nQ, k, 0, min(len(polyInQ.Coeffs[i]), len(polyOutQ.Coeffs[i])), polyOutQ.Coeffs[i][k] == old(polyInQ.Coeffs[i][k])))
  ensures forall(i, 0, levelP + 1, k, 0, r.RingQ.N, polyOutP.Coeffs[i][k] == let(c, old(polyInQ.Coeffs[0][k]), ite(c > div(Q, 2), r.RingP.Modulus[i] - (Q - c), c)))
  ensures forall(i, 0, levelP + 1, k, r.RingQ.N, len(polyOutP.Coeffs[i]), polyOutP.Coeffs[i][k] == old(polyOutP.Coeffs[i][k]))


fn rlwe.RingQP.AddLvl
  prop C13
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q))
  requires imp(!isnil(r.RingQ), separate(p1.Q, pOut.Q))
  requires imp(!isnil(r.RingQ), separate(p2.Q, pOut.Q))
  requires imp(!isnil(r.RingQ), ringMod(r.RingQ, levelQ) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N) && polyAt(pOut.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p1.Q.Coeffs[i][k] + p2.Q.Coeffs[i][k] < R))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P))
  requires imp(!isnil(r.RingP), separate(p1.P, pOut.P))
  requires imp(!isnil(r.RingP), separate(p2.P, pOut.P))
  requires imp(!isnil(r.RingP), ringMod(r.RingP, levelP) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N) && polyAt(pOut.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p1.P.Coeffs[i][k] + p2.P.Coeffs[i][k] < R))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p1.Q.Coeffs) != base(pOut.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(pOut.P.Coeffs) && base(pOut.Q.Coeffs) != base(p1.P.Coeffs) && base(pOut.Q.Coeffs) != base(p2.P.Coeffs) && base(pOut.Q.Coeffs) != base(pOut.P.Coeffs))
  modifies rows(pOut.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(pOut.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, pOut.Q.Coeffs[i][k] == let(s, old(p1.Q.Coeffs[i][k]) + old(p2.Q.Coeffs[i][k]), ite(s < r.RingQ.Modulus[i], s, s - r.RingQ.Modulus[i]))))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(pOut.Q.Coeffs[i]), pOut.Q.Coeffs[i][k] == old(pOut.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, pOut.P.Coeffs[i][k] == let(s, old(p1.P.Coeffs[i][k]) + old(p2.P.Coeffs[i][k]), ite(s < r.RingP.Modulus[i], s, s - r.RingP.Modulus[i]))))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(pOut.P.Coeffs[i]), pOut.P.Coeffs[i][k] == old(pOut.P.Coeffs[i][k])))

fn rlwe.RingQP.AddNoModLvl
  prop C13
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q))
  requires imp(!isnil(r.RingQ), separate(p1.Q, pOut.Q))
  requires imp(!isnil(r.RingQ), separate(p2.Q, pOut.Q))
  requires imp(!isnil(r.RingQ), ringMod(r.RingQ, levelQ) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N) && polyAt(pOut.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p1.Q.Coeffs[i][k] + p2.Q.Coeffs[i][k] < R))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P))
  requires imp(!isnil(r.RingP), separate(p1.P, pOut.P))
  requires imp(!isnil(r.RingP), separate(p2.P, pOut.P))
  requires imp(!isnil(r.RingP), ringMod(r.RingP, levelP) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N) && polyAt(pOut.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p1.P.Coeffs[i][k] + p2.P.Coeffs[i][k] < R))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p1.Q.Coeffs) != base(pOut.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(pOut.P.Coeffs) && base(pOut.Q.Coeffs) != base(p1.P.Coeffs) && base(pOut.Q.Coeffs) != base(p2.P.Coeffs) && base(pOut.Q.Coeffs) != base(pOut.P.Coeffs))
  modifies rows(pOut.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(pOut.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, pOut.Q.Coeffs[i][k] == old(p1.Q.Coeffs[i][k]) + old(p2.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(pOut.Q.Coeffs[i]), pOut.Q.Coeffs[i][k] == old(pOut.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, pOut.P.Coeffs[i][k] == old(p1.P.Coeffs[i][k]) + old(p2.P.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(pOut.P.Coeffs[i]), pOut.P.Coeffs[i][k] == old(pOut.P.Coeffs[i][k])))

fn rlwe.RingQP.SubLvl
  prop C13
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q))
  requires imp(!isnil(r.RingQ), separate(p1.Q, pOut.Q))
  requires imp(!isnil(r.RingQ), separate(p2.Q, pOut.Q))
  requires imp(!isnil(r.RingQ), ringMod(r.RingQ, levelQ) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N) && polyAt(pOut.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p1.Q.Coeffs[i][k] + r.RingQ.Modulus[i] < R && p2.Q.Coeffs[i][k] <= p1.Q.Coeffs[i][k] + r.RingQ.Modulus[i]))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P))
  requires imp(!isnil(r.RingP), separate(p1.P, pOut.P))
  requires imp(!isnil(r.RingP), separate(p2.P, pOut.P))
  requires imp(!isnil(r.RingP), ringMod(r.RingP, levelP) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N) && polyAt(pOut.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p1.P.Coeffs[i][k] + r.RingP.Modulus[i] < R && p2.P.Coeffs[i][k] <= p1.P.Coeffs[i][k] + r.RingP.Modulus[i]))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p1.Q.Coeffs) != base(pOut.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(pOut.P.Coeffs) && base(pOut.Q.Coeffs) != base(p1.P.Coeffs) && base(pOut.Q.Coeffs) != base(p2.P.Coeffs) && base(pOut.Q.Coeffs) != base(pOut.P.Coeffs))
  modifies rows(pOut.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(pOut.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, pOut.Q.Coeffs[i][k] == let(s, old(p1.Q.Coeffs[i][k]) + r.RingQ.Modulus[i] - old(p2.Q.Coeffs[i][k]), ite(s < r.RingQ.Modulus[i], s, s - r.RingQ.Modulus[i]))))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(pOut.Q.Coeffs[i]), pOut.Q.Coeffs[i][k] == old(pOut.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, pOut.P.Coeffs[i][k] == let(s, old(p1.P.Coeffs[i][k]) + r.RingP.Modulus[i] - old(p2.P.Coeffs[i][k]), ite(s < r.RingP.Modulus[i], s, s - r.RingP.Modulus[i]))))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(pOut.P.Coeffs[i]), pOut.P.Coeffs[i][k] == old(pOut.P.Coeffs[i][k])))

fn rlwe.RingQP.MFormLvl
  prop C13 C10
  requires imp(!isnil(r.RingQ), separate(p.Q, pOut.Q))
  requires imp(!isnil(r.RingQ), ringBarr(r.RingQ, levelQ) && polyAt(p.Q, levelQ, r.RingQ.N) && polyAt(pOut.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingP), separate(p.P, pOut.P))
  requires imp(!isnil(r.RingP), ringBarr(r.RingP, levelP) && polyAt(p.P, levelP, r.RingP.N) && polyAt(pOut.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p.Q.Coeffs) != base(p.P.Coeffs) && base(p.Q.Coeffs) != base(pOut.P.Coeffs) && base(pOut.Q.Coeffs) != base(p.P.Coeffs) && base(pOut.Q.Coeffs) != base(pOut.P.Coeffs))
  modifies rows(pOut.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(pOut.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, pOut.Q.Coeffs[i][k] < r.RingQ.Modulus[i]))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, cong(pOut.Q.Coeffs[i][k], old(p.Q.Coeffs[i][k])*R, r.RingQ.Modulus[i])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(pOut.Q.Coeffs[i]), pOut.Q.Coeffs[i][k] == old(pOut.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, pOut.P.Coeffs[i][k] < r.RingP.Modulus[i]))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, cong(pOut.P.Coeffs[i][k], old(p.P.Coeffs[i][k])*R, r.RingP.Modulus[i])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(pOut.P.Coeffs[i]), pOut.P.Coeffs[i][k] == old(pOut.P.Coeffs[i][k])))

fn rlwe.RingQP.InvMFormLvl
  prop C13
  requires imp(!isnil(r.RingQ), separate(p.Q, pOut.Q))
  requires imp(!isnil(r.RingQ), ringMont(r.RingQ, levelQ) && polyAt(p.Q, levelQ, r.RingQ.N) && polyAt(pOut.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingP), separate(p.P, pOut.P))
  requires imp(!isnil(r.RingP), ringMont(r.RingP, levelP) && polyAt(p.P, levelP, r.RingP.N) && polyAt(pOut.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p.Q.Coeffs) != base(p.P.Coeffs) && base(p.Q.Coeffs) != base(pOut.P.Coeffs) && base(pOut.Q.Coeffs) != base(p.P.Coeffs) && base(pOut.Q.Coeffs) != base(pOut.P.Coeffs))
  modifies rows(pOut.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(pOut.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, pOut.Q.Coeffs[i][k] < r.RingQ.Modulus[i]))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, cong(pOut.Q.Coeffs[i][k]*R, old(p.Q.Coeffs[i][k]), r.RingQ.Modulus[i])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(pOut.Q.Coeffs[i]), pOut.Q.Coeffs[i][k] == old(pOut.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, pOut.P.Coeffs[i][k] < r.RingP.Modulus[i]))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, cong(pOut.P.Coeffs[i][k]*R, old(p.P.Coeffs[i][k]), r.RingP.Modulus[i])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(pOut.P.Coeffs[i]), pOut.P.Coeffs[i][k] == old(pOut.P.Coeffs[i][k])))

fn rlwe.RingQP.MulCoeffsMontgomeryLvl
  prop C13
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q))
  requires imp(!isnil(r.RingQ), separate(p1.Q, p3.Q))
  requires imp(!isnil(r.RingQ), separate(p2.Q, p3.Q))
  requires imp(!isnil(r.RingQ), ringMont(r.RingQ, levelQ) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N) && polyAt(p3.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p1.Q.Coeffs[i][k]*p2.Q.Coeffs[i][k] < r.RingQ.Modulus[i]*R))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P))
  requires imp(!isnil(r.RingP), separate(p1.P, p3.P))
  requires imp(!isnil(r.RingP), separate(p2.P, p3.P))
  requires imp(!isnil(r.RingP), ringMont(r.RingP, levelP) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N) && polyAt(p3.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p1.P.Coeffs[i][k]*p2.P.Coeffs[i][k] < r.RingP.Modulus[i]*R))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p1.Q.Coeffs) != base(p3.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(p3.P.Coeffs) && base(p3.Q.Coeffs) != base(p1.P.Coeffs) && base(p3.Q.Coeffs) != base(p2.P.Coeffs) && base(p3.Q.Coeffs) != base(p3.P.Coeffs))
  modifies rows(p3.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(p3.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k] < r.RingQ.Modulus[i]))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, cong(p3.Q.Coeffs[i][k]*R, old(p1.Q.Coeffs[i][k])*old(p2.Q.Coeffs[i][k]), r.RingQ.Modulus[i])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(p3.Q.Coeffs[i]), p3.Q.Coeffs[i][k] == old(p3.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k] < r.RingP.Modulus[i]))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, cong(p3.P.Coeffs[i][k]*R, old(p1.P.Coeffs[i][k])*old(p2.P.Coeffs[i][k]), r.RingP.Modulus[i])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(p3.P.Coeffs[i]), p3.P.Coeffs[i][k] == old(p3.P.Coeffs[i][k])))

fn rlwe.RingQP.MulCoeffsMontgomeryConstantLvl
  prop C13 C10
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q))
  requires imp(!isnil(r.RingQ), separate(p1.Q, p3.Q))
  requires imp(!isnil(r.RingQ), separate(p2.Q, p3.Q))
  requires imp(!isnil(r.RingQ), ringMont(r.RingQ, levelQ) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N) && polyAt(p3.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p1.Q.Coeffs[i][k]*p2.Q.Coeffs[i][k] < r.RingQ.Modulus[i]*R))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P))
  requires imp(!isnil(r.RingP), separate(p1.P, p3.P))
  requires imp(!isnil(r.RingP), separate(p2.P, p3.P))
  requires imp(!isnil(r.RingP), ringMont(r.RingP, levelP) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N) && polyAt(p3.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p1.P.Coeffs[i][k]*p2.P.Coeffs[i][k] < r.RingP.Modulus[i]*R))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p1.Q.Coeffs) != base(p3.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(p3.P.Coeffs) && base(p3.Q.Coeffs) != base(p1.P.Coeffs) && base(p3.Q.Coeffs) != base(p2.P.Coeffs) && base(p3.Q.Coeffs) != base(p3.P.Coeffs))
  modifies rows(p3.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(p3.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k] < 2*r.RingQ.Modulus[i]))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k]*R <= r.RingQ.Modulus[i]*R + old(p1.Q.Coeffs[i][k])*old(p2.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, cong(p3.Q.Coeffs[i][k]*R, old(p1.Q.Coeffs[i][k])*old(p2.Q.Coeffs[i][k]), r.RingQ.Modulus[i])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(p3.Q.Coeffs[i]), p3.Q.Coeffs[i][k] == old(p3.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k] < 2*r.RingP.Modulus[i]))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k]*R <= r.RingP.Modulus[i]*R + old(p1.P.Coeffs[i][k])*old(p2.P.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, cong(p3.P.Coeffs[i][k]*R, old(p1.P.Coeffs[i][k])*old(p2.P.Coeffs[i][k]), r.RingP.Modulus[i])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(p3.P.Coeffs[i]), p3.P.Coeffs[i][k] == old(p3.P.Coeffs[i][k])))

fn rlwe.RingQP.MulCoeffsMontgomeryConstantAndAddNoModLvl
  prop C13 C10
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q))
  requires imp(!isnil(r.RingQ), separate(p1.Q, p3.Q))
  requires imp(!isnil(r.RingQ), separate(p2.Q, p3.Q))
  requires imp(!isnil(r.RingQ), ringMont(r.RingQ, levelQ) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N) && polyAt(p3.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p1.Q.Coeffs[i][k]*p2.Q.Coeffs[i][k] < r.RingQ.Modulus[i]*R))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k]*R + p1.Q.Coeffs[i][k]*p2.Q.Coeffs[i][k] + r.RingQ.Modulus[i]*R < R*R))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P))
  requires imp(!isnil(r.RingP), separate(p1.P, p3.P))
  requires imp(!isnil(r.RingP), separate(p2.P, p3.P))
  requires imp(!isnil(r.RingP), ringMont(r.RingP, levelP) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N) && polyAt(p3.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p1.P.Coeffs[i][k]*p2.P.Coeffs[i][k] < r.RingP.Modulus[i]*R))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k]*R + p1.P.Coeffs[i][k]*p2.P.Coeffs[i][k] + r.RingP.Modulus[i]*R < R*R))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p1.Q.Coeffs) != base(p3.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(p3.P.Coeffs) && base(p3.Q.Coeffs) != base(p1.P.Coeffs) && base(p3.Q.Coeffs) != base(p2.P.Coeffs) && base(p3.Q.Coeffs) != base(p3.P.Coeffs))
  modifies rows(p3.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(p3.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, old(p3.Q.Coeffs[i][k]) <= p3.Q.Coeffs[i][k] && p3.Q.Coeffs[i][k] < old(p3.Q.Coeffs[i][k]) + 2*r.RingQ.Modulus[i]))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k]*R <= old(p3.Q.Coeffs[i][k])*R + r.RingQ.Modulus[i]*R + old(p1.Q.Coeffs[i][k])*old(p2.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, cong(p3.Q.Coeffs[i][k]*R, old(p3.Q.Coeffs[i][k])*R + old(p1.Q.Coeffs[i][k])*old(p2.Q.Coeffs[i][k]), r.RingQ.Modulus[i])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(p3.Q.Coeffs[i]), p3.Q.Coeffs[i][k] == old(p3.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, old(p3.P.Coeffs[i][k]) <= p3.P.Coeffs[i][k] && p3.P.Coeffs[i][k] < old(p3.P.Coeffs[i][k]) + 2*r.RingP.Modulus[i]))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k]*R <= old(p3.P.Coeffs[i][k])*R + r.RingP.Modulus[i]*R + old(p1.P.Coeffs[i][k])*old(p2.P.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, cong(p3.P.Coeffs[i][k]*R, old(p3.P.Coeffs[i][k])*R + old(p1.P.Coeffs[i][k])*old(p2.P.Coeffs[i][k]), r.RingP.Modulus[i])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(p3.P.Coeffs[i]), p3.P.Coeffs[i][k] == old(p3.P.Coeffs[i][k])))

fn rlwe.RingQP.MulCoeffsMontgomeryAndSubLvl
  prop C13 C10
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q))
  requires imp(!isnil(r.RingQ), separate(p1.Q, p3.Q))
  requires imp(!isnil(r.RingQ), separate(p2.Q, p3.Q))
  requires imp(!isnil(r.RingQ), ringMont(r.RingQ, levelQ) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N) && polyAt(p3.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p1.Q.Coeffs[i][k]*p2.Q.Coeffs[i][k] < r.RingQ.Modulus[i]*R))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k] < r.RingQ.Modulus[i]))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P))
  requires imp(!isnil(r.RingP), separate(p1.P, p3.P))
  requires imp(!isnil(r.RingP), separate(p2.P, p3.P))
  requires imp(!isnil(r.RingP), ringMont(r.RingP, levelP) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N) && polyAt(p3.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p1.P.Coeffs[i][k]*p2.P.Coeffs[i][k] < r.RingP.Modulus[i]*R))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k] < r.RingP.Modulus[i]))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p1.Q.Coeffs) != base(p3.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(p3.P.Coeffs) && base(p3.Q.Coeffs) != base(p1.P.Coeffs) && base(p3.Q.Coeffs) != base(p2.P.Coeffs) && base(p3.Q.Coeffs) != base(p3.P.Coeffs))
  modifies rows(p3.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(p3.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k] < r.RingQ.Modulus[i]))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, cong(p3.Q.Coeffs[i][k]*R, old(p3.Q.Coeffs[i][k])*R - old(p1.Q.Coeffs[i][k])*old(p2.Q.Coeffs[i][k]), r.RingQ.Modulus[i])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(p3.Q.Coeffs[i]), p3.Q.Coeffs[i][k] == old(p3.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k] < r.RingP.Modulus[i]))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, cong(p3.P.Coeffs[i][k]*R, old(p3.P.Coeffs[i][k])*R - old(p1.P.Coeffs[i][k])*old(p2.P.Coeffs[i][k]), r.RingP.Modulus[i])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(p3.P.Coeffs[i]), p3.P.Coeffs[i][k] == old(p3.P.Coeffs[i][k])))

fn rlwe.RingQP.MulCoeffsMontgomeryConstantAndSubNoModLvl
  prop C13
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q))
  requires imp(!isnil(r.RingQ), separate(p1.Q, p3.Q))
  requires imp(!isnil(r.RingQ), separate(p2.Q, p3.Q))
  requires imp(!isnil(r.RingQ), ringMont(r.RingQ, levelQ) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N) && polyAt(p3.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p1.Q.Coeffs[i][k]*p2.Q.Coeffs[i][k] < r.RingQ.Modulus[i]*R))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k] + 2*r.RingQ.Modulus[i] < R))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P))
  requires imp(!isnil(r.RingP), separate(p1.P, p3.P))
  requires imp(!isnil(r.RingP), separate(p2.P, p3.P))
  requires imp(!isnil(r.RingP), ringMont(r.RingP, levelP) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N) && polyAt(p3.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p1.P.Coeffs[i][k]*p2.P.Coeffs[i][k] < r.RingP.Modulus[i]*R))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k] + 2*r.RingP.Modulus[i] < R))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p1.Q.Coeffs) != base(p3.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(p3.P.Coeffs) && base(p3.Q.Coeffs) != base(p1.P.Coeffs) && base(p3.Q.Coeffs) != base(p2.P.Coeffs) && base(p3.Q.Coeffs) != base(p3.P.Coeffs))
  modifies rows(p3.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(p3.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, old(p3.Q.Coeffs[i][k]) < p3.Q.Coeffs[i][k] && p3.Q.Coeffs[i][k] <= old(p3.Q.Coeffs[i][k]) + 2*r.RingQ.Modulus[i]))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, cong(p3.Q.Coeffs[i][k]*R, old(p3.Q.Coeffs[i][k])*R - old(p1.Q.Coeffs[i][k])*old(p2.Q.Coeffs[i][k]), r.RingQ.Modulus[i])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(p3.Q.Coeffs[i]), p3.Q.Coeffs[i][k] == old(p3.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, old(p3.P.Coeffs[i][k]) < p3.P.Coeffs[i][k] && p3.P.Coeffs[i][k] <= old(p3.P.Coeffs[i][k]) + 2*r.RingP.Modulus[i]))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, cong(p3.P.Coeffs[i][k]*R, old(p3.P.Coeffs[i][k])*R - old(p1.P.Coeffs[i][k])*old(p2.P.Coeffs[i][k]), r.RingP.Modulus[i])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(p3.P.Coeffs[i]), p3.P.Coeffs[i][k] == old(p3.P.Coeffs[i][k])))

fn rlwe.RingQP.MulCoeffsMontgomeryAndAddLvl
  prop C13
  requires imp(!isnil(r.RingQ), separate(p1.Q, p2.Q))
  requires imp(!isnil(r.RingQ), separate(p1.Q, p3.Q))
  requires imp(!isnil(r.RingQ), separate(p2.Q, p3.Q))
  requires imp(!isnil(r.RingQ), ringMont(r.RingQ, levelQ) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N) && polyAt(p3.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p1.Q.Coeffs[i][k]*p2.Q.Coeffs[i][k] < r.RingQ.Modulus[i]*R))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k] < r.RingQ.Modulus[i]))
  requires imp(!isnil(r.RingP), separate(p1.P, p2.P))
  requires imp(!isnil(r.RingP), separate(p1.P, p3.P))
  requires imp(!isnil(r.RingP), separate(p2.P, p3.P))
  requires imp(!isnil(r.RingP), ringMont(r.RingP, levelP) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N) && polyAt(p3.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p1.P.Coeffs[i][k]*p2.P.Coeffs[i][k] < r.RingP.Modulus[i]*R))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k] < r.RingP.Modulus[i]))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p1.Q.Coeffs) != base(p3.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(p3.P.Coeffs) && base(p3.Q.Coeffs) != base(p1.P.Coeffs) && base(p3.Q.Coeffs) != base(p2.P.Coeffs) && base(p3.Q.Coeffs) != base(p3.P.Coeffs))
  modifies rows(p3.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(p3.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p3.Q.Coeffs[i][k] < r.RingQ.Modulus[i]))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, cong(p3.Q.Coeffs[i][k]*R, old(p3.Q.Coeffs[i][k])*R + old(p1.Q.Coeffs[i][k])*old(p2.Q.Coeffs[i][k]), r.RingQ.Modulus[i])))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(p3.Q.Coeffs[i]), p3.Q.Coeffs[i][k] == old(p3.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p3.P.Coeffs[i][k] < r.RingP.Modulus[i]))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, cong(p3.P.Coeffs[i][k]*R, old(p3.P.Coeffs[i][k])*R + old(p1.P.Coeffs[i][k])*old(p2.P.Coeffs[i][k]), r.RingP.Modulus[i])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(p3.P.Coeffs[i]), p3.P.Coeffs[i][k] == old(p3.P.Coeffs[i][k])))

fn rlwe.RingQP.PermuteNTTWithIndexLvl
  prop C13
  requires imp(!isnil(r.RingQ), levelQ >= -1 && r.RingQ.N >= 0 && mod(r.RingQ.N, 8) == 0 && apart(p1.Q, p2.Q) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), len(index) >= r.RingQ.N && table(index))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, index[k] < len(p1.Q.Coeffs[i])))
  requires imp(!isnil(r.RingP), levelP >= -1 && r.RingP.N >= 0 && mod(r.RingP.N, 8) == 0 && apart(p1.P, p2.P) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), len(index) >= r.RingP.N && table(index))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, index[k] < len(p1.P.Coeffs[i])))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs))
  modifies rows(p2.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(p2.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p2.Q.Coeffs[i][k] == p1.Q.Coeffs[i][index[k]]))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(p2.Q.Coeffs[i]), p2.Q.Coeffs[i][k] == old(p2.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p2.P.Coeffs[i][k] == p1.P.Coeffs[i][index[k]]))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(p2.P.Coeffs[i]), p2.P.Coeffs[i][k] == old(p2.P.Coeffs[i][k])))

fn rlwe.RingQP.PermuteNTTWithIndexAndAddNoModLvl
  prop C13
  requires imp(!isnil(r.RingQ), levelQ >= -1 && r.RingQ.N >= 0 && mod(r.RingQ.N, 8) == 0 && apart(p1.Q, p2.Q) && polyAt(p1.Q, levelQ, r.RingQ.N) && polyAt(p2.Q, levelQ, r.RingQ.N))
  requires imp(!isnil(r.RingQ), len(index) >= r.RingQ.N && table(index))
  requires imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, index[k] < len(p1.Q.Coeffs[i])))
  requires imp(!isnil(r.RingP), levelP >= -1 && r.RingP.N >= 0 && mod(r.RingP.N, 8) == 0 && apart(p1.P, p2.P) && polyAt(p1.P, levelP, r.RingP.N) && polyAt(p2.P, levelP, r.RingP.N))
  requires imp(!isnil(r.RingP), len(index) >= r.RingP.N && table(index))
  requires imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, index[k] < len(p1.P.Coeffs[i])))
  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), base(p1.Q.Coeffs) != base(p1.P.Coeffs) && base(p1.Q.Coeffs) != base(p2.P.Coeffs) && base(p2.Q.Coeffs) != base(p1.P.Coeffs) && base(p2.Q.Coeffs) != base(p2.P.Coeffs))
  modifies rows(p2.Q.Coeffs, 0, ite(isnil(r.RingQ), 0, levelQ + 1))
  modifies rows(p2.P.Coeffs, 0, ite(isnil(r.RingP), 0, levelP + 1))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, 0, r.RingQ.N, p2.Q.Coeffs[i][k] == mod(old(p2.Q.Coeffs[i][k]) + p1.Q.Coeffs[i][index[k]], R)))
  ensures imp(!isnil(r.RingQ), forall(i, 0, levelQ + 1, k, r.RingQ.N, len(p2.Q.Coeffs[i]), p2.Q.Coeffs[i][k] == old(p2.Q.Coeffs[i][k])))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, 0, r.RingP.N, p2.P.Coeffs[i][k] == mod(old(p2.P.Coeffs[i][k]) + p1.P.Coeffs[i][index[k]], R)))
  ensures imp(!isnil(r.RingP), forall(i, 0, levelP + 1, k, r.RingP.N, len(p2.P.Coeffs[i]), p2.P.Coeffs[i][k] == old(p2.P.Coeffs[i][k])))
