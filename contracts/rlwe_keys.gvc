// Copies and equality of QP polynomials, keys and ciphertexts (rlwe)

def samePoly(a, b) = len(a.Coeffs) == len(b.Coeffs) && forall(i, 0, len(b.Coeffs), len(a.Coeffs[i]) == len(b.Coeffs[i])) && forall(i, 0, len(b.Coeffs), k, 0, len(b.Coeffs[i]), a.Coeffs[i][k] == b.Coeffs[i][k])

fn rlwe.PolyQP.CopyNew
  prop C15
  ensures isnil(result.Q) == isnil(p.Q) && isnil(result.P) == isnil(p.P)
  ensures imp(!isnil(p.Q), len(result.Q.Coeffs) == len(p.Q.Coeffs) && fresh(result.Q.Coeffs))
  ensures imp(!isnil(p.Q), forall(i, 0, len(p.Q.Coeffs), len(result.Q.Coeffs[i]) == len(p.Q.Coeffs[i])))
  ensures imp(!isnil(p.Q), rowsAt(result.Q.Coeffs))
  ensures imp(!isnil(p.Q), forall(i, 0, len(p.Q.Coeffs), k, 0, len(p.Q.Coeffs[i]), result.Q.Coeffs[i][k] == p.Q.Coeffs[i][k]))
  ensures imp(!isnil(p.P), len(result.P.Coeffs) == len(p.P.Coeffs) && fresh(result.P.Coeffs))
  ensures imp(!isnil(p.P), forall(i, 0, len(p.P.Coeffs), len(result.P.Coeffs[i]) == len(p.P.Coeffs[i])))
  ensures imp(!isnil(p.P), rowsAt(result.P.Coeffs))
  ensures imp(!isnil(p.P), forall(i, 0, len(p.P.Coeffs), k, 0, len(p.P.Coeffs[i]), result.P.Coeffs[i][k] == p.P.Coeffs[i][k]))

fn rlwe.PolyQP.Equals
  prop C15
  ensures iff(v, iff(isnil(p.Q), isnil(other.Q)) && imp(!isnil(p.Q), samePoly(p.Q, other.Q)) && iff(isnil(p.P), isnil(other.P)) && imp(!isnil(p.P), samePoly(p.P, other.P)))

def qpEqual(a, b) = iff(isnil(a.Q), isnil(b.Q)) && imp(!isnil(a.Q), samePoly(a.Q, b.Q)) && iff(isnil(a.P), isnil(b.P)) && imp(!isnil(a.P), samePoly(a.P, b.P))

fn rlwe.SecretKey.CopyNew
  prop C15
  nilable sk
  ensures iff(isnil(sk), isnil(result))
  ensures imp(!isnil(sk), qpEqual(result.Value, sk.Value) && fresh(result))
  ensures imp(!isnil(sk) && !isnil(sk.Value.Q), rowsAt(result.Value.Q.Coeffs) && fresh(result.Value.Q.Coeffs))
  ensures imp(!isnil(sk) && !isnil(sk.Value.P), rowsAt(result.Value.P.Coeffs) && fresh(result.Value.P.Coeffs))

fn rlwe.PublicKey.CopyNew
  prop C15
  nilable pk
  ensures iff(isnil(pk), isnil(result))
  ensures imp(!isnil(pk), fresh(result))
  ensures imp(!isnil(pk), qpEqual(result.Value[0], pk.Value[0]))
  ensures imp(!isnil(pk), qpEqual(result.Value[1], pk.Value[1]))
  ensures imp(!isnil(pk) && !isnil(pk.Value[0].Q), rowsAt(result.Value[0].Q.Coeffs) && fresh(result.Value[0].Q.Coeffs))
  ensures imp(!isnil(pk) && !isnil(pk.Value[0].P), rowsAt(result.Value[0].P.Coeffs) && fresh(result.Value[0].P.Coeffs))
  ensures imp(!isnil(pk) && !isnil(pk.Value[1].Q), rowsAt(result.Value[1].Q.Coeffs) && fresh(result.Value[1].Q.Coeffs))
  ensures imp(!isnil(pk) && !isnil(pk.Value[1].P), rowsAt(result.Value[1].P.Coeffs) && fresh(result.Value[1].P.Coeffs))

fn rlwe.PublicKey.Equals
  prop C15
  ensures iff(result, qpEqual(pk.Value[0], other.Value[0]) && qpEqual(pk.Value[1], other.Value[1]))

fn rlwe.Ciphertext.CopyNew
  prop C15
  ensures len(result.Value) == len(el.Value) && fresh(result.Value)
  ensures forall(j, 0, len(el.Value), len(result.Value[j].Coeffs) == len(el.Value[j].Coeffs) && fresh(result.Value[j].Coeffs))
  ensures forall(j, 0, len(el.Value), i, 0, len(el.Value[j].Coeffs), len(result.Value[j].Coeffs[i]) == len(el.Value[j].Coeffs[i]))
  ensures forall(j, 0, len(el.Value), i, 0, len(el.Value[j].Coeffs), fresh(result.Value[j].Coeffs[i]))
  ensures forall(j, 0, len(el.Value), i, 0, len(el.Value[j].Coeffs), k, 0, len(el.Value[j].Coeffs[i]), result.Value[j].Coeffs[i][k] == el.Value[j].Coeffs[i][k])

fn rlwe.SwitchingKey.CopyNew
  prop C15
  nilable swk
  ensures iff(isnil(swk) || len(swk.Value) == 0, isnil(result))
  ensures imp(!isnil(result), len(result.Value) == len(swk.Value) && fresh(result.Value))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), qpEqual(result.Value[j][0], swk.Value[j][0])))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), qpEqual(result.Value[j][1], swk.Value[j][1])))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), imp(!isnil(swk.Value[j][0].Q), fresh(result.Value[j][0].Q.Coeffs))))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), i, 0, ite(isnil(swk.Value[j][0].Q), 0, len(swk.Value[j][0].Q.Coeffs)), fresh(result.Value[j][0].Q.Coeffs[i])))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), imp(!isnil(swk.Value[j][0].P), fresh(result.Value[j][0].P.Coeffs))))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), i, 0, ite(isnil(swk.Value[j][0].P), 0, len(swk.Value[j][0].P.Coeffs)), fresh(result.Value[j][0].P.Coeffs[i])))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), imp(!isnil(swk.Value[j][1].Q), fresh(result.Value[j][1].Q.Coeffs))))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), i, 0, ite(isnil(swk.Value[j][1].Q), 0, len(swk.Value[j][1].Q.Coeffs)), fresh(result.Value[j][1].Q.Coeffs[i])))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), imp(!isnil(swk.Value[j][1].P), fresh(result.Value[j][1].P.Coeffs))))
  ensures imp(!isnil(result), forall(j, 0, len(swk.Value), i, 0, ite(isnil(swk.Value[j][1].P), 0, len(swk.Value[j][1].P.Coeffs)), fresh(result.Value[j][1].P.Coeffs[i])))

fn rlwe.SwitchingKey.Equals
  prop C15
  nilable swk other
  ensures imp(isnil(swk) || isnil(other), iff(result, isnil(swk) && isnil(other)))
  ensures imp(!isnil(swk) && !isnil(other) && result, len(swk.Value) == len(other.Value))
  ensures imp(!isnil(swk) && !isnil(other) && result, forall(j, 0, len(swk.Value), qpEqual(swk.Value[j][0], other.Value[j][0])))
  ensures imp(!isnil(swk) && !isnil(other) && result, forall(j, 0, len(swk.Value), qpEqual(swk.Value[j][1], other.Value[j][1])))
  ensures imp(!isnil(swk) && !isnil(other) && len(swk.Value) == len(other.Value) && forall(j, 0, len(swk.Value), qpEqual(swk.Value[j][0], other.Value[j][0]) && qpEqual(swk.Value[j][1], other.Value[j][1])), result)

fn rlwe.PolyQP.CopyValues
  prop C15
  requires iff(isnil(p.Q), isnil(other.Q)) && iff(isnil(p.P), isnil(other.P)) && separate(p.Q, other.Q) && separate(p.P, other.P)
  requires imp(!isnil(p.Q), rowsOK(p.Q.Coeffs, 0) && rowsOK(other.Q.Coeffs, 0)) && imp(!isnil(p.P), rowsOK(p.P.Coeffs, 0) && rowsOK(other.P.Coeffs, 0))
  requires imp(!isnil(p.Q) && !isnil(p.P), base(p.Q.Coeffs) != base(other.P.Coeffs) && base(p.P.Coeffs) != base(other.Q.Coeffs) && base(p.Q.Coeffs) != base(p.P.Coeffs))
  modifies rows(p.Q.Coeffs, 0, ite(isnil(p.Q), 0, min(len(p.Q.Coeffs), len(other.Q.Coeffs))))
  modifies rows(p.P.Coeffs, 0, ite(isnil(p.P), 0, min(len(p.P.Coeffs), len(other.P.Coeffs))))
  ensures imp(!isnil(p.Q), copied(other.Q, p.Q, min(len(p.Q.Coeffs), len(other.Q.Coeffs))))
  ensures imp(!isnil(p.P), copied(other.P, p.P, min(len(p.P.Coeffs), len(other.P.Coeffs))))

fn rlwe.Ciphertext.Copy
  prop C15
  split el ctxCopy
  requires len(ctxCopy.Value) <= len(el.Value)
  requires base(el.Value) != base(ctxCopy.Value) || el == ctxCopy
  requires forall(j, 0, len(el.Value), rowsOK(el.Value[j].Coeffs, 0) && U_pown(base(el.Value[j])) == base(el.Value) && U_pown(base(el.Value[j].Coeffs)) == base(el.Value) && U_pidx(base(el.Value[j])) == j && U_pidx(base(el.Value[j].Coeffs)) == j)
  requires forall(j, 0, len(ctxCopy.Value), rowsOK(ctxCopy.Value[j].Coeffs, 0) && U_pown(base(ctxCopy.Value[j])) == base(ctxCopy.Value) && U_pown(base(ctxCopy.Value[j].Coeffs)) == base(ctxCopy.Value) && U_pidx(base(ctxCopy.Value[j])) == j && U_pidx(base(ctxCopy.Value[j].Coeffs)) == j)
  modifies *
  ensures forall(j, 0, len(ctxCopy.Value), i, 0, len(ctxCopy.Value[j].Coeffs), k, 0, len(ctxCopy.Value[j].Coeffs[i]), ctxCopy.Value[j].Coeffs[i][k] == old(ctxCopy.Value[j].Coeffs[i][k]))
  ensures forall(j, 0, len(ctxCopy.Value), i, 0, min(len(el.Value[j].Coeffs), len(ctxCopy.Value[j].Coeffs)), k, 0, min(len(el.Value[j].Coeffs[i]), len(ctxCopy.Value[j].Coeffs[i])), el.Value[j].Coeffs[i][k] == ctxCopy.Value[j].Coeffs[i][k])
