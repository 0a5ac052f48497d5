// CKKS evaluator (ckks/evaluator.go) on ciphertexts of degree one (two parts)

def ctAt(c, level, n) = c.Ciphertext.Value[0] != nil && c.Ciphertext.Value[1] != nil && polyAt(c.Ciphertext.Value[0], level, n) && polyAt(c.Ciphertext.Value[1], level, n) && apart(c.Ciphertext.Value[0], c.Ciphertext.Value[1])
def ctApart(a, b) = apart(a.Ciphertext.Value[0], b.Ciphertext.Value[0]) && apart(a.Ciphertext.Value[0], b.Ciphertext.Value[1]) && apart(a.Ciphertext.Value[1], b.Ciphertext.Value[0]) && apart(a.Ciphertext.Value[1], b.Ciphertext.Value[1])

fn ckks.evaluator.Neg
  prop C17
  split ct0 ctOut
  let rg = eval.evaluatorBase.params.Parameters.ringQ
  let n = rg.N
  let lvl = min(len(ct0.Ciphertext.Value[0].Coeffs), len(ctOut.Ciphertext.Value[0].Coeffs)) - 1
  fixed len(ct0.Ciphertext.Value) == 2
  fixed len(ctOut.Ciphertext.Value) == 2
  requires rg != nil && lvl >= 0 && ringMod(rg, lvl) && ctAt(ct0, lvl, n) && ctAt(ctOut, lvl, n)
  requires ct0 == ctOut || ctApart(ct0, ctOut)
  requires forall(i, 0, lvl + 1, k, 0, n, ct0.Ciphertext.Value[0].Coeffs[i][k] <= rg.Modulus[i])
  requires forall(i, 0, lvl + 1, k, 0, n, ct0.Ciphertext.Value[1].Coeffs[i][k] <= rg.Modulus[i])
  modifies rows(ctOut.Ciphertext.Value[0].Coeffs, 0, lvl + 1)
  modifies rows(ctOut.Ciphertext.Value[1].Coeffs, 0, lvl + 1)
  modifies ctOut.Scale
  ensures forall(i, 0, lvl + 1, k, 0, n, ctOut.Ciphertext.Value[0].Coeffs[i][k] == rg.Modulus[i] - old(ct0.Ciphertext.Value[0].Coeffs[i][k]))
  ensures forall(i, 0, lvl + 1, k, 0, n, ctOut.Ciphertext.Value[1].Coeffs[i][k] == rg.Modulus[i] - old(ct0.Ciphertext.Value[1].Coeffs[i][k]))
  ensures forall(i, 0, lvl + 1, k, n, len(ctOut.Ciphertext.Value[0].Coeffs[i]), ctOut.Ciphertext.Value[0].Coeffs[i][k] == old(ctOut.Ciphertext.Value[0].Coeffs[i][k]))
  ensures forall(i, 0, lvl + 1, k, n, len(ctOut.Ciphertext.Value[1].Coeffs[i]), ctOut.Ciphertext.Value[1].Coeffs[i][k] == old(ctOut.Ciphertext.Value[1].Coeffs[i][k]))
  ensures ctOut.Scale == old(ct0.Scale)

fn ckks.evaluator.Reduce
  prop C17
  split ct0 ctOut
  let rg = eval.evaluatorBase.params.Parameters.ringQ
  let n = rg.N
  let lvl = min(len(ct0.Ciphertext.Value[0].Coeffs), len(ctOut.Ciphertext.Value[0].Coeffs)) - 1
  fixed len(ct0.Ciphertext.Value) == 2
  fixed len(ctOut.Ciphertext.Value) == 2
  requires rg != nil && lvl >= 0 && ringBarr(rg, lvl) && ctAt(ct0, lvl, n) && ctAt(ctOut, lvl, n)
  requires ct0 == ctOut || ctApart(ct0, ctOut)
  modifies rows(ctOut.Ciphertext.Value[0].Coeffs, 0, lvl + 1)
  modifies rows(ctOut.Ciphertext.Value[1].Coeffs, 0, lvl + 1)
  modifies ctOut.Scale
  ensures forall(i, 0, lvl + 1, k, 0, n, ctOut.Ciphertext.Value[0].Coeffs[i][k] < rg.Modulus[i])
  ensures forall(i, 0, lvl + 1, k, 0, n, ctOut.Ciphertext.Value[1].Coeffs[i][k] < rg.Modulus[i])
  ensures forall(i, 0, lvl + 1, k, 0, n, cong(ctOut.Ciphertext.Value[0].Coeffs[i][k], old(ct0.Ciphertext.Value[0].Coeffs[i][k]), rg.Modulus[i]))
  ensures forall(i, 0, lvl + 1, k, 0, n, cong(ctOut.Ciphertext.Value[1].Coeffs[i][k], old(ct0.Ciphertext.Value[1].Coeffs[i][k]), rg.Modulus[i]))
  ensures forall(i, 0, lvl + 1, k, n, len(ctOut.Ciphertext.Value[0].Coeffs[i]), ctOut.Ciphertext.Value[0].Coeffs[i][k] == old(ctOut.Ciphertext.Value[0].Coeffs[i][k]))
  ensures forall(i, 0, lvl + 1, k, n, len(ctOut.Ciphertext.Value[1].Coeffs[i]), ctOut.Ciphertext.Value[1].Coeffs[i][k] == old(ctOut.Ciphertext.Value[1].Coeffs[i][k]))
  ensures ctOut.Scale == old(ct0.Scale)

fn ckks.evaluator.MulByPow2
  prop C17
  split ct0 ctOut
  let rg = eval.evaluatorBase.params.Parameters.ringQ
  let n = rg.N
  let lvl = min(len(ct0.Ciphertext.Value[0].Coeffs), len(ctOut.Ciphertext.Value[0].Coeffs)) - 1
  fixed len(ct0.Ciphertext.Value) == 2
  fixed len(ctOut.Ciphertext.Value) == 2
  requires rg != nil && lvl >= 0 && ringMont(rg, lvl) && ringBarr(rg, lvl) && ctAt(ct0, lvl, n) && ctAt(ctOut, lvl, n)
  requires ct0 == ctOut || ctApart(ct0, ctOut)
  requires 0 <= pow2 && pow2 <= 64
  modifies rows(ctOut.Ciphertext.Value[0].Coeffs, 0, lvl + 1)
  modifies rows(ctOut.Ciphertext.Value[1].Coeffs, 0, lvl + 1)
  modifies ctOut.Scale
  ensures forall(i, 0, lvl + 1, k, 0, n, ctOut.Ciphertext.Value[0].Coeffs[i][k] < rg.Modulus[i])
  ensures forall(i, 0, lvl + 1, k, 0, n, ctOut.Ciphertext.Value[1].Coeffs[i][k] < rg.Modulus[i])
  ensures forall(i, 0, lvl + 1, k, 0, n, cong(ctOut.Ciphertext.Value[0].Coeffs[i][k], old(ct0.Ciphertext.Value[0].Coeffs[i][k])*pow2(pow2), rg.Modulus[i]))
  ensures forall(i, 0, lvl + 1, k, 0, n, cong(ctOut.Ciphertext.Value[1].Coeffs[i][k], old(ct0.Ciphertext.Value[1].Coeffs[i][k])*pow2(pow2), rg.Modulus[i]))
  ensures forall(i, 0, lvl + 1, k, n, len(ctOut.Ciphertext.Value[0].Coeffs[i]), ctOut.Ciphertext.Value[0].Coeffs[i][k] == old(ctOut.Ciphertext.Value[0].Coeffs[i][k]))
  ensures forall(i, 0, lvl + 1, k, n, len(ctOut.Ciphertext.Value[1].Coeffs[i]), ctOut.Ciphertext.Value[1].Coeffs[i][k] == old(ctOut.Ciphertext.Value[1].Coeffs[i][k]))
  ensures ctOut.Scale == old(ct0.Scale)

fn ckks.evaluator.DropLevel
  prop C17
  fixed len(ct0.Ciphertext.Value) == 2
  let l0 = len(ct0.Ciphertext.Value[0].Coeffs)
  requires ct0.Ciphertext.Value[0] != nil && ct0.Ciphertext.Value[1] != nil && ct0.Ciphertext.Value[0] != ct0.Ciphertext.Value[1] && 0 <= levels && levels <= l0 && len(ct0.Ciphertext.Value[1].Coeffs) == l0
  modifies ct0.Ciphertext.Value[0].Coeffs
  modifies ct0.Ciphertext.Value[1].Coeffs
  ensures len(ct0.Ciphertext.Value[0].Coeffs) == l0 - levels && base(ct0.Ciphertext.Value[0].Coeffs) == old(base(ct0.Ciphertext.Value[0].Coeffs)) && off(ct0.Ciphertext.Value[0].Coeffs) == old(off(ct0.Ciphertext.Value[0].Coeffs))
  ensures len(ct0.Ciphertext.Value[1].Coeffs) == l0 - levels && base(ct0.Ciphertext.Value[1].Coeffs) == old(base(ct0.Ciphertext.Value[1].Coeffs)) && off(ct0.Ciphertext.Value[1].Coeffs) == old(off(ct0.Ciphertext.Value[1].Coeffs))
