// Decryption (rlwe/decryptor.go)

fn ring.Ring.NTTLazyLvl
  assumed
  prop C16
  split p1 p2
  requires polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(j, 0, level + 1, k, 0, r.N, p2.Coeffs[j][k] <= 6*r.Modulus[j])
  note the interface dispatch and the transform are not followed; range and value are explored by the C05 driver

fn ring.Ring.InvNTTLvl
  assumed
  prop C16
  split p1 p2
  requires polyAt(p1, level, r.N) && polyAt(p2, level, r.N)
  requires forall(j, 0, level + 1, k, 0, r.N, p1.Coeffs[j][k] < 2*r.Modulus[j])
  modifies rows(p2.Coeffs, 0, level + 1)
  ensures forall(j, 0, level + 1, k, 0, r.N, p2.Coeffs[j][k] < r.Modulus[j])
  note the interface dispatch and the transform are not followed; range and value are explored by the C05 driver

fn rlwe.decryptor.Decrypt
  prop C16
  deepframes
  case ciphertext.Value[0].IsNTT
  case plaintext.Value.IsNTT
  let rg = d.ringQ
  let n = rg.N
  let lvl = min(len(ciphertext.Value[0].Coeffs), len(plaintext.Value.Coeffs)) - 1
  let deg = len(ciphertext.Value) - 1
  requires rg != nil && n >= 8 && lvl >= 0 && deg >= 0 && ringMont(rg, lvl) && ringBarr(rg, lvl)
  requires forall(i, 0, deg + 1, ciphertext.Value[i] != nil && polyAt(ciphertext.Value[i], lvl, n) && apart(ciphertext.Value[i], plaintext.Value) && apart(ciphertext.Value[i], d.pool))
  requires forall(j, 0, lvl + 1, 8*rg.Modulus[j] <= R)
  requires polyAt(plaintext.Value, lvl, n) && polyAt(d.pool, lvl, n) && polyAt(d.sk.Value.Q, lvl, n)
  requires apart(plaintext.Value, d.pool) && apart(plaintext.Value, d.sk.Value.Q) && apart(d.pool, d.sk.Value.Q)
  requires forall(i, 0, deg + 1, j, 0, lvl + 1, k, 0, n, ciphertext.Value[i].Coeffs[j][k] < rg.Modulus[j])
  requires forall(j, 0, lvl + 1, k, 0, n, d.sk.Value.Q.Coeffs[j][k] < rg.Modulus[j])
  modifies rows(plaintext.Value.Coeffs, 0, lvl + 1)
  modifies plaintext.Value.Coeffs
  modifies rows(d.pool.Coeffs, 0, lvl + 1)
  ensures len(plaintext.Value.Coeffs) == lvl + 1
  ensures forall(j, 0, lvl + 1, k, 0, n, plaintext.Value.Coeffs[j][k] < rg.Modulus[j])
