// Rescaling: division of an RNS polynomial by its last modulus (ring/ring_scaling.go)

// the constants of a ring for the division by the modulus of index level: minus its inverse, in
// Montgomery form, modulo every earlier modulus
def rescaleOK(r, level) = len(r.RescaleParams) >= level && table(r.RescaleParams[level-1]) && len(r.RescaleParams[level-1]) >= level && \
  forall(i, 0, level, r.RescaleParams[level-1][i] < r.Modulus[i] && cong(r.RescaleParams[level-1][i]*r.Modulus[level] + R, 0, r.Modulus[i]))

// y*R = x*s and s*Q = -R modulo an odd q give y*Q = -x
lemmadef rescale(y, x, s, Q, q, m) = imp(cong(y*R, x*s, q) && cong(s*Q + R, 0, q) && cong(q*m, 1, R), cong(y*Q + x, 0, q))

fn ring.Ring.DivFloorByLastModulusLvl
  prop C08
  requires level >= 1 && ringMont(r, level) && rescaleOK(r, level) && polyAt(p0, level, r.N) && polyAt(p1, level - 1, r.N)
  split p0 p1
  requires forall(i, 0, level + 1, 4*r.Modulus[i] < R && len(p0.Coeffs[i]) == r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p0.Coeffs[i][k] < r.Modulus[i])
  requires forall(i, 0, level, r.Modulus[level] + 2*r.Modulus[i] < R)
  let L = r.Modulus[level]
  modifies rows(p1.Coeffs, 0, level)
  ensures forall(i, 0, level, k, 0, r.N, p1.Coeffs[i][k] < r.Modulus[i])
  ensures forall(i, 0, level, k, 0, r.N, cong(p1.Coeffs[i][k]*R, (2*r.Modulus[i] + old(p0.Coeffs[level][k]) - old(p0.Coeffs[i][k]))*r.RescaleParams[level-1][i], r.Modulus[i]))
  concludes forall(i, 0, level, k, 0, r.N, by(rescale(p1.Coeffs[i][k], 2*r.Modulus[i] + old(p0.Coeffs[level][k]) - old(p0.Coeffs[i][k]), r.RescaleParams[level-1][i], L, r.Modulus[i], r.MredParams[i]), \
     cong(p1.Coeffs[i][k]*L, old(p0.Coeffs[i][k]) - old(p0.Coeffs[level][k]), r.Modulus[i])))

// the value of the last row after centring: x + (Q-1)/2 modulo Q
def centred(x, Q) = let(s, x + div(Q - 1, 2), ite(s < Q, s, s - Q))

fn ring.Ring.DivRoundByLastModulusLvl
  prop C08
  split p0 p1
  requires level >= 1 && ringMont(r, level) && ringBarr(r, level) && rescaleOK(r, level) && polyAt(p0, level, r.N) && polyAt(p1, level - 1, r.N)
  requires forall(i, 0, level + 1, 4*r.Modulus[i] < R && len(p0.Coeffs[i]) == r.N)
  requires forall(i, 0, level + 1, k, 0, r.N, p0.Coeffs[i][k] < r.Modulus[i])
  requires forall(i, 0, level, r.Modulus[level] + 3*r.Modulus[i] < R)
  let L = r.Modulus[level]
  modifies rows(p0.Coeffs, 0, level + 1)
  modifies rows(p1.Coeffs, 0, level)
  ensures forall(i, 0, level, k, 0, r.N, p1.Coeffs[i][k] < r.Modulus[i])
  ensures forall(k, 0, r.N, p0.Coeffs[level][k] == centred(old(p0.Coeffs[level][k]), L))
