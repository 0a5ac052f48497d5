// Samplers (ring/ring_sampler*.go, utils/prng.go)

extern utils.PRNG.Clock(sum)
  assumed
  modifies sum[0:len(sum)]
  note a pseudo-random generator writes only the given buffer

fn ring.UniformSampler.Read
  opaquebytes
  prop C14
  let rg = uniformSampler.baseRing
  let nr = len(Pol.Coeffs)
  requires rg != nil && rg.N >= 8 && mod(rg.N, 8) == 0 && len(uniformSampler.randomBufferN) == rg.N
  requires nr <= len(rg.Modulus) && nr <= len(rg.Mask)
  requires table(rg.Modulus) && table(rg.Mask)
  requires rowsOK(Pol.Coeffs, rg.N)
  modifies rows(Pol.Coeffs, 0, nr)
  modifies uniformSampler.randomBufferN[0:rg.N]
  loopinv mod(phi1, 8) == 0 && phi1 <= rg.N
  ensures forall(j, 0, nr, k, 0, rg.N, Pol.Coeffs[j][k] < rg.Modulus[j])

fn ring.UniformSampler.ReadLvl
  opaquebytes
  prop C14
  let rg = uniformSampler.baseRing
  requires rg != nil && rg.N >= 8 && mod(rg.N, 8) == 0 && len(uniformSampler.randomBufferN) == rg.N
  requires level >= 0 && level < len(rg.Modulus) && level < len(rg.Mask)
  requires table(rg.Modulus) && table(rg.Mask)
  requires polyAt(Pol, level, rg.N)
  modifies rows(Pol.Coeffs, 0, level + 1)
  modifies uniformSampler.randomBufferN[0:rg.N]
  loopinv mod(phi1, 8) == 0 && phi1 <= rg.N
  ensures forall(j, 0, level + 1, k, 0, rg.N, Pol.Coeffs[j][k] < rg.Modulus[j])

fn ring.RandUniform
  prop C14
  requires prng != nil
  ensures result < v

def bufOK(g) = len(g.randomBufferN) == 1024 && mod(g.ptr, 8) == 0 && g.ptr <= 1024
def smallPos(x, b) = x <= b
def smallNeg(x, q, b) = x <= q && q - x <= b

fn ring.GaussianSampler.normFloat64
  prop C14
  opaquebytes
  results x sign
  requires gaussianSampler.prng != nil
  requires bufOK(gaussianSampler)
  modifies gaussianSampler.ptr
  modifies gaussianSampler.randomBufferN[0:1024]
  range sign 0 1
  loopinv mod(gaussianSampler.ptr, 8) == 0 && gaussianSampler.ptr <= 1024
  ensures mod(gaussianSampler.ptr, 8) == 0
  ensures gaussianSampler.ptr <= 1024

fn ring.GaussianSampler.readLvl
  prop C14
  storecands
  opaquebytes
  requires gaussianSampler.prng != nil
  requires bufOK(gaussianSampler)
  requires ring != nil && ring.N >= 1 && level >= 0 && level < len(ring.Modulus)
  requires table(ring.Modulus)
  requires polyAt(pol, level, ring.N)
  requires bound >= 0 && forall(j, 0, level + 1, bound <= ring.Modulus[j])
  modifies rows(pol.Coeffs, 0, level + 1)
  modifies gaussianSampler.ptr
  modifies gaussianSampler.randomBufferN[0:1024]
  loopinv mod(gaussianSampler.ptr, 8) == 0 && gaussianSampler.ptr <= 1024
  ensures mod(gaussianSampler.ptr, 8) == 0
  ensures gaussianSampler.ptr <= 1024
  ensures forall(j, 0, level + 1, k, 0, ring.N, smallPos(pol.Coeffs[j][k], bound) && pol.Coeffs[j][k] == pol.Coeffs[0][k] || smallNeg(pol.Coeffs[j][k], ring.Modulus[j], bound) && ring.Modulus[j] - pol.Coeffs[j][k] == ring.Modulus[0] - pol.Coeffs[0][k])

fn ring.GaussianSampler.ReadAndAddFromDistLvl
  prop C14
  storecands
  opaquebytes
  requires gaussianSampler.prng != nil
  requires bufOK(gaussianSampler)
  requires ring != nil && ring.N >= 1 && level >= 0 && level < len(ring.Modulus)
  requires table(ring.Modulus) && forall(j, 0, level + 1, ring.Modulus[j] >= 2 && ring.Modulus[j] < pow2(63))
  requires polyAt(pol, level, ring.N)
  requires forall(j, 0, level + 1, k, 0, ring.N, pol.Coeffs[j][k] < ring.Modulus[j])
  requires bound >= 0 && forall(j, 0, level + 1, bound <= ring.Modulus[j])
  modifies rows(pol.Coeffs, 0, level + 1)
  modifies gaussianSampler.ptr
  modifies gaussianSampler.randomBufferN[0:1024]
  loopinv mod(gaussianSampler.ptr, 8) == 0 && gaussianSampler.ptr <= 1024
  ensures mod(gaussianSampler.ptr, 8) == 0
  ensures gaussianSampler.ptr <= 1024
  ensures forall(j, 0, level + 1, k, 0, ring.N, pol.Coeffs[j][k] < ring.Modulus[j])

fn ring.TernarySampler.initializeMatrix
  prop C14
  let rg = ts.baseRing
  requires rg != nil && len(rg.BredParams) >= len(rg.Modulus) && table(rg.Modulus)
  requires forall(i, 0, len(rg.Modulus), modulus(rg.Modulus[i]) && isBRed(rg.Modulus[i], rg.BredParams[i]))
  modifies ts.matrixValues
  ensures len(ts.matrixValues) == len(rg.Modulus)
  ensures forall(i, 0, len(rg.Modulus), ts.matrixValues[i][0] == 0)
  ensures imp(!montgomery, forall(i, 0, len(rg.Modulus), ts.matrixValues[i][1] == 1))
  ensures imp(!montgomery, forall(i, 0, len(rg.Modulus), ts.matrixValues[i][2] == rg.Modulus[i] - 1))
  ensures imp(montgomery, forall(i, 0, len(rg.Modulus), ts.matrixValues[i][1] < rg.Modulus[i]))
  ensures imp(montgomery, forall(i, 0, len(rg.Modulus), ts.matrixValues[i][2] < rg.Modulus[i]))
  ensures imp(montgomery, forall(i, 0, len(rg.Modulus), cong(ts.matrixValues[i][1], pow2(64), rg.Modulus[i])))
  ensures imp(montgomery, forall(i, 0, len(rg.Modulus), cong(ts.matrixValues[i][2], (rg.Modulus[i] - 1) * pow2(64), rg.Modulus[i])))

extern blake2b.XOF.Read(p)
  assumed
  results n err
  modifies p[0:len(p)]
  ensures err == nil
  note reading from a blake2b XOF of unknown output length writes only the given buffer and never fails (fewer than 2^38 bytes)

fn utils.KeyedPRNG.Clock
  prop C14
  requires prng.xof != nil
  modifies prng.clock
  modifies sum[0:len(sum)]
  ensures imp(old(prng.clock) < pow2(64) - 1, prng.clock == old(prng.clock) + 1)

fn utils.KeyedPRNG.SetClock
  prop C14
  requires prng.xof != nil
  modifies prng.clock
  modifies sum[0:len(sum)]
  ensures iff(result == nil, old(prng.clock) <= n)
  ensures imp(old(prng.clock) <= n, prng.clock == n)
  ensures imp(old(prng.clock) > n, prng.clock == old(prng.clock))
