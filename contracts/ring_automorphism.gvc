// Automorphisms (ring/ring_automorphism.go, ring/conjugate_invariant.go)

def apart(a, b) = base(a) != base(b) && base(a.Coeffs) != base(b.Coeffs)

fn ring.Ring.PermuteNTTWithIndexLvl
  prop C06
  requires level >= -1 && r.N >= 0 && mod(r.N, 8) == 0 && apart(polIn, polOut) && polyAt(polIn, level, r.N) && polyAt(polOut, level, r.N)
  requires len(index) >= r.N && table(index)
  requires forall(i, 0, level + 1, k, 0, r.N, index[k] < len(polIn.Coeffs[i]))
  modifies rows(polOut.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, polOut.Coeffs[i][k] == polIn.Coeffs[i][index[k]])
  ensures forall(i, 0, level + 1, k, r.N, len(polOut.Coeffs[i]), polOut.Coeffs[i][k] == old(polOut.Coeffs[i][k]))

fn ring.Ring.PermuteNTTWithIndexAndAddNoModLvl
  timeout 120
  prop C06
  requires level >= -1 && r.N >= 0 && mod(r.N, 8) == 0 && apart(polIn, polOut) && polyAt(polIn, level, r.N) && polyAt(polOut, level, r.N)
  requires len(index) >= r.N && table(index)
  requires forall(i, 0, level + 1, k, 0, r.N, index[k] < len(polIn.Coeffs[i]))
  modifies rows(polOut.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, polOut.Coeffs[i][k] == mod(old(polOut.Coeffs[i][k]) + polIn.Coeffs[i][index[k]], R))
  ensures forall(i, 0, level + 1, k, r.N, len(polOut.Coeffs[i]), polOut.Coeffs[i][k] == old(polOut.Coeffs[i][k]))

// the index of the evaluation point of slot i, and back (bit reversal as computed by the
// standard library is the uninterpreted function rev64)
def brev(i, n) = div(rev64(i), pow2(64 - n))

fn utils.BitReverse64
  inline
  prop C06
  requires bitLen <= 64
  ensures result == brev(index, bitLen)

fn ring.GenGaloisParams
  prop C06
  let m = mod(2*n, R)
  requires n >= 2 && n <= pow2(62) && ispow2(m)
  ensures len(galElRotCol) == div(n, 2) && fresh(galElRotCol)
  ensures forall(i, 0, 1, galElRotCol[i] == 1)
  ensures forall(i, 1, div(n, 2), galElRotCol[i] == mod(mod(galElRotCol[i-1]*gen, R), m))

lemmadef brev_lt(x, M, b) = imp(ispow2(M) && pow2(b - 1) <= M && M < pow2(b) && 2 <= b && b <= 64 && 0 <= x && x < R, \
  div(x, pow2(64 - (b - 2))) < div(M, 2))

// the slot that the automorphism X -> X^galEl sends slot i to: the exponent of the evaluation
// point of slot i is 2*brev(i)+1, that of its image is galEl times as much modulo NthRoot
def nttExp(M, galEl, l, i) = mod(mod(galEl*mod(2*brev(i, l) + 1, R), R), M)
def nttImage(M, galEl, l, i) = div(mod(nttExp(M, galEl, l, i) - 1, R), 2)

fn ring.Ring.PermuteNTTIndex
  prop C06
  requires r.N >= 0 && r.NthRoot >= 4 && ispow2(r.NthRoot)
  let M = r.NthRoot
  let l = bitlen(M) - 2
  ensures len(index) == r.N && fresh(index) && table(index)
  ensures forall(i, 0, r.N, index[i] == brev(nttImage(M, galEl, l, i), l))
  ensures forall(i, 0, r.N, by(brev_lt(rev64(nttImage(M, galEl, l, i)), M, bitlen(M)), index[i] < div(M, 2)))

fn ring.Ring.PermuteNTTLvl
  prop C06
  requires r.NthRoot >= 4 && ispow2(r.NthRoot)
  requires level >= -1 && r.N >= 0 && mod(r.N, 8) == 0 && apart(polIn, polOut) && polyAt(polIn, level, r.N) && polyAt(polOut, level, r.N)
  let M = r.NthRoot
  let l = bitlen(M) - 2
  requires forall(i, 0, level + 1, len(polIn.Coeffs[i]) >= div(M, 2))
  modifies rows(polOut.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, polOut.Coeffs[i][k] == polIn.Coeffs[i][brev(nttImage(M, gen, l, k), l)])
  ensures forall(i, 0, level + 1, k, r.N, len(polOut.Coeffs[i]), polOut.Coeffs[i][k] == old(polOut.Coeffs[i][k]))

fn ring.Ring.PermuteNTT
  prop C06
  requires r.NthRoot >= 4 && ispow2(r.NthRoot)
  let level = min(len(polIn.Coeffs), len(polOut.Coeffs)) - 1
  requires r.N >= 0 && mod(r.N, 8) == 0 && apart(polIn, polOut) && polyAt(polIn, level, r.N) && polyAt(polOut, level, r.N)
  let M = r.NthRoot
  let l = bitlen(M) - 2
  requires forall(i, 0, level + 1, len(polIn.Coeffs[i]) >= div(M, 2))
  modifies rows(polOut.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, polOut.Coeffs[i][k] == polIn.Coeffs[i][brev(nttImage(M, gen, l, k), l)])
  ensures forall(i, 0, level + 1, k, r.N, len(polOut.Coeffs[i]), polOut.Coeffs[i][k] == old(polOut.Coeffs[i][k]))

lemmadef pow2_len(N, b) = imp(ispow2(N) && N >= 2 && b >= 1 && pow2(b - 1) <= N - 1 && N - 1 < pow2(b), pow2(b) == N)

// multiplication by an odd number permutes the exponents modulo a power of two
lemmadef perm_inj(i, j, g, N) = imp(ispow2(N) && N <= R && mod(g, 2) == 1 && 0 <= i && i < N && 0 <= j && j < N && \
  mod(mod(i*g, R), N) == mod(mod(j*g, R), N), i == j)

fn ring.Ring.Permute
  prop C06
  let N = r.N
  requires N >= 2 && ispow2(N) && mod(gen, 2) == 1 && apart(polIn, polOut)
  let level = len(r.Modulus) - 1
  requires polyAt(polIn, level, N) && polyAt(polOut, level, N) && table(r.Modulus)
  requires forall(j, 0, level + 1, r.Modulus[j] >= 1)
  requires forall(j, 0, level + 1, k, 0, N, polIn.Coeffs[j][k] < r.Modulus[j])
  modifies rows(polOut.Coeffs, 0, level + 1)
  lemma pow2_len(N, bitlen(N - 1))
  looplemma all(j, perm_inj(phi1, j, gen, N))
  ensures forall(j, 0, level + 1, k, 0, N, polOut.Coeffs[j][mod(mod(k*gen, R), N)] == ite(mod(div(mod(k*gen, R), N), 2) == 1, r.Modulus[j] - polIn.Coeffs[j][k], polIn.Coeffs[j][k]))
  ensures forall(j, 0, level + 1, k, N, len(polOut.Coeffs[j]), polOut.Coeffs[j][k] == old(polOut.Coeffs[j][k]))

fn ring.Ring.UnfoldConjugateInvariantToStandard
  prop C06
  let N = len(polyConjugateInvariant.Coeffs[0])
  panics 2*len(polyConjugateInvariant.Coeffs[0]) != len(polyStd.Coeffs[0])
  requires level >= -1 && apart(polyConjugateInvariant, polyStd) && polyAt(polyConjugateInvariant, level, 0) && polyAt(polyStd, level, 0) && len(polyStd.Coeffs) >= 1 && len(polyConjugateInvariant.Coeffs) >= 1
  requires forall(i, 0, level + 1, len(polyConjugateInvariant.Coeffs[i]) == N && len(polyStd.Coeffs[i]) == 2*N)
  modifies rows(polyStd.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, N, polyStd.Coeffs[i][k] == polyConjugateInvariant.Coeffs[i][k])
  ensures forall(i, 0, level + 1, k, N, 2*N, polyStd.Coeffs[i][k] == polyConjugateInvariant.Coeffs[i][2*N - 1 - k])

fn ring.Ring.FoldStandardToConjugateInvariant
  prop C06
  panics len(polyStandard.Coeffs[0]) != 2*len(polyConjugateInvariant.Coeffs[0])
  requires ringMod(r, level) && apart(polyStandard, polyConjugateInvariant) && polyAt(polyStandard, level, r.N) && polyAt(polyConjugateInvariant, level, r.N) && len(polyStandard.Coeffs) >= 1 && len(polyConjugateInvariant.Coeffs) >= 1
  let idx = permuteNTTIndexInv
  requires len(idx) >= r.N && table(idx) && forall(i, 0, level + 1, k, 0, r.N, idx[k] < len(polyStandard.Coeffs[i]))
  requires forall(i, 0, level + 1, k, 0, len(polyStandard.Coeffs[i]), polyStandard.Coeffs[i][k] < r.Modulus[i])
  modifies rows(polyConjugateInvariant.Coeffs, 0, level + 1)
  ensures forall(i, 0, level + 1, k, 0, r.N, polyConjugateInvariant.Coeffs[i][k] == let(s, polyStandard.Coeffs[i][idx[k]] + polyStandard.Coeffs[i][k], ite(s < r.Modulus[i], s, s - r.Modulus[i])))
  ensures forall(i, 0, level + 1, k, r.N, len(polyConjugateInvariant.Coeffs[i]), polyConjugateInvariant.Coeffs[i][k] == old(polyConjugateInvariant.Coeffs[i][k]))
