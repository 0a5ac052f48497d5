// Parameters and prime generation (rlwe/params.go, ring/primes.go)

// what ring.IsPrime decides is taken as primality
def prime(x) = P_prime(x)

extern ring.IsPrime
  assumed
  results b
  ensures iff(b, P_prime(x))
  note math/big ProbablyPrime(0) (Baillie-PSW) decides primality below 2^64

lemmadef modplus(a, n) = imp(n >= 1, mod(0, n) == 0 && imp(a >= 0, mod(a + n, n) == mod(a, n)))
lemmadef nextmult(a, b, n) = imp(n >= 1 && a >= 0 && a < b && (a == 0 || mod(a, n) == 0) && mod(b, n) == 0, b >= a + n)

fn ring.NextNTTPrime
  prop C12
  results qNext err
  requires NthRoot >= 1 && NthRoot < 1099511627776 && q < pow2(61)
  loopinv phi1 >= q + NthRoot && by(modplus(phi1 - NthRoot - q, NthRoot), mod(phi1 - q, NthRoot) == 0)
  loopinv phi1 <= pow2(61) + NthRoot
  loopinv forall(x, q + 1, phi1, by(nextmult(phi1 - NthRoot - q, x - q, NthRoot), imp(mod(x - q, NthRoot) == 0, !prime(x))))
  ensures imp(isnil(err), prime(qNext) && qNext > q && qNext < pow2(61) && mod(qNext - q, NthRoot) == 0)
  ensures imp(isnil(err), forall(x, q + 1, qNext, imp(mod(x - q, NthRoot) == 0, !prime(x))))
  ensures imp(!isnil(err), forall(x, q + 1, pow2(61), imp(mod(x - q, NthRoot) == 0, !prime(x))))

fn ring.PreviousNTTPrime
  prop C12
  results qPrev err
  requires NthRoot >= 1 && NthRoot < 1099511627776
  loopinv phi1 + NthRoot <= q && by(modplus(q - phi1 - NthRoot, NthRoot), mod(q - phi1, NthRoot) == 0)
  loopinv forall(x, phi1 + 1, q, by(nextmult(q - phi1 - NthRoot, q - x, NthRoot), imp(mod(q - x, NthRoot) == 0, !prime(x))))
  ensures imp(isnil(err), prime(qPrev) && qPrev < q && mod(q - qPrev, NthRoot) == 0)
  ensures imp(isnil(err), forall(x, qPrev + 1, q, imp(mod(q - x, NthRoot) == 0, !prime(x))))

fn rlwe.checkSizeParams
  prop C12
  results err
  ensures iff(isnil(err), logN >= 4 && logN <= 17 && lenQ <= 100 && lenP <= 100)

fn rlwe.checkModuliLogSize
  prop C12
  results err
  ensures iff(isnil(err), forall(i, 0, len(logQ), logQ[i] >= 1 && logQ[i] <= 60) && forall(i, 0, len(logP), logP[i] >= 1 && logP[i] <= 61))

fn rlwe.CheckModuli
  prop C12
  results err
  ensures imp(isnil(err), forall(i, 0, len(q), q[i] < pow2(61)))
  ensures imp(isnil(err), forall(i, 0, len(q), prime(q[i])))
  ensures imp(isnil(err), forall(i, 0, len(p), p[i] < pow2(61)))
  ensures imp(isnil(err), forall(i, 0, len(p), prime(p[i])))
  ensures iff(isnil(err), len(q) <= 100 && len(p) <= 100 && forall(i, 0, len(q), q[i] < pow2(61) && prime(q[i])) && forall(i, 0, len(p), p[i] < pow2(61) && prime(p[i])))

fn rlwe.Parameters.N
  prop C12
  requires p.logN >= 0 && p.logN < 62
  ensures result == pow2(p.logN)

fn rlwe.Parameters.QCount
  prop C12
  ensures result == len(p.qi)

fn rlwe.Parameters.PCount
  prop C12
  ensures result == len(p.pi)

fn rlwe.Parameters.QPCount
  prop C12
  ensures result == len(p.qi) + len(p.pi)

fn rlwe.Parameters.MaxLevel
  prop C12
  ensures result == len(p.qi) - 1

fn rlwe.Parameters.Alpha
  prop C12
  ensures result == len(p.pi)

fn rlwe.Parameters.Beta
  prop C12
  requires len(p.qi) < 1000000 && len(p.pi) < 1000000
  ensures result == ite(len(p.pi) == 0, 1, div(len(p.qi) + len(p.pi) - 1, len(p.pi)))

fn rlwe.Parameters.Q
  prop C12
  fresh result
  ensures len(result) == len(p.qi)
  ensures forall(i, 0, len(p.qi), result[i] == p.qi[i])

fn rlwe.Parameters.P
  prop C12
  fresh result
  ensures len(result) == len(p.pi)
  ensures forall(i, 0, len(p.pi), result[i] == p.pi[i])

fn rlwe.Parameters.QP
  prop C12
  requires len(p.qi) < 1000000 && len(p.pi) < 1000000
  fresh result
  ensures len(result) == len(p.qi) + len(p.pi)
  ensures forall(i, 0, len(p.qi), result[i] == p.qi[i])
  ensures forall(i, 0, len(p.pi), result[len(p.qi) + i] == p.pi[i])
