// Scalar modular arithmetic (ring/modular_reduction.go)

// qInv is q^-1 mod 2^64;  u is floor(2^128/q) in two 64-bit words
def isQInv(q, qInv) = cong(q*qInv, 1, R)
def isBRed(q, u) = len(u) >= 2 && (u[0]*R + u[1])*q <= R*R && R*R < (u[0]*R + u[1])*q + q
def modulus(q) = q > 1 && 2*q <= R

lemmadef barrett(X, U, q, K) = imp(0 <= X && X < K && 0 < q && U*q <= K && K < U*q + q, \
   0 <= X - div(X*U, K)*q && X - div(X*U, K)*q < 2*q)

// used by the congruence engine (rule cancelR)
lemmadef cancelR(q, x, P) = imp(cong(q*x, 1, R) && cong(P*R, 0, q), cong(P, 0, q))

fn ring.MRed
  prop C01
  requires modulus(q) && isQInv(q, qInv) && x*y < q*R
  ensures r < q
  ensures cong(r*R, x*y, q)

fn ring.MRedConstant
  prop C01
  requires modulus(q) && isQInv(q, qInv) && x*y < q*R
  ensures r < 2*q && r*R <= q*R + x*y
  ensures cong(r*R, x*y, q)

fn ring.CRed
  prop C01
  results r
  requires q >= 1
  ensures r == ite(a < q, a, a - q)

fn ring.MForm
  prop C01
  requires modulus(q) && isBRed(q, u)
  link 0 - div(a*(u[0]*R + u[1]), R)
  lemma barrett(a*R, u[0]*R + u[1], q, R*R)
  ensures r < q
  ensures cong(r, a*R, q)

fn ring.MFormConstant
  prop C01
  requires modulus(q) && isBRed(q, u)
  link 0 - div(a*(u[0]*R + u[1]), R)
  lemma barrett(a*R, u[0]*R + u[1], q, R*R)
  ensures r < 2*q
  ensures cong(r, a*R, q)

fn ring.InvMForm
  prop C01
  requires modulus(q) && isQInv(q, qInv)
  ensures r < q
  ensures cong(r*R, a, q)

fn ring.InvMFormConstant
  prop C01
  requires modulus(q) && isQInv(q, qInv)
  ensures r <= q
  ensures cong(r*R, a, q)

fn ring.BRedAdd
  prop C01
  requires modulus(q) && isBRed(q, u)
  link div(a*u[0], R)
  lemma barrett(a, u[0], q, R)
  ensures r < q
  ensures cong(r, a, q)

fn ring.BRedAddConstant
  prop C01
  results r
  requires modulus(q) && isBRed(q, u)
  link div(x*u[0], R)
  lemma barrett(x, u[0], q, R)
  ensures r < 2*q
  ensures cong(r, x, q)

fn ring.BRed
  prop C01
  requires modulus(q) && isBRed(q, u)
  link div(x*y*(u[0]*R + u[1]), R*R)
  lemma barrett(x*y, u[0]*R + u[1], q, R*R)
  ensures r < q
  ensures cong(r, x*y, q)

fn ring.BRedConstant
  prop C01
  requires modulus(q) && isBRed(q, u)
  link div(x*y*(u[0]*R + u[1]), R*R)
  lemma barrett(x*y, u[0]*R + u[1], q, R*R)
  ensures r < 2*q
  ensures cong(r, x*y, q)

// P_one(q, i): q = 1 mod 2^(i+1)   (defined and proved in /verif/lean)
lemmadef one_init(q) = imp(mod(q,2) == 1, P_one(q, 0))
lemmadef one_step(q, i) = imp(P_one(q, i) && 0 <= i && i < 63, P_one(mod(q*q, R), i+1))
lemmadef one_final(q, i) = imp(P_one(q, i) && i >= 63, cong(q, 1, R))

fn ring.MRedParams
  prop C02
  nounroll
  requires mod(q, 2) == 1
  lemma one_init(q)
  looplemma one_step(phi1, phi2)
  looplemma one_final(phi1, phi2)
  loopinv P_one(phi1, phi2)
  loopinv cong(phi1*q, phi2, R)
  ensures isQInv(q, qInv)

fn ring.BRedParams
  prop C02
  results params
  requires q > 1
  fresh params
  ensures len(params) == 2
  ensures (params[0]*R + params[1])*q <= R*R && R*R < (params[0]*R + params[1])*q + q

lemmadef shr_split(x, n) = imp(0 <= x && 0 <= n && n <= 64, div(x, pow2(64 - n)) == div(x*pow2(n), R))

fn ring.PowerOf2
  prop C02
  requires modulus(q) && isQInv(q, qInv) && 0 <= n && n <= 64 && x*pow2(n) < q*R
  lemma shr_split(x, n)
  ensures r < q
  ensures cong(r*R, x*pow2(n), q)

