// The butterflies of the number theoretic transforms (ring/ring_ntt.go)

fn ring.butterfly
  prop C05
  requires mod(Q, 2) == 1 && Q > 1 && 8*Q <= R && twoQ == 2*Q && fourQ == 4*Q && U < 8*Q && Psi < Q && cong(Q*Qinv, 1, R)
  results X Y
  ensures X < 6*Q && Y <= 6*Q
  ensures cong((X - U)*R, V*Psi, Q)
  ensures cong((U - Y)*R, V*Psi, Q)

fn ring.invbutterfly
  prop C05
  requires mod(Q, 2) == 1 && Q > 1 && 8*Q <= R && twoQ == 2*Q && fourQ == 4*Q && U < 2*Q && V < 4*Q && Psi < Q && cong(Q*Qinv, 1, R)
  results X Y
  ensures X < max(2*Q, V) && Y < 2*Q
  ensures imp(V < 2*Q, X < 2*Q)
  ensures cong(X, U + V, Q)
  ensures cong(Y*R, (U - V)*Psi, Q)
