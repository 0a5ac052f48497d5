// Key switching (rlwe/keyswitch.go)
// generated by tools/gen_keyswitch.py, then contracts/keyswitch.pre

fn rlwe.Parameters.QiOverflowMargin
  prop C10 C12
  results m
  requires level >= 0 && level < len(p.qi)
  requires p.qi[0] >= 3
  ensures m >= 0
  ensures forall(j, 0, level + 1, imp(m >= 0, m*p.qi[j] <= R + 8192))
  names m == U_marginQ(base(p.qi), off(p.qi), level)

fn rlwe.Parameters.PiOverflowMargin
  prop C10 C12
  results m
  requires level >= 0 && level < len(p.pi)
  requires p.pi[0] >= 3
  ensures m >= 0
  ensures forall(j, 0, level + 1, imp(m >= 0, m*p.pi[j] <= R + 8192))
  names m == U_marginP(base(p.pi), off(p.pi), level)


