"""Writes contracts/keyswitch.gvc: the key-switching accumulators, the same clauses for the
two outputs and the two moduli. Run by hand; its output is committed."""
import os
C = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts')
out = []
w = out.append
w('''// Key switching (rlwe/keyswitch.go)
// generated by tools/gen_keyswitch.py, then contracts/keyswitch.pre
''')
for s, f in (('Q', 'qi'), ('P', 'pi')):
    w('''fn rlwe.Parameters.%siOverflowMargin
  prop C10 C12
  results m
  requires level >= 0 && level < len(p.%s)
  requires p.%s[0] >= 3
  ensures m >= 0
  ensures forall(j, 0, level + 1, imp(m >= 0, m*p.%s[j] <= R + 8192))
  names m == U_margin%s(base(p.%s), off(p.%s), level)
''' % (s, f, f, f, s, f, f))

pre = os.path.join(C, 'keyswitch.pre')
if os.path.exists(pre):
    w(open(pre).read())
open(os.path.join(C, 'keyswitch.gvc'), 'w').write('''\n'''.join(out) + '\n')
