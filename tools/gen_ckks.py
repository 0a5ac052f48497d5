#!/usr/bin/env python3
# writes contracts/ckks.gvc
H='''// CKKS evaluator (ckks/evaluator.go) on ciphertexts of degree one (two parts)

def ctAt(c, level, n) = c.Ciphertext.Value[0] != nil && c.Ciphertext.Value[1] != nil && polyAt(c.Ciphertext.Value[0], level, n) && polyAt(c.Ciphertext.Value[1], level, n) && apart(c.Ciphertext.Value[0], c.Ciphertext.Value[1])
def ctApart(a, b) = apart(a.Ciphertext.Value[0], b.Ciphertext.Value[0]) && apart(a.Ciphertext.Value[0], b.Ciphertext.Value[1]) && apart(a.Ciphertext.Value[1], b.Ciphertext.Value[0]) && apart(a.Ciphertext.Value[1], b.Ciphertext.Value[1])
'''
out=[H]
def two(s): return [s.replace('[u]','[0]'), s.replace('[u]','[1]')]
def fn(name, lines):
    out.append('fn '+name)
    for l in lines:
        if '[u]' in l and not l.startswith('let'):
            for x in two(l): out.append('  '+x)
        else: out.append('  '+l)
    out.append('')
RG='let rg = eval.evaluatorBase.params.Parameters.ringQ'
V='.Ciphertext.Value[u].Coeffs'
def unary(name, req, range_in, ens, ctx='ringMod(rg, lvl)'):
    fn(name,['prop C17','split ct0 ctOut',RG,'let n = rg.N',
     'let lvl = min(len(ct0.Ciphertext.Value[0].Coeffs), len(ctOut.Ciphertext.Value[0].Coeffs)) - 1',
     'fixed len(ct0.Ciphertext.Value) == 2','fixed len(ctOut.Ciphertext.Value) == 2',
     f'requires rg != nil && lvl >= 0 && {ctx} && ctAt(ct0, lvl, n) && ctAt(ctOut, lvl, n)',
     'requires ct0 == ctOut || ctApart(ct0, ctOut)']+req+
     ([f'requires forall(i, 0, lvl + 1, k, 0, n, ct0{V}[i][k] {range_in})'] if range_in else [])+
     [f'modifies rows(ctOut{V}, 0, lvl + 1)','modifies ctOut.Scale']+ens+
     [f'ensures forall(i, 0, lvl + 1, k, n, len(ctOut{V}[i]), ctOut{V}[i][k] == old(ctOut{V}[i][k]))',
      'ensures ctOut.Scale == old(ct0.Scale)'])
unary('ckks.evaluator.Neg',[], '<= rg.Modulus[i]',
  [f'ensures forall(i, 0, lvl + 1, k, 0, n, ctOut{V}[i][k] == rg.Modulus[i] - old(ct0{V}[i][k]))'])
unary('ckks.evaluator.Reduce',[], None,
  [f'ensures forall(i, 0, lvl + 1, k, 0, n, ctOut{V}[i][k] < rg.Modulus[i])',
   f'ensures forall(i, 0, lvl + 1, k, 0, n, cong(ctOut{V}[i][k], old(ct0{V}[i][k]), rg.Modulus[i]))'],'ringBarr(rg, lvl)')
unary('ckks.evaluator.MulByPow2',['requires 0 <= pow2 && pow2 <= 64'], None,
  [f'ensures forall(i, 0, lvl + 1, k, 0, n, ctOut{V}[i][k] < rg.Modulus[i])',
   f'ensures forall(i, 0, lvl + 1, k, 0, n, cong(ctOut{V}[i][k], old(ct0{V}[i][k])*pow2(pow2), rg.Modulus[i]))'],'ringMont(rg, lvl) && ringBarr(rg, lvl)')
fn('ckks.evaluator.DropLevel',['prop C17','fixed len(ct0.Ciphertext.Value) == 2',
  'let l0 = len(ct0.Ciphertext.Value[0].Coeffs)',
  'requires ct0.Ciphertext.Value[0] != nil && ct0.Ciphertext.Value[1] != nil && ct0.Ciphertext.Value[0] != ct0.Ciphertext.Value[1] && 0 <= levels && levels <= l0 && len(ct0.Ciphertext.Value[1].Coeffs) == l0',
  'modifies ct0.Ciphertext.Value[0].Coeffs','modifies ct0.Ciphertext.Value[1].Coeffs',
  f'ensures len(ct0{V}) == l0 - levels && base(ct0{V}) == old(base(ct0{V})) && off(ct0{V}) == old(off(ct0{V}))'])
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','contracts','ckks.gvc'),'w').write('\n'.join(out))
