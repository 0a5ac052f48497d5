"""Writes contracts/ring_ops.gvc: the level-wise ring operations, from the contracts
of the vector kernels (contracts/ring_vector_ops.gvc). Run by hand when those change;
its output is committed and is what the checks read."""
import re, os
here = os.path.dirname(os.path.abspath(__file__))
C = os.path.join(here, '..', 'contracts')
src = open(os.path.join(C, 'ring_vector_ops.gvc')).read()
kern = {}
for blk in re.split(r'\n(?=fn )', src):
    m = re.match(r'fn ring\.(\w+)', blk)
    if m:
        kern[m.group(1)] = [l.strip() for l in blk.split('\n')[1:] if l.strip() and not l.strip().startswith('//')]

PRE = open(os.path.join(C, 'ring_ops.pre')).read()
# name, kernel, has plain form
TRI = '''Add AddVec
AddNoMod AddVecNoMod
Sub SubVec
SubNoMod SubVecNomod
MulCoeffs MulCoeffsVec
MulCoeffsAndAdd MulCoeffsAndAddVec
MulCoeffsAndAddNoMod MulCoeffsAndAddNoModVec
MulCoeffsMontgomery MulCoeffsMontgomeryVec
MulCoeffsMontgomeryConstant MulCoeffsMontgomeryConstantVec
MulCoeffsMontgomeryConstantAndNeg- MulCoeffsMontgomeryConstantAndNeg
MulCoeffsMontgomeryAndAdd MulCoeffsMontgomeryAndAddVec
MulCoeffsMontgomeryAndAddNoMod MulCoeffsMontgomeryAndAddNoModVec
MulCoeffsMontgomeryConstantAndAddNoMod MulCoeffsMontgomeryConstantAndAddNoModVec
MulCoeffsMontgomeryAndSub MulCoeffsMontgomeryAndSubVec
MulCoeffsMontgomeryAndSubNoMod MulCoeffsMontgomeryAndSubNoMod
MulCoeffsMontgomeryConstantAndSubNoMod- MulCoeffsMontgomeryConstantAndSubNoMod
MulCoeffsConstant MulCoeffsConstantVec
Neg NegVec
Reduce ReduceVec
ReduceConstant ReduceConstantVec
AddScalar AddScalarVec
SubScalar SubScalarVec
MForm MFormVec
MFormConstant- MFormConstantVec
InvMForm InvMFormVec'''

def subst(e, polys):
    for p in polys:
        e = re.sub(r'\b%s\[k\]' % p, '%s.Coeffs[i][k]' % p, e)
    e = re.sub(r'\bqi\b', 'r.Modulus[i]', e)
    return e

# used by the key generator and the key switcher (C10)
KS = ['ExtendBasisSmallNormAndCenter', 'MFormLvl', 'MulCoeffsMontgomeryAndSubLvl', 'MulCoeffsMontgomeryConstantAndAddNoModLvl', 'MulCoeffsMontgomeryConstantLvl', 'ReduceLvl']

def fn(name, kname, lvl):
    k = kern[kname]
    ps = next(l for l in k if l.startswith('split')).split()[1:]
    dst = re.match(r'modifies (\w+)\[', next(l for l in k if l.startswith('modifies'))).group(1)
    L = 'level' if lvl else 'minLvl%d(r, %s)' % (len(ps), ', '.join(ps))
    out = ['fn ring.Ring.%s%s' % (name, 'Lvl' if lvl else ''), '  prop C04' + (' C10' if name + ('Lvl' if lvl else '') in KS else ''), '  split ' + ' '.join(ps)]
    reqs = [l[9:] for l in k if l.startswith('requires')]
    shape = 'ringMod'
    ex = []
    for rq in reqs:
        if rq.startswith('n%d(' % len(ps)):
            continue
        if rq == 'qi >= 1':
            continue
        if 'isBRed' in rq:
            shape = 'ringBarr'
        if 'isQInv' in rq:
            shape = 'ringMont'
        m = re.match(r'forall\(k, 0, len\(p1\), (.*)\)$', rq)
        if m:
            e = subst(m.group(1), ps)
            if name == 'MulCoeffsMontgomery' and lvl:  # nonlinear at the callers: a hint follows from p2 < q and p1 < 2^64
                e = 'by(mulbound(p1.Coeffs[i][k], p2.Coeffs[i][k], r.Modulus[i]), %s)' % e
            ex.append('forall(i, 0, %s + 1, k, 0, r.N, %s)' % (L, e))
        elif 'R/2' in rq:
            ex.append('forall(i, 0, %s + 1, r.Modulus[i] < R/2)' % L)
        else:
            assert 'modulus(qi)' in rq, rq
    out.append('  requires %s(r, %s) && %s' % (shape, L, ' && '.join('polyAt(%s, %s, r.N)' % (p, L) for p in ps)))
    for e in ex:
        out.append('  requires ' + e)
    out.append('  modifies rows(%s.Coeffs, 0, %s + 1)' % (dst, L))
    for l in k:
        if l.startswith('ensures'):
            m = re.match(r'ensures forall\(k, 0, len\(p1\), (.*)\)$', l)
            out.append('  ensures forall(i, 0, %s + 1, k, 0, r.N, %s)' % (L, subst(m.group(1), ps)))
    out.append('  ensures forall(i, 0, %s + 1, k, r.N, len(%s.Coeffs[i]), %s.Coeffs[i][k] == old(%s.Coeffs[i][k]))' % (L, dst, dst, dst))
    return '\n'.join(out)

blocks = []
for l in TRI.split('\n'):
    n, k = l.split()
    plain = not n.endswith('-')
    n = n.rstrip('-')
    blocks.append(fn(n, k, True))
    if plain:
        blocks.append(fn(n, k, False))
open(os.path.join(C, 'ring_ops.gvc'), 'w').write(PRE + '\n' + '\n\n'.join(blocks) + '\n')
