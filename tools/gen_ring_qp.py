"""Writes contracts/ring_qp.gvc: the operations on QP polynomials, from the contracts
of the ring operations (contracts/ring_ops.gvc, ring_automorphism.gvc). Run by hand when
those change; its output is committed and is what the checks read."""
import re, os
here = os.path.dirname(os.path.abspath(__file__))
C = os.path.join(here, '..', 'contracts')
kern = {}
for f in ('ring_ops.gvc', 'ring_automorphism.gvc', 'ring_poly.gvc'):
    p = os.path.join(C, f)
    if not os.path.exists(p):
        continue
    for blk in re.split(r'\n(?=fn )', open(p).read()):
        m = re.match(r'fn ring\.(?:Ring\.)?(\w+)\n', blk)
        if m:
            kern[m.group(1)] = [l.strip() for l in blk.split('\n')[1:] if l.strip() and not l.strip().startswith('//')]
OPS = '''AddLvl AddNoModLvl SubLvl MFormLvl InvMFormLvl MulCoeffsMontgomeryLvl MulCoeffsMontgomeryConstantLvl
MulCoeffsMontgomeryConstantAndAddNoModLvl MulCoeffsMontgomeryAndSubLvl MulCoeffsMontgomeryConstantAndSubNoModLvl
MulCoeffsMontgomeryAndAddLvl PermuteNTTWithIndexLvl PermuteNTTWithIndexAndAddNoModLvl'''.split()
OUT = {'AddLvl': 'pOut', 'AddNoModLvl': 'pOut', 'SubLvl': 'pOut', 'MFormLvl': 'pOut', 'InvMFormLvl': 'pOut'}
PRE = '''// Operations on QP polynomials (rlwe/ring_qp.go)
// generated by tools/gen_ring_qp.py, then the hand-written part contracts/ring_qp.pre

'''
# used by the key generator and the key switcher (C10)
KS = ['ExtendBasisSmallNormAndCenter', 'MFormLvl', 'MulCoeffsMontgomeryAndSubLvl', 'MulCoeffsMontgomeryConstantAndAddNoModLvl', 'MulCoeffsMontgomeryConstantLvl', 'ReduceLvl']

def fn(name):
    k = kern[name]
    sp = [l for l in k if l.startswith('split')]
    ps = sp[0].split()[1:] if sp else ['polIn', 'polOut']
    names = list(ps)
    if name in ('MFormLvl', 'InvMFormLvl'):
        ren = {ps[0]: 'p', ps[1]: 'pOut'}
    elif name in OUT:
        ren = dict(zip(ps, ['p1', 'p2', 'pOut']))
    else:
        ren = {p: p for p in ps}
    if 'polIn' in ren: ren = {'polIn': 'p1', 'polOut': 'p2'}
    new = list(ren.values())
    def tr(e, part):
        for a, b in ren.items():
            e = re.sub(r'\b%s\b(?=[.,)\s])' % a, '%s\x00.%s' % (b, part), e)
        e = re.sub(r'\br\b(?=[.,)\s])', 'r.Ring' + part, e)
        e = re.sub(r'\blevel\b', 'level' + part, e)
        return e.replace('\x00', '')
    out = ['fn rlwe.RingQP.' + name, '  prop C13' + (' C10' if name in KS else '')]
    pairs = [(a, b) for i, a in enumerate(new) for b in new[i+1:]]
    for part in 'QP':
        for a, b in pairs:
            if sp:
                out.append('  requires imp(!isnil(r.Ring%s), separate(%s.%s, %s.%s))' % (part, a, part, b, part))
        for l in k:
            if l.startswith('requires'):
                out.append('  requires imp(!isnil(r.Ring%s), %s)' % (part, tr(l[9:], part)))
    out.append('  requires imp(!isnil(r.RingQ) && !isnil(r.RingP), %s)' % ' && '.join('base(%s.Q.Coeffs) != base(%s.P.Coeffs)' % (a, b) for a in new for b in new))
    for part in 'QP':
        for l in k:
            m = re.match(r'modifies rows\((\w+)\.Coeffs, 0, (.*)\)$', l)
            if m:
                out.append('  modifies rows(%s.%s.Coeffs, 0, ite(isnil(r.Ring%s), 0, %s))' % (ren[m.group(1)], part, part, tr(m.group(2), part)))
    for part in 'QP':
        for l in k:
            if l.startswith('ensures'):
                out.append('  ensures imp(!isnil(r.Ring%s), %s)' % (part, tr(l[8:], part)))
    return '\n'.join(out)
res = PRE + open(os.path.join(C, 'ring_qp.pre')).read() + '\n' + '\n\n'.join(fn(o) for o in OPS if o in kern) + '\n'
open(os.path.join(C, 'ring_qp.gvc'), 'w').write(res)
