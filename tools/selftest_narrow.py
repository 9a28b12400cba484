#!/usr/bin/env python3-vt
"""Self-test of engine/narrow.py: random constraints and their narrowed form are equal at random points and, by the
solver, everywhere."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import z3
import narrow

rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
VARS = [z3.BitVec(f'v{i}_{w}', w) for i, w in enumerate((1, 3, 4, 6, 8, 8))]
W = (4, 7, 8, 12, 16)


def term(w, d):
    if d == 0 or rnd.random() < 0.1:
        if rnd.random() < 0.25:
            return z3.BitVecVal(rnd.choice([0, 1, 2, 3, (1 << w) - 1, 1 << (w - 1), rnd.getrandbits(w)]), w)
        v = rnd.choice(VARS)
        if v.size() == w:
            return v
        if v.size() > w:
            lo = rnd.randrange(v.size() - w + 1)
            return z3.Extract(lo + w - 1, lo, v)
        return (z3.ZeroExt if rnd.random() < 0.6 else z3.SignExt)(w - v.size(), v)
    a = lambda: term(w, d - 1)
    k = rnd.randrange(19)
    if k < 3:
        return a() + a()
    if k == 3:
        return a() - a()
    if k < 6:
        return a() * a()
    if k == 6:
        return -a()
    if k == 7:
        return a() & a()
    if k == 8:
        return a() | a()
    if k == 9:
        return a() ^ a()
    if k == 10:
        return ~a()
    if k == 11:
        return rnd.choice([lambda x, y: x / y, z3.SRem, z3.UDiv, z3.URem])(a(), a())
    if k == 12:
        return z3.If(cond(d - 1), a(), a())
    if k == 13:
        return rnd.choice([lambda x, y: x << y, z3.LShR, lambda x, y: x >> y])(a(), z3.BitVecVal(rnd.randrange(w + 1), w))
    if k == 14:
        return rnd.choice([lambda x, y: x << y, z3.LShR, lambda x, y: x >> y])(a(), a())
    if k == 15:
        w2 = rnd.choice([x for x in W if x >= w])
        lo = rnd.randrange(w2 - w + 1)
        return z3.Extract(lo + w - 1, lo, term(w2, d - 1))
    if k == 16 and w > 4:
        return z3.Concat(term(w - 4, d - 1), term(4, d - 1))
    if k == 17 and w > 4:
        return z3.Concat(z3.BitVecVal(0, w - 4), term(4, d - 1))
    return (z3.ZeroExt if rnd.random() < 0.5 else z3.SignExt)(w - 4, term(4, d - 1)) if w > 4 else a()


def cond(d):
    w = rnd.choice(W)
    a, b = term(w, d), term(w, d)
    k = rnd.randrange(11)
    if k == 9:
        return z3.BVMulNoOverflow(a, b, True)
    if k == 10:
        return z3.BVMulNoUnderflow(a, b)
    return [a == b, a != b, a < b, a <= b, a > b, a >= b, z3.ULT(a, b), z3.ULE(a, b), z3.UGT(a, b)][k]


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 3000
    proved = 0
    for i in range(n):
        c = cond(rnd.randrange(1, 5))
        if rnd.random() < 0.5:
            c = z3.simplify(c, elim_sign_ext=False, bv_le2extract=False)
        r = narrow.narrow([c])
        r = z3.And(*r) if r else z3.BoolVal(True)
        for _ in range(20):
            sub = [(v, z3.BitVecVal(rnd.getrandbits(v.size()), v.size())) for v in VARS]
            x, y = z3.simplify(z3.substitute(c, *sub)), z3.simplify(z3.substitute(r, *sub))
            if not x.eq(y):
                print('MISMATCH', c, r, sub)
                return 1
        s = z3.SolverFor('QF_BV')
        s.set('timeout', 2000)
        s.add(c != r)
        res = s.check()
        if res == z3.sat:
            print('MISMATCH', c, r, s.model())
            return 1
        proved += res == z3.unsat
    print(f'{n} constraints narrowed, {proved} proved equal by the solver, the others equal at 20 points each')
    return 0


sys.exit(main())
