#!/usr/bin/env python3-vt
"""Differential test of engine/toint.py against z3's bit-vector solver on random formulas."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
import z3, toint
random.seed(int(os.environ.get('VERIF_SEED', '1')))
W = 8


def term(d, vs, w=W):
    r = random.random()
    if d == 0 or r < .15:
        v = random.choice(vs) if random.random() < .7 else z3.BitVecVal(random.randrange(1 << w), w)
        return v if v.size() == w else (z3.ZeroExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v))
    k = random.randrange(14)
    t = lambda: term(d - 1, vs, w)
    c = z3.BitVecVal(random.randrange(1, 1 << w), w)
    if k == 0: return t() + t()
    if k == 1: return t() - t()
    if k == 2: return t() * c
    if k == 3: return z3.UDiv(t(), c)
    if k == 4: return z3.URem(t(), c)
    if k == 5: return -t()
    if k == 6: return ~t()
    if k == 7: return z3.LShR(t(), random.randrange(w))
    if k == 8: return t() << random.randrange(w)
    if k == 9: return t() & ((1 << random.randrange(w)) - 1)
    if k == 10: return z3.If(form(d - 1, vs), t(), t())
    if k == 11: return z3.SignExt(w // 2, z3.Extract(w - w // 2 - 1, 0, t()))
    if k == 12: return z3.Concat(z3.Extract(w - 1, 3, t()), z3.Extract(2, 0, t()))
    h = random.randrange(w)
    return z3.ZeroExt(w - 1 - (h - h // 2), z3.Extract(h, h // 2, t()))


def form(d, vs):
    a, b = term(d, vs), term(d, vs)
    return random.choice([lambda: a == b, lambda: z3.ULE(a, b), lambda: z3.ULT(a, b), lambda: a <= b, lambda: a < b, lambda: a != b, lambda: z3.UGT(a, b), lambda: a >= b])()


n = cannot = 0
for i in range(int(sys.argv[1]) if len(sys.argv) > 1 else 3000):
    vs = [z3.BitVec(f'v{i}', s) for i, s in enumerate((4, 8, 8))]
    cons = [form(3, vs) for _ in range(random.randrange(1, 4))]
    if random.random() < .5:
        cons.append(z3.ULE(vs[0], random.randrange(16)))
    if random.random() < .5:
        cons = [z3.simplify(c) for c in cons]
    s = z3.SolverFor('QF_BV')
    s.add(*cons)
    want = str(s.check())
    got, vals = toint.solve(cons, 5000)
    if got == 'unknown':
        cannot += 1
        continue
    n += 1
    if got != want:
        print('MISMATCH', want, got, cons)
        sys.exit(1)
    if got == 'sat':
        s2 = z3.Solver()
        s2.add(*cons)
        for k, (v, x) in vals.items():
            s2.add(x == v)
        if s2.check() != z3.sat:
            print('BAD MODEL', cons, vals)
            sys.exit(1)
print(n, 'agree;', cannot, 'not translated')
