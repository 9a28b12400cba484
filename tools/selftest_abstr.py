"""Self-test of engine/abstr.py: constraints that have a model (they hold at a point taken at random) must keep one."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import z3
import abstr

rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
F = z3.Float32()
RM = z3.RNE()


def term(vs, w, d):
    if d == 0 or rnd.random() < 0.1:
        if rnd.random() < 0.7:
            v = rnd.choice(vs)
            if v.size() == w:
                return v
            return z3.Extract(w - 1, 0, v) if v.size() > w else rnd.choice([z3.ZeroExt, z3.SignExt])(w - v.size(), v)
        return z3.BitVecVal(rnd.choice([0, 1, 2, 3, -1, 1 << (w - 1), (1 << (w - 1)) - 1, rnd.getrandbits(w)]), w)
    k = rnd.randrange(16)
    a = term(vs, w, d - 1)
    if k < 3:
        return a + term(vs, w, d - 1)
    if k < 5:
        return a - term(vs, w, d - 1)
    if k == 5:
        return -a
    if k == 6:
        return ~a
    if k == 7:
        return a << rnd.randrange(w)
    if k == 8:
        return a * term(vs, w, d - 1)
    if k == 9:
        return a * z3.BitVecVal(rnd.getrandbits(w), w)
    if k == 10:
        return rnd.choice([z3.UDiv, z3.URem, lambda x, y: x / y, z3.SRem])(a, term(vs, w, d - 1))
    if k == 11:
        return rnd.choice([lambda x, y: x & y, lambda x, y: x | y, lambda x, y: x ^ y])(a, term(vs, w, d - 1))
    if k == 12 and w > 4:
        s = rnd.randrange(1, w - 1)
        return z3.Concat(term(vs, w - s, d - 1), rnd.choice([z3.BitVecVal(rnd.getrandbits(s), s), z3.BitVecVal(0, s), term(vs, s, d - 1)]))
    if k == 13:
        return z3.Extract(w - 1, 0, term(vs, w + rnd.randrange(1, 9), d - 1))
    if k == 14:
        return z3.If(cond(vs, d - 1), a, term(vs, w, d - 1))
    if k == 15 and w == 8:
        return z3.fpToUBV(z3.RTZ(), z3.fpAbs(ft(vs, 2)), z3.BitVecSort(8))
    return z3.LShR(a, z3.BitVecVal(rnd.randrange(w), w))


def ft(vs, d):
    if d == 0:
        return z3.fpToFP(RM, term(vs, 8, 1), F) if rnd.random() < 0.7 else z3.FPVal(rnd.choice([0.5, 2.0, -1.0, 3.25]), F)
    k = rnd.randrange(4)
    return [lambda: ft(vs, d - 1) + ft(vs, d - 1), lambda: ft(vs, d - 1) * ft(vs, d - 1), lambda: ft(vs, d - 1) - ft(vs, d - 1),
            lambda: z3.fpNeg(ft(vs, d - 1))][k]()


def cond(vs, d):
    k = rnd.randrange(5)
    w = rnd.choice([4, 8, 16])
    if k == 0:
        return term(vs, w, d) == term(vs, w, d)
    if k == 1:
        return z3.ULT(term(vs, w, d), term(vs, w, d))
    if k == 2:
        return term(vs, w, d) <= term(vs, w, d)
    if k == 3:
        return ft(vs, 2) < ft(vs, 2)
    return z3.And(term(vs, w, d) != term(vs, w, d), z3.ULE(term(vs, w, d), term(vs, w, d)))


n = abstracted = 0
for it in range(int(sys.argv[2]) if len(sys.argv) > 2 else 3000):
    vs = [z3.BitVec('x', 8), z3.BitVec('y', 16), z3.BitVec('z', 8)]
    pins = [(v, z3.BitVecVal(rnd.choice([0, 1, 255, 128, rnd.getrandbits(v.size())]), v.size())) for v in vs]
    cons = []
    for _ in range(3):
        c = cond(vs, 4)
        t = z3.simplify(z3.substitute(c, *pins))
        if z3.is_true(t):
            cons.append(c)
        elif z3.is_false(t):
            cons.append(z3.Not(c))
    cons += [v == p for v, p in pins]
    used = []

    def check(cs):
        used.append(1)
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*cs)
        return str(s.check())
    if abstr.unsat(cons, rnd.random() < 0.7, check):
        print('WRONG', cons)
        sys.exit(1)
    n += 1
    abstracted += len(used)
print(f'{n} satisfiable constraint sets, {abstracted} abstractions, none without a model')
