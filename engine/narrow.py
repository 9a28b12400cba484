"""Width reduction: rewrites bit-vector terms so that operations on sign- or zero-extended values are carried out on as
few bits as hold every possible value. Exact: the rewritten constraints have the same models."""
import z3

S = z3


class N:
    """a term of width w equal to the sign extension of e, which has k <= w bits; nn: known not negative"""
    __slots__ = ('e', 'k', 'w', 'nn')

    def __init__(self, e, k, w, nn=False):
        self.e, self.k, self.w, self.nn = e, k, w, nn


def ext(n, k):
    return z3.SignExt(k - n.k, n.e) if k > n.k else n.e


def full(n):
    return ext(n, n.w)


def const(v, w):
    if v >> (w - 1):
        v -= 1 << w
    k = min(w, (v.bit_length() if v >= 0 else (~v).bit_length()) + 1)
    return N(z3.BitVecVal(v & ((1 << k) - 1), k), k, w, v >= 0)


def cut(e, hi, lo):
    return e if lo == 0 and hi == e.size() - 1 else z3.Extract(hi, lo, e)


class Narrow:
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.changed = False

    def go(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            e = stack[-1]
            i = e.get_id()
            if i in memo:
                stack.pop()
                continue
            todo = [c for c in e.children() if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[i] = self.one(e, [memo[c.get_id()] for c in e.children()])
            self.keep.append(e)
            stack.pop()
        return memo[root.get_id()]

    def generic(self, e, ch):
        full_ch = [full(c) if isinstance(c, N) else c for c in ch]
        old = e.children()
        r = e
        if any(not a.eq(b) for a, b in zip(full_ch, old)):
            r = e.decl()(*full_ch) if e.decl().arity() == len(full_ch) else self.nary(e, full_ch)
        if z3.is_bv(r):
            return N(r, r.size(), r.size())
        return r

    def nary(self, e, ch):
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if k == z3.Z3_OP_CONCAT:
            return z3.Concat(*ch)
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        f = {z3.Z3_OP_BADD: lambda a, b: a + b, z3.Z3_OP_BMUL: lambda a, b: a * b, z3.Z3_OP_BAND: lambda a, b: a & b,
             z3.Z3_OP_BOR: lambda a, b: a | b, z3.Z3_OP_BXOR: lambda a, b: a ^ b}.get(k)
        if f is None:
            return e.decl()(*ch)
        r = ch[0]
        for c in ch[1:]:
            r = f(r, c)
        return r

    def add(self, a, b, sub=False):
        k = max(a.k, b.k) + 1
        w = a.w
        if k > w:
            k = w
            x, y = full(a), full(b)
            return N(x - y if sub else x + y, w, w)
        x, y = ext(a, k), ext(b, k)
        return N(x - y if sub else x + y, k, w, a.nn and b.nn and not sub)

    def one(self, e, ch):
        k = e.decl().kind()
        if z3.is_bv_value(e):
            return const(e.as_long(), e.size())
        if z3.is_bv(e):
            w = e.size()
            if k == z3.Z3_OP_ITE:
                a, b = ch[1], ch[2]
                n = max(a.k, b.k)
                return N(z3.If(ch[0], ext(a, n), ext(b, n)), n, w, a.nn and b.nn)
            if k == z3.Z3_OP_CONCAT:
                # leading zeros
                if z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
                    rest = ch[1:]
                    if len(rest) == 1:
                        r = rest[0]
                        if r.nn:
                            return N(r.e, r.k, w, True)
                        rest = [r]
                    body = [full(r) for r in rest]
                    b = body[0] if len(body) == 1 else z3.Concat(*body)
                    n = b.size() + 1
                    return N(z3.Concat(z3.BitVecVal(0, 1), b), n, w, True)
                # low zeros: a shift of the high part
                if len(ch) == 2 and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() == 0:
                    a = ch[0]
                    if a.k < a.w:
                        z = e.arg(1)
                        return N(z3.Concat(a.e, z), a.k + z.size(), w, a.nn)
                a = ch[0]
                if a.k < a.w:
                    low = [full(c) for c in ch[1:]]
                    r = z3.Concat(a.e, *low)
                    return N(r, r.size(), w, a.nn)
                return self.generic(e, ch)
            if k == z3.Z3_OP_SIGN_EXT:
                a = ch[0]
                return N(a.e, a.k, w, a.nn)
            if k == z3.Z3_OP_ZERO_EXT:
                a = ch[0]
                if a.nn:
                    return N(a.e, a.k, w, True)
                return N(z3.Concat(z3.BitVecVal(0, 1), full(a)), a.w + 1, w, True) if w > a.w else a
            if k == z3.Z3_OP_EXTRACT:
                hi, lo = e.params()
                a = ch[0]
                if lo >= a.k:
                    if a.nn:
                        return const(0, w)
                    return N(cut(a.e, a.k - 1, a.k - 1), 1, w)
                if hi >= a.k - 1:
                    return N(cut(a.e, a.k - 1, lo), a.k - lo, w, a.nn)
                return N(cut(a.e, hi, lo), w, w)
            if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
                r = ch[0]
                for c in ch[1:]:
                    if k == z3.Z3_OP_BADD:
                        r = self.add(r, c)
                    elif k == z3.Z3_OP_BMUL:
                        n = r.k + c.k
                        if n < w:
                            r = N(ext(r, n) * ext(c, n), n, w, r.nn and c.nn)
                        else:
                            r = N(full(r) * full(c), w, w)
                    else:
                        n = max(r.k, c.k)
                        x, y = ext(r, n), ext(c, n)
                        if k == z3.Z3_OP_BAND:
                            if r.nn or c.nn:
                                n2 = min(q.k for q in (r, c) if q.nn)
                                if n2 < n:
                                    x, y, n = cut(x, n2 - 1, 0), cut(y, n2 - 1, 0), n2
                                # the top bit of the non-negative side is zero
                            r = N(x & y, n, w, r.nn or c.nn)
                        elif k == z3.Z3_OP_BOR:
                            r = N(x | y, n, w, r.nn and c.nn)
                        else:
                            r = N(x ^ y, n, w, r.nn and c.nn)
                return r
            if k == z3.Z3_OP_BSUB and len(ch) == 2:
                return self.add(ch[0], ch[1], True)
            if k == z3.Z3_OP_BNEG:
                a = ch[0]
                n = min(w, a.k + 1)
                return N(-ext(a, n), n, w)
            if k == z3.Z3_OP_BNOT:
                a = ch[0]
                return N(~a.e, a.k, w)
            if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I):
                a, b = ch
                n = min(w, max(a.k, b.k) + 1)
                x, y = ext(a, n), ext(b, n)
                if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                    return N(x / y, n, w)
                return N(z3.SRem(x, y), n, w)
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
                a, b = ch
                if a.nn and b.nn:
                    n = max(a.k, b.k)
                    x, y = ext(a, n), ext(b, n)
                    nz = z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() != 0
                    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
                        return N(z3.UDiv(x, y), n, w, nz)
                    return N(z3.URem(x, y), n, w, True)
                return self.generic(e, ch)
            if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
                s = e.arg(1).as_long()
                a = ch[0]
                if s == 0:
                    return a
                if a.k + s <= w:
                    return N(z3.Concat(a.e, z3.BitVecVal(0, s)), a.k + s, w, a.nn)
                return self.generic(e, ch)
            if k in (z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and z3.is_bv_value(e.arg(1)):
                s = e.arg(1).as_long()
                a = ch[0]
                if k == z3.Z3_OP_BASHR or a.nn:
                    if s >= a.k:
                        return const(0, w) if a.nn else N(cut(a.e, a.k - 1, a.k - 1), 1, w)
                    return N(cut(a.e, a.k - 1, s), a.k - s, w, a.nn)
                return self.generic(e, ch)
            return self.generic(e, ch)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT,
                 z3.Z3_OP_SGEQ, z3.Z3_OP_SGT) and isinstance(ch[0], N):
            a, b = ch
            n = max(a.k, b.k)
            x, y = ext(a, n), ext(b, n)
            if k == z3.Z3_OP_EQ:
                return x == y
            if k == z3.Z3_OP_ULEQ:
                return z3.ULE(x, y)
            if k == z3.Z3_OP_ULT:
                return z3.ULT(x, y)
            if k == z3.Z3_OP_UGEQ:
                return z3.UGE(x, y)
            if k == z3.Z3_OP_UGT:
                return z3.UGT(x, y)
            if k == z3.Z3_OP_SLEQ:
                return x <= y
            if k == z3.Z3_OP_SLT:
                return x < y
            if k == z3.Z3_OP_SGEQ:
                return x >= y
            return x > y
        if k in (z3.Z3_OP_BSMUL_NO_OVFL, z3.Z3_OP_BSMUL_NO_UDFL):
            a, b = ch
            if a.k + b.k <= a.w:
                return z3.BoolVal(True)
        return self.generic(e, ch)


_N = Narrow()
_done = {}


def narrow(cons):
    out = []
    for c in cons:
        r = _done.get(c.get_id())
        if r is None:
            r = z3.simplify(_N.go(c))
            _done[c.get_id()] = r
        if not z3.is_true(r):
            out.append(r)
    return out
