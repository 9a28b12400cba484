"""Over-approximation for hard queries: products, quotients and floating-point operations become free variables, the same
one wherever the same operation on the same operands occurs; sums of multiples are brought into a normal form first, and
may become free variables too. When the result has no model, neither has the query; a model says nothing."""
import z3

BV = {z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSMOD, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I,
      z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BSMOD_I}
LIN = {z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BNOT, z3.Z3_OP_BSHL, z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT}
COMM = {z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_ADD}
FP_MUL = {z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_FMA, z3.Z3_OP_FPA_SQRT, z3.Z3_OP_FPA_REM}
FP_ALL = FP_MUL | {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED, z3.Z3_OP_FPA_TO_UBV, z3.Z3_OP_FPA_TO_SBV,
                   z3.Z3_OP_FPA_ROUND_TO_INTEGRAL}


def pow2(x):
    return z3.is_bv_value(x) and x.as_long() & (x.as_long() - 1) == 0


def low(e, w):
    return e if e.size() == w else z3.Extract(w - 1, 0, e)


def zeros(v, w):
    return (v & -v).bit_length() - 1 if v else w


class Abstr:
    def __init__(self, fp, sums):
        self.fp, self.sums = fp, sums
        self.memo, self.keep, self.sym, self.forms, self.n = {}, [], {}, {}, 0

    def free(self, key, sort):
        r = self.sym.get(key)
        if r is None:
            self.n += 1
            r = self.sym[key] = z3.FreshConst(sort, 'ab')
        return r

    # a form: ({leaf id: (leaf, coefficient)}, constant), a sum modulo 2^w of leaves at least w bits wide

    def form(self, e):
        """of a term that has been through go()"""
        f = self.forms.get(e.get_id())
        if f is None:
            f = ({e.get_id(): (e, 1)}, 0)
            self.keep.append(e)
        return f

    def scale(self, f, c, w):
        m = (1 << w) - 1
        return ({i: (l, k * c & m) for i, (l, k) in f[0].items() if k * c & m}, f[1] * c & m)

    def add(self, a, b, w):
        m = (1 << w) - 1
        d = dict(a[0])
        for i, (l, k) in b[0].items():
            k = (k + (d[i][1] if i in d else 0)) & m
            d.pop(i, None)
            if k:
                d[i] = (l, k)
        return (d, (a[1] + b[1]) & m)

    def linear(self, e, ch):
        k, w = e.decl().kind(), e.size()
        if k == z3.Z3_OP_BADD:
            f = self.form(ch[0])
            for c in ch[1:]:
                f = self.add(f, self.form(c), w)
            return f
        if k == z3.Z3_OP_BSUB:
            f = self.form(ch[0])
            for c in ch[1:]:
                f = self.add(f, self.scale(self.form(c), -1, w), w)
            return f
        if k == z3.Z3_OP_BNEG:
            return self.scale(self.form(ch[0]), -1, w)
        if k == z3.Z3_OP_BNOT:
            return self.add(({}, (1 << w) - 1), self.scale(self.form(ch[0]), -1, w), w)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
            return self.scale(self.form(ch[0]), 1 << min(ch[1].as_long(), w), w)
        if k == z3.Z3_OP_BMUL:
            f = ({}, 1)
            for c in ch:
                g = self.form(c)
                if not f[0]:
                    f = self.scale(g, f[1], w)
                elif not g[0]:
                    f = self.scale(f, g[1], w)
                else:
                    return None
            return f
        if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
            return self.scale(self.form(ch[0]), 1, w)
        if k == z3.Z3_OP_CONCAT and all(z3.is_bv_value(c) for c in ch[1:]):
            f = self.form(ch[0])
            s = w - ch[0].size()
            d = {}
            for l, c in f[0].values():
                if l.size() < w:
                    l = z3.ZeroExt(w - l.size(), l)  # the added bits are shifted out
                    self.keep.append(l)
                d[l.get_id()] = (l, c)
            v = 0
            for c in ch[1:]:
                v = v << c.size() | c.as_long()
            return self.add(self.scale((d, f[1]), 1 << s, w), ({}, v), w)
        return None

    def build(self, f, w):
        d, c = f
        if not d:
            return z3.BitVecVal(c, w)

        def tz(d, c):
            return min([zeros(k, w) for _, k in d.values()] + [zeros(c, w)])
        k = tz(d, c)
        if not k:
            nd, nc = self.add(({}, (1 << w) - 1), self.scale(f, -1, w), w)
            if tz(nd, nc):
                return ~self.build((nd, nc), w)
        m = w - k

        def signed(v):
            v = (v >> k) & ((1 << m) - 1)
            return v - (1 << m) if v >> (m - 1) else v
        items = sorted((l.get_id(), l, signed(v)) for l, v in d.values())
        c = signed(c)
        if len(items) == 1 and items[0][2] == 1 and c == 0:
            core = low(items[0][1], m)
        elif self.sums:
            wide = min(l.size() for _, l, _ in items)
            core = low(self.free(('sum', wide, tuple((i, v) for i, _, v in items), c), z3.BitVecSort(wide)), m)
        else:
            core = z3.BitVecVal(c, m)
            for i, l, v in items:
                if v == -1:
                    core = core - low(l, m)
                    continue
                core = core + (low(l, m) if v == 1 else low(self.free(('mul', i, v, l.size()), l.sort()), m))
        return z3.Concat(core, z3.BitVecVal(0, k)) if k else core

    def wanted(self, k, ch):
        if k in BV:
            return k == z3.Z3_OP_BMUL or not pow2(ch[1])
        if k not in self.fp:
            return False
        if k == z3.Z3_OP_FPA_TO_FP:
            return len(ch) == 2 and not z3.is_fp_value(ch[1])
        return not all(z3.is_fp_value(c) or z3.is_fprm(c) for c in ch)

    def node(self, x, ch):
        nc = [self.memo[c.get_id()] for c in ch]
        k = x.decl().kind()
        if k in LIN or k == z3.Z3_OP_BMUL:
            f = self.linear(x, nc)
            if f is not None:
                r = self.build(f, x.size())
                self.forms[r.get_id()] = f
                self.keep += [l for l, _ in f[0].values()]
                return r
        if self.wanted(k, nc):
            ids = [c.get_id() for c in nc]
            if k in COMM:
                ids = ids[:-2] + sorted(ids[-2:])
            elif k == z3.Z3_OP_BMUL:
                ids.sort()
            self.keep += nc
            return self.free((k, x.sort().get_id(), tuple(ids)), x.sort())
        if any(a.get_id() != b.get_id() for a, b in zip(ch, nc)):
            return x.decl()(*nc)
        return x

    def go(self, e):
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in self.memo:
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            r = self.node(x, ch) if ch else x
            if z3.is_bv_value(r):
                self.forms[r.get_id()] = ({}, r.as_long())
            self.memo[i] = r
            self.keep += [x, r]
            stack.pop()
        return self.memo[e.get_id()]


def unsat(cons, fp, check):
    """is there an abstraction of the constraints without a model; check: solves constraints within seconds"""
    for f, sums in ([(FP_ALL, True), (FP_MUL, False)] if fp else [(set(), True), (set(), False)]):
        a = Abstr(f, sums)
        out = [a.go(c) for c in cons]
        if not a.n:
            return False
        if check(out) == 'unsat':
            return True
    return False
