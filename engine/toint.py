"""Exact translation of bit-vector constraints to integer arithmetic, for queries dominated by division and
multiplication by constants. Every bit-vector term becomes an integer with a known interval; wrap-around is made
explicit with a quotient variable only where the interval says it can happen."""
import z3

K = z3
_UN = {}


class Cannot(Exception):
    pass


class T:
    """a linear form: constant + sum of coefficient * atom, with an interval"""
    __slots__ = ('c', 'm', 'lo', 'hi')

    def __init__(self, c, m, lo, hi):
        self.c, self.m, self.lo, self.hi = c, m, lo, hi

    def key(self):
        return (self.c, tuple(sorted(self.m.items())))


class Translate:
    def __init__(self, cons):
        self.side = []
        self.vars = {}
        self.atoms = []     # (z3 Int, lo, hi)
        self.nf = 0
        self.bv = {}
        self.bo = {}
        self.memo = {}
        self.known = {}     # intervals known for a linear form
        self.bound = {}
        self.lower = {}
        self.size = 0
        for c in cons:
            self.collect(c)
        for c in cons:
            self.pre(c)
        self.out = [self.boolean(c) for c in cons]

    # linear forms bounded by a constraint
    def pre(self, c):
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            for x in c.children():
                self.pre(x)
            return
        neg = k == z3.Z3_OP_NOT
        if neg:
            c = c.arg(0)
            k = c.decl().kind()
        if k != z3.Z3_OP_ULEQ:
            return
        a, b = c.children()
        if z3.is_bv_value(a) == z3.is_bv_value(b):
            return
        var_left = z3.is_bv_value(b)
        t = self.norm_bv(a if var_left else b)
        v = (b if var_left else a).as_long()
        if len(t.m) < 2:
            return
        lo, hi = t.lo, t.hi
        if var_left and not neg:
            hi = min(hi, v)
        elif var_left:
            lo = max(lo, v + 1)
        elif not neg:
            lo = max(lo, v)
        else:
            hi = min(hi, v - 1)
        if lo <= hi:
            old = self.known.get((None, tuple(sorted(t.m.items()))))
            if old:
                lo, hi = max(lo, old[0] + t.c), min(hi, old[1] + t.c)
            if lo <= hi:
                self.learn(t, lo, hi)

    # bounds of variables stated by the constraints themselves
    def collect(self, c):
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            for x in c.children():
                self.collect(x)
        elif k == z3.Z3_OP_ULEQ:
            a, b = c.children()
            if z3.is_bv_value(b):
                a = self.core(a)
                if a is not None:
                    n = a.decl().name()
                    self.bound[n] = min(self.bound.get(n, 1 << a.size()), b.as_long())
            elif z3.is_bv_value(a):
                b = self.core(b)
                if b is not None:
                    n = b.decl().name()
                    self.lower[n] = max(self.lower.get(n, 0), a.as_long())

    @staticmethod
    def core(a):
        while True:
            k = a.decl().kind()
            if k == z3.Z3_OP_ZERO_EXT:
                a = a.children()[0]
            elif k == z3.Z3_OP_CONCAT and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0:
                a = a.arg(1)
            else:
                break
        return a if a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() == 0 else None

    def atom(self, e, lo, hi):
        self.atoms.append((e, lo, hi))
        return T(0, {len(self.atoms) - 1: 1}, lo, hi) if lo != hi else self.const(lo)

    def fresh(self, lo, hi):
        self.nf += 1
        v = z3.Int(f'k!{self.nf}')
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return self.atom(v, lo, hi)

    def const(self, v):
        return T(v, {}, v, v)

    def lin(self, c, m):
        m = {k: v for k, v in m.items() if v}
        lo = hi = c
        for k, v in m.items():
            _, al, ah = self.atoms[k]
            if v > 0:
                lo += v * al
                hi += v * ah
            else:
                lo += v * ah
                hi += v * al
        t = T(c, m, lo, hi)
        if self.known and m:
            # known up to a constant
            kn = self.known.get((None, tuple(sorted(m.items()))))
            if kn:
                t.lo, t.hi = max(lo, kn[0] + c), min(hi, kn[1] + c)
        return t

    def learn(self, t, lo, hi):
        self.known[(None, tuple(sorted(t.m.items())))] = (lo - t.c, hi - t.c)
        if self.atoms:
            self.side.append(self.z(t) >= lo)
            self.side.append(self.z(t) <= hi)

    def add(self, a, b, f=1):
        m = dict(a.m)
        for k, v in b.m.items():
            m[k] = m.get(k, 0) + f * v
        return self.lin(a.c + f * b.c, m)

    def mul(self, a, f):
        return self.lin(a.c * f, {k: v * f for k, v in a.m.items()})

    def z(self, t):
        if not t.m:
            return z3.IntVal(t.c)
        xs = [self.atoms[k][0] if v == 1 else v * self.atoms[k][0] for k, v in sorted(t.m.items())]
        if t.c:
            xs.append(z3.IntVal(t.c))
        return z3.Sum(xs) if len(xs) > 1 else xs[0]

    def n(self, t, w):
        """the value in [0, 2^w)"""
        M = 1 << w
        if t.lo >= 0 and t.hi < M:
            return t
        return self.divmod(t, M)[1]

    def signed(self, t, w):
        t = self.n(t, w)
        H = 1 << (w - 1)
        if t.hi < H:
            return t
        if t.lo >= H:
            return self.add(t, self.const(-2 * H))
        # value = t - 2^w * b with b = (t >= 2^(w-1))
        key = (t.key(), 's', w)
        r = self.memo.get(key)
        if r is None:
            b = self.fresh(0, 1)
            r = self.add(t, self.mul(b, 2 * H), -1)
            self.learn(r, -H, H - 1)
            r.lo, r.hi = max(r.lo, -H), min(r.hi, H - 1)
            self.memo[key] = r
        return r

    def divmod(self, t, c):
        """floor division by a positive constant"""
        ql, qh = t.lo // c, t.hi // c
        if ql == qh:
            r = self.add(t, self.const(-ql * c))
            return self.const(ql), r
        key = (t.key(), 'd', c)
        r = self.memo.get(key)
        if r is None:
            r = self.split(t, c)
            if r is None:
                q = self.fresh(ql, qh)
                m = self.add(t, self.mul(q, c), -1)
                self.learn(m, 0, c - 1)
                m.lo, m.hi = max(m.lo, 0), min(m.hi, c - 1)
                r = (q, m)
            self.memo[key] = r
        return r

    def split(self, t, c):
        """t = c * A + B with B known to lie in [0, c): no new variable needed"""
        a, b = {}, {}
        for k, v in t.m.items():
            if v % c == 0:
                a[k] = v // c
            elif v < 0 and -v * 2 > c or v > 0 and v * 2 > c and v > c:
                a[k], b[k] = v // c, v % c
                if b[k] * 2 > c:
                    a[k] += 1
                    b[k] -= c
            else:
                b[k] = v
        B = self.lin(t.c, b)
        s = B.lo // c
        if B.hi // c != s:
            return None
        return self.lin(s, a), self.lin(t.c - s * c, b)

    def bitvec(self, x):
        i = x.get_id()
        r = self.bv.get(i)
        if r is None:
            self.size += 1
            if self.size > 4000:
                raise Cannot('too big')
            r = self._bv(x)
            self.bv[i] = r
        return r

    def norm_bv(self, x):
        return self.n(self.bitvec(x), x.size())

    def _bv(self, x):
        w = x.size()
        if z3.is_bv_value(x):
            return self.const(x.as_long())
        k = x.decl().kind()
        ch = x.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if ch:
                raise Cannot('function')
            n = x.decl().name()
            v = z3.Int('i!' + n)
            hi = min((1 << w) - 1, self.bound.get(n, 1 << w))
            lo = min(self.lower.get(n, 0), hi)
            self.vars[n] = (v, x)
            self.side += [v >= lo, v <= hi]
            self.atoms.append((v, lo, hi))
            return T(0, {len(self.atoms) - 1: 1}, lo, hi)
        if k == z3.Z3_OP_BADD:
            t = self.const(0)
            for c in ch:
                t = self.add(t, self.bitvec(c))
            return self.tame(t, w)
        if k == z3.Z3_OP_BSUB:
            return self.tame(self.add(self.bitvec(ch[0]), self.bitvec(ch[1]), -1), w)
        if k == z3.Z3_OP_BNEG:
            return self.mul(self.bitvec(ch[0]), -1)
        if k == z3.Z3_OP_BNOT:
            return self.add(self.const(-1), self.bitvec(ch[0]), -1)
        if k == z3.Z3_OP_BMUL:
            c = 1
            vs = []
            for y in ch:
                if z3.is_bv_value(y):
                    c = c * y.as_long() % (1 << w)
                else:
                    vs.append(y)
            if len(vs) != 1:
                raise Cannot('nonlinear')
            if c >= 1 << (w - 1):
                c -= 1 << w
            return self.tame(self.mul(self.bitvec(vs[0]), c), w)
        if k == z3.Z3_OP_CONCAT:
            t = self.const(0)
            for c in ch:
                t = self.add(self.mul(t, 1 << c.size()), self.norm_bv(c))
            return t
        if k == z3.Z3_OP_ZERO_EXT:
            return self.norm_bv(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            return self.signed(self.bitvec(ch[0]), ch[0].size())
        if k == z3.Z3_OP_EXTRACT:
            h, l = x.params()
            if l == 0:
                return self.bitvec(ch[0])   # congruent modulo the smaller power too
            return self.divmod(self.norm_bv(ch[0]), 1 << l)[0]
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            if not z3.is_bv_value(ch[1]) or ch[1].as_long() == 0:
                raise Cannot('division by a variable')
            q, r = self.divmod(self.norm_bv(ch[0]), ch[1].as_long())
            return q if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
            s = ch[1].as_long()
            if s >= w:
                return self.const(0)
            if k == z3.Z3_OP_BSHL:
                return self.tame(self.mul(self.bitvec(ch[0]), 1 << s), w)
            return self.divmod(self.norm_bv(ch[0]), 1 << s)[0]
        if k == z3.Z3_OP_BAND and len(ch) == 2:
            for a, b in (ch, ch[::-1]):
                if z3.is_bv_value(b):
                    m = b.as_long()
                    if m & (m + 1) == 0:
                        return self.divmod(self.norm_bv(a), m + 1)[1]
            raise Cannot('and')
        if k == z3.Z3_OP_ITE:
            c = self.boolean(ch[0])
            a, b = self.norm_bv(ch[1]), self.norm_bv(ch[2])
            if z3.is_true(c):
                return a
            if z3.is_false(c):
                return b
            return self.atom(z3.If(c, self.z(a), self.z(b)), min(a.lo, b.lo), max(a.hi, b.hi))
        raise Cannot(x.decl().name())

    def tame(self, t, w):
        return self.n(t, w) if t.hi - t.lo > 1 << (w + 40) else t

    def boolean(self, x):
        i = x.get_id()
        r = self.bo.get(i)
        if r is None:
            r = self._bool(x)
            self.bo[i] = r
        return r

    def _bool(self, x):
        k = x.decl().kind()
        ch = x.children()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return x
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(ch[0]))
        if k == z3.Z3_OP_AND:
            return z3.And([self.boolean(c) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.boolean(c) for c in ch])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(ch[0]), self.boolean(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.boolean(ch[0]), self.boolean(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(*[self.boolean(c) for c in ch])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT) and len(ch) == 2:
            if z3.is_bool(ch[0]):
                r = self.boolean(ch[0]) == self.boolean(ch[1])
            elif z3.is_bv(ch[0]):
                r = self.cmp(self.norm_bv(ch[0]), self.norm_bv(ch[1]), '==')
            else:
                raise Cannot('eq')
            return z3.Not(r) if k == z3.Z3_OP_DISTINCT else r
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = self.norm_bv(ch[0]), self.norm_bv(ch[1])
        elif k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            w = ch[0].size()
            a, b = self.signed(self.bitvec(ch[0]), w), self.signed(self.bitvec(ch[1]), w)
        elif k == z3.Z3_OP_UNINTERPRETED and not ch:
            self.vars[x.decl().name()] = (x, x)
            return x
        else:
            raise Cannot(x.decl().name())
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ):
            return self.cmp(a, b, '<=')
        if k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT):
            return self.cmp(a, b, '<')
        if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ):
            return self.cmp(b, a, '<=')
        return self.cmp(b, a, '<')

    def cmp(self, a, b, op):
        d = self.add(a, b, -1)
        lo, hi = max(d.lo, a.lo - b.hi), min(d.hi, a.hi - b.lo)
        if op == '==':
            if lo == hi == 0:
                return z3.BoolVal(True)
            if lo > 0 or hi < 0:
                return z3.BoolVal(False)
            return self.z(d) == 0
        if op == '<':
            if hi < 0:
                return z3.BoolVal(True)
            if lo >= 0:
                return z3.BoolVal(False)
            return self.z(d) < 0
        if hi <= 0:
            return z3.BoolVal(True)
        if lo > 0:
            return z3.BoolVal(False)
        return self.z(d) <= 0


def wanted(cons):
    """does a division or remainder by a constant occur"""
    seen = set()
    st = list(cons)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if len(seen) > 6000:
            return False
        k = x.decl().kind()
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            return True
        if k == z3.Z3_OP_BMUL:
            c = x.children()[0]
            if z3.is_bv_value(c) and bin(c.as_long()).count('1') > 1:
                return True
        st.extend(x.children())
    return False


def solve(cons, timeout_ms):
    """('sat', {name: int}) / ('unsat', None) / ('unknown', None)"""
    try:
        t = Translate(cons)
    except Cannot:
        return 'unknown', None
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.add(*t.side)
    s.add(*t.out)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.unsat:
        return 'unsat', None
    if r != z3.sat:
        return 'unknown', None
    m = s.model()
    vals = {}
    for n, (v, x) in t.vars.items():
        e = m.eval(v, model_completion=True)
        vals[n] = (z3.is_true(e) if z3.is_bool(x) else e.as_long(), x)
    return 'sat', vals
