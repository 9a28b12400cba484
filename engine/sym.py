"""Symbolic executor over LLVM IR.

Every value is a Python int/float (concrete) or a z3 expression (symbolic); pointers are
(object, offset) pairs or guarded sets of them.  All memory accesses are bounds/lifetime checked.
Paths fork on feasible symbolic branches and are joined again at vf_merge() points."""
import bisect
import ctypes
import math
import struct
import os
import time
import z3
from llvm import Module, Reg, Undef, GRef
from solver import Solver, Unknown, vars_of

RNE = z3.RNE()
RTZ = z3.RTZ()
F32 = z3.Float32()
F64 = z3.Float64()
MASK = [(1 << n) - 1 for n in range(0, 513)]
BVS = {}


def f32(x):
    return ctypes.c_float(x).value


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """Current path stops (assume false, violation, exit)."""


class Bug(Exception):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return f"Ptr({self.obj},{self.off})"


class PSet:
    __slots__ = ('alts',)   # list of (guard BoolRef, Ptr), guards exclusive and exhaustive

    def __init__(self, alts):
        self.alts = alts


NULL = Ptr(0, 0)


class Obj:
    __slots__ = ('id', 'size', 'base', 'kind', 'alive', 'cells', 'default', 'owner', 'ro', 'name', 'keys')

    def clone(self, owner):
        o = Obj()
        o.id = self.id
        o.size = self.size
        o.base = self.base
        o.kind = self.kind
        o.alive = self.alive
        o.cells = dict(self.cells)
        o.default = self.default
        o.owner = owner
        o.ro = self.ro
        o.name = self.name
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'ret', 'allocas', 'va')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.ip = self.ip
        f.regs = list(self.regs)
        f.ret = self.ret
        f.allocas = list(self.allocas)
        f.va = self.va
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcids', 'model', 'nextobj', 'names', 'obs', 'obs_ok', 'owner', 'steps',
                 'inputs', 'asserts', 'decisions', 'trace', 'local', 'reach', 'elim')

    def fork(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcids = set(self.pcids)
        s.model = self.model
        s.nextobj = self.nextobj
        s.names = dict(self.names)
        s.obs = list(self.obs)
        s.obs_ok = self.obs_ok
        s.steps = self.steps
        s.inputs = list(self.inputs)
        s.asserts = self.asserts
        s.decisions = self.decisions
        s.trace = list(self.trace) if self.trace is not None else None
        s.local = dict(self.local)
        s.reach = self.reach
        s.elim = self.elim
        s.owner = object()
        self.owner = object()
        return s


def isbv(x):
    return isinstance(x, z3.BitVecRef)


def bvval(v, n):
    return z3.BitVecVal(v, n)


def tobv(x, n):
    return x if isinstance(x, z3.ExprRef) else z3.BitVecVal(x, n)


def tobool(x):
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def sgn(x, n):
    return x - (1 << n) if x >> (n - 1) else x


_simp_cache = {}


def simp(e):
    i = e.get_id()
    r = _simp_cache.get(i)
    if r is None:
        r = z3.simplify(e, elim_sign_ext=False, bv_le2extract=False)
        _simp_cache[i] = r
        _simp_cache[('k', i)] = e
    return r


def lit(e):
    """Concrete python value of a literal expression, else None."""
    if isinstance(e, z3.BitVecNumRef):
        return e.as_long()
    if isinstance(e, z3.BoolRef):
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
    return None


def norm(e):
    """simplify a z3 expr and return python literal when possible"""
    if not isinstance(e, z3.ExprRef):
        return e
    s = simp(e)
    v = lit(s)
    if v is not None:
        return v
    if isinstance(s, z3.FPNumRef):
        return fpnum(s)
    return s


def fpnum(e):
    if e.isNaN():
        return float('nan')
    if e.isInf():
        return float('-inf') if e.isNegative() else float('inf')
    if e.isZero():
        return -0.0 if e.isNegative() else 0.0
    b = z3.simplify(z3.fpToIEEEBV(e)).as_long()
    if e.sort() == F32:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def fsort(bits):
    return F32 if bits == 32 else F64


def tofp(x, bits):
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, int):
        x = float(x)
    return fpconst(x, bits)


def fpconst(x, bits):
    b = fbits(x, bits)
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, bits), fsort(bits)))


def fbits(x, bits):
    if bits == 32:
        if x != x:
            return 0x7fc00000
        return struct.unpack('<I', struct.pack('<f', f32(x)))[0]
    if x != x:
        return 0x7ff8000000000000
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bitsf(b, bits):
    if bits == 32:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def ite(c, a, b, bits, isfp=False):
    """a,b: python or z3 values of the same scalar class"""
    if a is b:
        return a
    if not isinstance(a, z3.ExprRef) and not isinstance(b, z3.ExprRef):
        if isinstance(a, float) or isinstance(b, float):
            if fbits(a, 64) == fbits(b, 64):
                return a
        elif a == b:
            return a
    elif isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.get_id() == b.get_id():
        return a
    if isfp:
        return z3.If(c, tofp(a, bits), tofp(b, bits))
    if bits == 1:
        if isinstance(a, int):
            if isinstance(b, int):
                return c if a else z3.Not(c)
            return z3.Or(c, b) if a else z3.And(z3.Not(c), b)
        if isinstance(b, int):
            return z3.Or(z3.Not(c), a) if b else z3.And(c, a)
        return z3.If(c, a, b)
    return z3.If(c, tobv(a, bits), tobv(b, bits))


# ------------------------------------------------------------------ floats that hold exactly representable integers
# (integer-to-float conversions, and sums and differences of them, stay integer terms: exact, and far cheaper to decide)
_i2f = {}
_zero = {}
_MANT = {32: 1 << 24, 64: 1 << 53}


def swidth(lo, hi):
    w = 1
    while not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))):
        w += 1
    return w


def mk_i2f(bv, lo, hi, bits):
    """float holding the signed value of bv, known to lie in [lo, hi] and to be exact"""
    w = swidth(lo, hi)
    if isinstance(bv, int):
        return float(bv)
    if bv.size() > w:
        bv = norm(z3.Extract(w - 1, 0, bv))
        if isinstance(bv, int):
            return float(sgn(bv, w))
    e = norm(z3.fpSignedToFP(RNE, bv, fsort(bits)))
    if isinstance(e, z3.ExprRef):
        _i2f[e.get_id()] = (bv, lo, hi, e)
    return e


def as_int(x, bits):
    if isinstance(x, float):
        if x == x and not math.isinf(x) and x == int(x) and abs(x) <= _MANT[bits] and not (x == 0 and math.copysign(1, x) < 0):
            v = int(x)
            return z3.BitVecVal(v, swidth(v, v)), v, v
        return None
    r = _i2f.get(x.get_id())
    if r is not None:
        return r[:3]
    if x.num_args() == 3 and x.decl().kind() == z3.Z3_OP_ITE:
        def br(y):
            v = fpnum(y) if isinstance(y, z3.FPNumRef) else y
            return as_int(v, bits)
        a = br(x.arg(1))
        if a is None:
            return None
        b = br(x.arg(2))
        if b is None:
            return None
        lo, hi = min(a[1], b[1]), max(a[2], b[2])
        w = swidth(lo, hi)
        v = z3.If(x.arg(0), swid(a[0], w), swid(b[0], w))
        _i2f[x.get_id()] = (v, lo, hi, x)
        return v, lo, hi
    return None


def swid(bv, w):
    n = bv.size()
    if n == w:
        return bv
    if n < w:
        return z3.SignExt(w - n, bv)
    return z3.Extract(w - 1, 0, bv)


def is_zero(x):
    if isinstance(x, float):
        return x == 0
    return x.get_id() in _zero


# ------------------------------------------------------------------ range/stride analysis (syntactic)
_rng = {}
_rngk = []


def urange(e, depth=0):
    """(lo, hi) unsigned bounds of a bit-vector expression; sound over-approximation."""
    if isinstance(e, int):
        return e, e
    v = lit(e)
    if v is not None:
        return v, v
    i = e.get_id()
    r = _rng.get(i)
    if r is not None:
        return r
    n = e.size()
    full = (0, MASK[n])
    if depth > 60:
        return full
    k = e.decl().kind()
    r = full
    if k == z3.Z3_OP_ITE:
        a = urange(e.arg(1), depth + 1)
        b = urange(e.arg(2), depth + 1)
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif k == z3.Z3_OP_ZERO_EXT:
        r = urange(e.arg(0), depth + 1)
    elif k == z3.Z3_OP_CONCAT:
        lo = hi = 0
        for j in range(e.num_args()):
            c = e.arg(j)
            w = c.size()
            a = urange(c, depth + 1)
            lo = (lo << w) | a[0]
            hi = (hi << w) | a[1]
        r = (lo, hi)
    elif k == z3.Z3_OP_BADD:
        lo = hi = 0
        for j in range(e.num_args()):
            a = urange(e.arg(j), depth + 1)
            lo += a[0]
            hi += a[1]
        if hi <= MASK[n]:
            r = (lo, hi)
        else:
            # a single "negative" constant: x + (2^n - c) with x >= c
            if lo > MASK[n] and hi - (1 << n) <= MASK[n]:
                r = (lo - (1 << n), hi - (1 << n))
    elif k == z3.Z3_OP_BMUL and e.num_args() == 2:
        a = urange(e.arg(0), depth + 1)
        b = urange(e.arg(1), depth + 1)
        if a[1] * b[1] <= MASK[n]:
            r = (a[0] * b[0], a[1] * b[1])
    elif k == z3.Z3_OP_BAND:
        hi = MASK[n]
        for j in range(e.num_args()):
            hi = min(hi, urange(e.arg(j), depth + 1)[1])
        r = (0, hi)
    elif k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
        b = urange(e.arg(1), depth + 1)
        a = urange(e.arg(0), depth + 1)
        if b[0] > 0:
            r = (0, min(a[1], b[1] - 1))
    elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
        b = urange(e.arg(1), depth + 1)
        a = urange(e.arg(0), depth + 1)
        if b[0] > 0:
            r = (a[0] // b[1], a[1] // b[0])
    elif k == z3.Z3_OP_BLSHR:
        b = urange(e.arg(1), depth + 1)
        a = urange(e.arg(0), depth + 1)
        r = (a[0] >> min(b[1], 512), a[1] >> min(b[0], 512))
    elif k == z3.Z3_OP_BSHL:
        b = lit(e.arg(1))
        a = urange(e.arg(0), depth + 1)
        if b is not None and (a[1] << b) <= MASK[n]:
            r = (a[0] << b, a[1] << b)
    elif k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        a = urange(e.arg(0), depth + 1)
        if lo == 0 and a[1] <= MASK[n]:
            r = a
        elif a[1] < (1 << (hi + 1)):
            r = (a[0] >> lo, a[1] >> lo)
    elif k == z3.Z3_OP_SIGN_EXT:
        m = e.arg(0).size()
        a = urange(e.arg(0), depth + 1)
        if a[1] < (1 << (m - 1)):
            r = a
    elif k == z3.Z3_OP_BOR:
        hi = 0
        lo = 0
        for j in range(e.num_args()):
            a = urange(e.arg(j), depth + 1)
            hi |= MASK[a[1].bit_length()]
            lo = max(lo, a[0])
        r = (lo, hi)
    _rng[i] = r
    _rngk.append(e)
    return r


_str = {}


def stride(e, depth=0):
    """largest known power-of-two-or-general g, r with e == r (mod g) (g == 0: constant r)."""
    if isinstance(e, int):
        return 0, e
    v = lit(e)
    if v is not None:
        return 0, v
    i = e.get_id()
    r = _str.get(i)
    if r is not None:
        return r
    n = e.size()
    out = (1, 0)
    k = e.decl().kind()
    if depth < 40:
        if k == z3.Z3_OP_BADD:
            lo, hi = 0, 0
            g = 0
            rr = 0
            nowrap = sum(urange(e.arg(j))[1] for j in range(e.num_args())) <= MASK[n]
            for j in range(e.num_args()):
                a = stride(e.arg(j), depth + 1)
                g = math.gcd(g, a[0])
                rr += a[1]
            if g:
                if not nowrap:
                    g = math.gcd(g, 1 << n)
                out = (g, rr % g)
            else:
                out = (0, rr & MASK[n])
        elif k == z3.Z3_OP_BMUL and e.num_args() == 2:
            c = lit(e.arg(0))
            o = e.arg(1)
            if c is None:
                c = lit(e.arg(1))
                o = e.arg(0)
            if c is not None and c:
                a = stride(o, depth + 1)
                g = a[0] * c
                rr = a[1] * c
                if urange(o)[1] * c > MASK[n]:
                    g = math.gcd(g, 1 << n)
                out = (g, rr % g) if g else (0, rr & MASK[n])
        elif k == z3.Z3_OP_BSHL and lit(e.arg(1)) is not None:
            out = (1 << min(lit(e.arg(1)), n), 0)
        elif k == z3.Z3_OP_CONCAT:
            last = e.arg(e.num_args() - 1)
            w = last.size()
            lv = lit(last)
            if lv is not None:
                g = 1 << w
                out = (g, lv)
            else:
                a = stride(last, depth + 1)
                g = math.gcd(a[0], 1 << w)
                out = (g, a[1] % g)
        elif k == z3.Z3_OP_ZERO_EXT:
            out = stride(e.arg(0), depth + 1)
        elif k == z3.Z3_OP_ITE:
            a = stride(e.arg(1), depth + 1)
            b = stride(e.arg(2), depth + 1)
            g = math.gcd(math.gcd(a[0], b[0]), abs(a[1] - b[1]))
            out = (g, a[1] % g) if g else (0, a[1])
    _str[i] = out
    _rngk.append(e)
    return out


_leaves = {}


def leaves(e, limit=64):
    """Set of constants an if-then-else tree of constants can take, or None."""
    if isinstance(e, int):
        return frozenset((e,))
    i = e.get_id()
    r = _leaves.get(i, 0)
    if r != 0:
        return r
    r = None
    v = lit(e)
    if v is not None:
        r = frozenset((v,))
    else:
        k = e.decl().kind()
        n = e.size()
        if k == z3.Z3_OP_ITE:
            a = leaves(e.arg(1))
            b = leaves(e.arg(2)) if a is not None else None
            if b is not None and len(a | b) <= limit:
                r = a | b
        elif k == z3.Z3_OP_BADD or (k == z3.Z3_OP_BMUL and e.num_args() == 2):
            acc = frozenset((0,)) if k == z3.Z3_OP_BADD else frozenset((1,))
            for j in range(e.num_args()):
                a = leaves(e.arg(j))
                if a is None:
                    acc = None
                    break
                if k == z3.Z3_OP_BADD:
                    acc = frozenset((x + y) & MASK[n] for x in acc for y in a)
                else:
                    acc = frozenset((x * y) & MASK[n] for x in acc for y in a)
                if len(acc) > limit:
                    acc = None
                    break
            r = acc
        elif k == z3.Z3_OP_ZERO_EXT:
            r = leaves(e.arg(0))
        elif k == z3.Z3_OP_EXTRACT:
            a = leaves(e.arg(0))
            if a is not None:
                hi, lo = e.params()
                r = frozenset((x >> lo) & MASK[hi - lo + 1] for x in a)
    _leaves[i] = r
    _rngk.append(e)
    return r


# ------------------------------------------------------------------ integer ops
def iadd(a, b, n):
    if isinstance(a, int):
        if isinstance(b, int):
            return (a + b) & MASK[n]
        if a == 0:
            return b
    elif isinstance(b, int) and b == 0:
        return a
    return fold(tobv(a, n) + tobv(b, n))


def isub(a, b, n):
    if isinstance(b, int):
        if isinstance(a, int):
            return (a - b) & MASK[n]
        if b == 0:
            return a
        return fold(a + z3.BitVecVal(-b & MASK[n], n))
    return fold(tobv(a, n) - b)


def imul(a, b, n):
    if isinstance(a, int):
        if isinstance(b, int):
            return (a * b) & MASK[n]
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
    return fold(tobv(a, n) * tobv(b, n))


def fold(e):
    """cheap normalisation, keeping terms shared"""
    return norm(e)


def iand(a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if n == 1:
        if isinstance(a, int):
            return b if a else 0
        if isinstance(b, int):
            return a if b else 0
        return fold(z3.And(a, b))
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == MASK[n]:
            return a
    return fold(tobv(a, n) & tobv(b, n))


def ior(a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if n == 1:
        if isinstance(a, int):
            return 1 if a else b
        if isinstance(b, int):
            return 1 if b else a
        return fold(z3.Or(a, b))
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int) and b == 0:
        return a
    return fold(tobv(a, n) | tobv(b, n))


def ixor(a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if n == 1:
        if isinstance(a, int):
            return inot1(b) if a else b
        if isinstance(b, int):
            return inot1(a) if b else a
        return fold(z3.Xor(a, b))
    return fold(tobv(a, n) ^ tobv(b, n))


def inot1(a):
    if isinstance(a, int):
        return 1 - a
    return fold(z3.Not(a))


def zext(a, n, m):
    if isinstance(a, int):
        return a
    if n == 1:
        return z3.If(a, z3.BitVecVal(1, m), z3.BitVecVal(0, m))
    return fold(z3.ZeroExt(m - n, a))


def sext(a, n, m):
    if isinstance(a, int):
        return sgn(a, n) & MASK[m]
    if n == 1:
        return z3.If(a, z3.BitVecVal(MASK[m], m), z3.BitVecVal(0, m))
    return fold(z3.SignExt(m - n, a))


def trunc(a, n, m):
    if isinstance(a, int):
        return a & MASK[m]
    if m == 1:
        if a.decl().kind() == z3.Z3_OP_ITE and lit(a.arg(1)) == 1 and lit(a.arg(2)) == 0:
            return a.arg(0)
        e = simp(z3.Extract(0, 0, a) == z3.BitVecVal(1, 1))
        v = lit(e)
        return e if v is None else v
    return fold(z3.Extract(m - 1, 0, a))


def icmp(p, a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        if p == 'eq':
            return int(a == b)
        if p == 'ne':
            return int(a != b)
        if p[0] == 's':
            a = sgn(a, n)
            b = sgn(b, n)
        q = p[1:]
        return int(a > b if q == 'gt' else a >= b if q == 'ge' else a < b if q == 'lt' else a <= b)
    if n == 1:
        a = tobool(a)
        b = tobool(b)
        if p == 'eq':
            return fold(a == b)
        if p == 'ne':
            return fold(a != b)
        a = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        b = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    else:
        # bool-as-int pattern:  If(c,1,0) ==/!= const
        if p in ('eq', 'ne'):
            x, y = (a, b) if not isinstance(a, int) else (b, a)
            if isinstance(y, int) and x.decl().kind() == z3.Z3_OP_ITE:
                l1, l2 = lit(x.arg(1)), lit(x.arg(2))
                if l1 is not None and l2 is not None and l1 != l2:
                    if y == l1:
                        r = x.arg(0)
                    elif y == l2:
                        r = inot1(x.arg(0))
                    else:
                        return int(p == 'ne')
                    return r if p == 'eq' else inot1(r)
        # cheap interval decision
        if p[0] == 'u' or p in ('eq', 'ne'):
            ra, rb = urange(a), urange(b)
            if p == 'eq' or p == 'ne':
                if ra[1] < rb[0] or rb[1] < ra[0]:
                    return int(p == 'ne')
            elif p == 'ult':
                if ra[1] < rb[0]:
                    return 1
                if ra[0] >= rb[1]:
                    return 0
            elif p == 'ule':
                if ra[1] <= rb[0]:
                    return 1
                if ra[0] > rb[1]:
                    return 0
            elif p == 'ugt':
                if ra[0] > rb[1]:
                    return 1
                if ra[1] <= rb[0]:
                    return 0
            elif p == 'uge':
                if ra[0] >= rb[1]:
                    return 1
                if ra[1] < rb[0]:
                    return 0
        a = tobv(a, n)
        b = tobv(b, n)
    if p == 'eq':
        e = a == b
    elif p == 'ne':
        e = a != b
    elif p == 'ugt':
        e = z3.UGT(a, b)
    elif p == 'uge':
        e = z3.UGE(a, b)
    elif p == 'ult':
        e = z3.ULT(a, b)
    elif p == 'ule':
        e = z3.ULE(a, b)
    elif p == 'sgt':
        e = a > b
    elif p == 'sge':
        e = a >= b
    elif p == 'slt':
        e = a < b
    else:
        e = a <= b
    return fold(e)


def shift(op, a, b, n):
    if isinstance(b, int):
        if b >= n:
            # poison; the sanitiser check precedes it where it matters
            b = b % n if n & (n - 1) == 0 else 0
        if isinstance(a, int):
            if op == 'shl':
                return (a << b) & MASK[n]
            if op == 'lshr':
                return a >> b
            return (sgn(a, n) >> b) & MASK[n]
        if b == 0:
            return a
        if op == 'shl':
            return fold(a << z3.BitVecVal(b, n))
        if op == 'lshr':
            return fold(z3.LShR(a, z3.BitVecVal(b, n)))
        return fold(a >> z3.BitVecVal(b, n))
    a = tobv(a, n)
    if op == 'shl':
        return fold(a << b)
    if op == 'lshr':
        return fold(z3.LShR(a, b))
    return fold(a >> b)


def idiv(op, a, b, n):
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise Bug('div', 'division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sgn(a, n), sgn(b, n)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & MASK[n]
        return (x - q * y) & MASK[n]
    if isinstance(b, int) and op in ('udiv', 'urem'):
        if b and b & (b - 1) == 0:
            sh = b.bit_length() - 1
            if op == 'udiv':
                return shift('lshr', a, sh, n)
            return iand(a, b - 1, n)
        if b:
            r = urange(a)
            if r[1] < b:
                return 0 if op == 'udiv' else a
    a = tobv(a, n)
    b = tobv(b, n)
    if op == 'udiv':
        return fold(z3.UDiv(a, b))
    if op == 'urem':
        return fold(z3.URem(a, b))
    if op == 'sdiv':
        return fold(a / b)
    return fold(z3.SRem(a, b))


# ------------------------------------------------------------------ the executor
class Executor:
    def __init__(self, module, solver, opts=None):
        self.m = module
        self.sol = solver
        o = opts or {}
        self.max_steps = o.get('max_steps', 400000)
        self.max_paths = o.get('max_paths', 200000)
        self.deadline = o.get('deadline')
        self.linked = {}
        self.gobjs = {}          # name -> obj id
        self.objname = {}
        self.base_mem = {}
        self.bases = []
        self.base_ids = []
        self.nextg = 1
        self.work = []
        self.parked = {}
        self.park_order = []
        self.stats = dict(paths=0, forks=0, merges=0, merged_states=0, steps=0, asserts=0, assert_sites=set(),
                          branches=0, accesses=0, assume_dead=0)
        self.funcs_used = set()
        self.violations = []
        self.finished = []      # (state) sample of completed paths
        self.on_complete = None
        self.on_violation = None
        self.reached = {}
        self.cur = None
        self.replace = {}       # function name -> python callable(ex, st, fr, inst, args)
        self.maxwit = o.get('maxwit', 60)
        self.merge_min = int(o.get('merge_min', 1000))
        self.hooks = None       # concurrency recorder
        self.lines = set()
        self.natives = {}
        for k in dir(self):
            if k.startswith('n_'):
                self.natives[k[2:]] = getattr(self, k)
        for k, v in NATIVE_ALIASES.items():
            self.natives[k] = getattr(self, v)
        self.dispatch = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}
        self.gsetup()

    # -------------------------------------------------- globals
    def addr_of_id(self, oid):
        return (1 << 40) + oid * (1 << 32)

    def gsetup(self):
        import llvm as LL
        m = self.m
        todo = []
        for name, g in m.globals.items():
            t = m.ty(LL.GlValType(g))
            oid = self.nextg
            self.nextg += 1
            o = Obj()
            o.id = oid
            o.size = t.asize
            o.base = self.addr_of_id(oid)
            o.kind = 'global'
            o.alive = True
            o.cells = {}
            o.default = 0
            o.owner = None
            o.ro = bool(LL.GlConst(g))
            o.name = name
            self.gobjs[name] = oid
            self.base_mem[oid] = o
            todo.append((g, t, o))
        for name in list(m.funcs) + list(m.aliases):
            oid = self.nextg
            self.nextg += 1
            self.gobjs[name] = oid
            self.objname[oid] = name
        for g, t, o in todo:
            init = LL.GlInit(g)
            if not init:
                o.default = None
                continue
            if LL._KIND.get(LL.ValueKind(init)) == 'zero':
                continue
            try:
                v = m.const(init)
            except NotImplementedError:
                o.default = None
                continue
            self.init_cells(o, 0, v, t)

    def init_cells(self, o, off, v, t):
        if isinstance(v, Undef):
            return
        if t.kind in ('array', 'vector'):
            for i in range(t.n):
                self.init_cells(o, off + i * t.elem.asize, v[i], t.elem)
        elif t.kind == 'struct':
            for i in range(t.n):
                self.init_cells(o, off + t.offs[i], v[i], t.elems[i])
        else:
            x = self.konst(v, t)
            o.cells[off] = (t.size, x)

    def konst(self, v, t=None):
        if isinstance(v, GRef):
            if v.name is None:
                return Ptr(0, v.off)
            n = v.name
            if n in self.m.aliases:
                import llvm as LL
                n = self.m._fname[LL.Aliasee(self.m.aliases[n])]
            return Ptr(self.gobjs[n], v.off)
        if isinstance(v, tuple):
            if v and v[0] == 'p2i':
                p = self.konst(v[1])
                return (self.ptr_int(p)) & MASK[v[2]]
            if v and v[0] == 'ce':
                a = [self.konst(x) for x in v[2]]
                if v[1] == 'sub':
                    return (a[0] - a[1]) & MASK[v[3]]
                if v[1] == 'add':
                    return (a[0] + a[1]) & MASK[v[3]]
                return a[0] & MASK[v[3]]
            if t is not None and t.kind == 'struct':
                return tuple(self.konst(x, e) for x, e in zip(v, t.elems))
            if t is not None and t.kind in ('array', 'vector'):
                return tuple(self.konst(x, t.elem) for x in v)
            return tuple(self.konst(x) for x in v)
        if t is not None and t.kind == 'float' and isinstance(v, float):
            return f32(v)
        return v

    def link(self, f):
        for b in f.blocks:
            for I in b.phis:
                I.x = {k: (v if isinstance(v, (Reg, Undef)) else self.konst(v, I.ty)) for k, v in I.x.items()}
            for I in b.insts:
                I.ops = [o if isinstance(o, (Reg, Undef)) or o is None else self.konst(o, self._opty(I, j))
                         for j, o in enumerate(I.ops)]
                if I.op == 'call' and not isinstance(I.x, (str, Reg)):
                    I.x = self.konst(I.x)
        self.linked[f.name] = f

    def _opty(self, I, j):
        if I.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'select', 'insertvalue', 'insertelement', 'shufflevector',
                    'ret'):
            if I.op == 'insertvalue' and j == 1:
                return None
            if I.op in ('insertelement',) and j:
                return None
            if I.op == 'select' and j == 0:
                return None
            if I.op == 'ret':
                return I.fn.rett
            if I.op == 'shufflevector':
                return I.y
            return I.ty
        if I.op in ('fcmp', 'store', 'fpext', 'fptosi', 'fptoui') and j == 0:
            return I.y
        if I.op == 'fcmp':
            return I.y
        if I.op == 'call' and isinstance(I.y, list):
            return I.y[j]
        if I.op in ('extractelement', 'extractvalue', 'bitcast', 'trunc', 'zext', 'sext', 'freeze') and j == 0:
            return I.y if I.y is not None and not isinstance(I.y, list) else None
        return None

    def getf(self, name):
        f = self.linked.get(name)
        if f is None:
            f = self.m.func(name)
            if f is None:
                return None
            if not f.decl:
                self.link(f)
            self.linked[name] = f
        return f

    # -------------------------------------------------- state helpers
    def init_state(self, fname):
        st = State()
        st.frames = []
        st.mem = dict(self.base_mem)
        st.pc = []
        st.pcids = set()
        st.model = {}
        st.nextobj = self.nextg + 16
        st.names = {}
        st.obs = []
        st.obs_ok = True
        st.owner = object()
        st.steps = 0
        st.inputs = []
        st.asserts = 0
        st.decisions = 0
        st.trace = None
        st.local = {}
        st.reach = 0
        st.elim = ()
        if fname:
            self.push_frame(st, self.getf(fname), [], None)
        return st

    def push_frame(self, st, f, args, ret):
        fr = Frame()
        fr.fn = f
        fr.blk = f.blocks[0]
        fr.ip = 0
        fr.regs = list(args[:f.nparams]) + [None] * (f.nregs - f.nparams)
        fr.ret = ret
        fr.allocas = []
        fr.va = args[f.nparams:]
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Unsupported("recursion depth")
        self.funcs_used.add(f.name)

    def new_obj(self, st, size, kind, default=None, name=''):
        o = Obj()
        o.id = st.nextobj
        st.nextobj += 1
        o.size = size
        o.base = self.addr_of_id(o.id)
        o.kind = kind
        o.alive = True
        o.cells = {}
        o.default = default
        o.owner = st.owner
        o.ro = False
        o.name = name
        st.mem[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner is not st.owner:
            o = o.clone(st.owner)
            st.mem[oid] = o
        return o

    def fresh(self, st, name, bits):
        k = st.names.get(name, 0)
        st.names[name] = k + 1
        full = f"{name}#{k}.{bits}"
        v = z3.BitVec(full, bits)
        st.inputs.append((full, bits, name))
        return v

    def undef(self, st, t):
        if t.kind == 'int':
            v = self.fresh(st, 'undef!', t.bits)
            if t.bits == 1:
                return v == z3.BitVecVal(1, 1)
            return v
        if t.kind in ('float', 'double'):
            return z3.fpBVToFP(self.fresh(st, 'undef!', t.bits), fsort(t.bits))
        if t.kind == 'ptr':
            return Ptr(0, 0xdeadbeef)
        if t.kind == 'struct':
            return tuple(Undef(e) for e in t.elems)
        if t.kind in ('array', 'vector'):
            return tuple(Undef(t.elem) for _ in range(t.n))
        raise Unsupported(f"undef {t.kind}")

    def v(self, st, fr, o):
        if o.__class__ is Reg:
            r = fr.regs[o.i]
            if r is None:
                raise Unsupported("use of unavailable register (merged)")
            if r.__class__ is Undef:
                r = self.undef(st, r.ty)
                fr.regs[o.i] = r
            return r
        if o.__class__ is Undef:
            return self.undef(st, o.ty)
        return o

    # -------------------------------------------------- decisions
    def meval(self, st, e):
        """evaluate Bool under the state's cached assignment (dict name->int)"""
        return eval_model(e, st.model, self)

    def add_pc(self, st, c):
        i = c.get_id()
        if i in st.pcids:
            return
        st.pc.append(c)
        st.pcids.add(i)

    def set_model(self, st, model):
        if model is None:
            return
        d = dict(st.model)
        for decl in model.decls():
            val = model[decl]
            if isinstance(val, z3.BitVecNumRef):
                d[decl.name()] = val.as_long()
            elif z3.is_true(val):
                d[decl.name()] = 1
            elif z3.is_false(val):
                d[decl.name()] = 0
        st.model = d

    def feasible(self, st, c):
        """Is pc & c satisfiable?  returns (bool, model)"""
        return self.sol.check(st.pc, [c])

    def decide(self, st, c):
        """Take a branch on Bool c; forks if both sides are feasible.  Returns Python bool for the current state."""
        if not isinstance(c, z3.ExprRef):
            return bool(c)
        c = norm(c)
        if isinstance(c, int):
            return bool(c)
        ci = c.get_id()
        if ci in st.pcids:
            return True
        nc = norm(z3.Not(c))
        if nc.get_id() in st.pcids:
            return False
        self.stats['branches'] += 1
        mv = self.meval(st, c)
        if mv is True:
            other, mine = nc, c
        elif mv is False:
            other, mine = c, nc
        else:
            ok, mod = self.feasible(st, c)
            if not ok:
                self.add_pc(st, nc)
                return False
            self.set_model(st, mod)
            other, mine = nc, c
        ok, mod = self.feasible(st, other)
        if ok:
            s2 = st.fork()
            self.stats['forks'] += 1
            self.add_pc(s2, other)
            self.set_model(s2, mod)
            self.work.append(s2)
        self.add_pc(st, mine)
        return mine is c

    def must(self, st, c):
        """Is c implied by pc?  returns (True, None) or (False, model of violation)."""
        if not isinstance(c, z3.ExprRef):
            return bool(c), None
        c = norm(c)
        if isinstance(c, int):
            return bool(c), {}
        if c.get_id() in st.pcids:
            return True, None
        nc = norm(z3.Not(c))
        if isinstance(nc, int):
            return (not nc), {}
        ok, mod = self.feasible(st, nc)
        return (not ok), mod

    def concretize(self, st, e, n, limit=130):
        """Fork over all feasible values of a bit-vector; returns an int for the current state."""
        e = norm(e)
        if isinstance(e, int):
            return e
        lv = leaves(e)
        k = 0
        while True:
            val = self.meval_bv(st, e)
            if self.decide(st, e == z3.BitVecVal(val, n)):
                return val
            # decide() picked the negative side only if the model changed; loop
            k += 1
            if k > limit:
                if TRACE:
                    print(e, val, st.pc, st.model)
                raise Unsupported("too many values to concretise")

    def meval_bv(self, st, e):
        return eval_model_bv(e, st.model, self)

    # -------------------------------------------------- pointers
    def ptr_int(self, p):
        if isinstance(p, Ptr):
            b = 0 if p.obj == 0 else self.addr_of_id(p.obj)
            return iadd(b, p.off, 64)
        if isinstance(p, PSet):
            r = None
            for g, q in reversed(p.alts):
                x = self.ptr_int(q)
                r = x if r is None else ite(g, x, r, 64)
            return r
        return p

    def int_ptr(self, st, v):
        if isinstance(v, int):
            oid = (v - (1 << 40)) >> 32
            if v >= (1 << 40) and (oid in st.mem or oid in self.objname):
                return Ptr(oid, v - self.addr_of_id(oid))
            return Ptr(0, v)
        v = norm(v)
        if isinstance(v, int):
            return self.int_ptr(st, v)
        val = self.meval_bv(st, v)
        oid = (val - (1 << 40)) >> 32
        if val >= (1 << 40) and oid in st.mem:
            base = self.addr_of_id(oid)
            off = norm(v - z3.BitVecVal(base, 64))
            if self.decide(st, z3.ULE(off, z3.BitVecVal((1 << 31), 64))):
                return Ptr(oid, off)
            return self.int_ptr(st, v)
        val = self.concretize(st, v, 64)
        return self.int_ptr(st, val)

    def padd(self, p, off):
        if isinstance(p, Ptr):
            return Ptr(p.obj, iadd(p.off, off, 64))
        return PSet([(g, Ptr(q.obj, iadd(q.off, off, 64))) for g, q in p.alts])

    def resolve(self, st, p):
        """Return a single Ptr, forking on guards of a pointer set."""
        if isinstance(p, Ptr):
            return p
        if isinstance(p, PSet):
            for g, q in p.alts[:-1]:
                if self.decide(st, g):
                    return q
            return p.alts[-1][1]
        if isinstance(p, (int, z3.ExprRef)):
            return self.resolve(st, self.int_ptr(st, p))
        raise Unsupported(f"pointer value {type(p)}")

    def check_access(self, st, p, n, write):
        """Bounds and lifetime check; raises Bug.  Returns the object."""
        self.stats['accesses'] += 1
        if p.obj == 0:
            if isinstance(p.off, int) or True:
                raise Bug('null', f"access through null/invalid pointer (size {n})")
        o = st.mem.get(p.obj)
        if o is None:
            if p.obj in self.objname:
                raise Bug('oob', "data access to a function address")
            raise Bug('uaf', "access to a dead object")
        if not o.alive:
            raise Bug('uaf', f"use after {'free' if o.kind == 'heap' else 'scope'} of {o.kind} object")
        if write and o.ro:
            raise Bug('ro', "write to constant object")
        off = p.off
        if isinstance(off, int):
            if sgn(off, 64) < 0 or off + n > o.size:
                raise Bug('oob', f"{'write' if write else 'read'} of {n} bytes at offset {sgn(off, 64)} of {o.size}-byte {o.kind} object {o.name}")
            return o
        if o.size < n:
            raise Bug('oob', f"access of {n} bytes in {o.size}-byte object")
        lo, hi = urange(off)
        if hi + n <= o.size:
            return o
        c = z3.ULE(off, z3.BitVecVal(o.size - n, 64))
        ok, mod = self.must(st, c)
        if not ok:
            s2 = st.fork()
            self.add_pc(s2, norm(z3.Not(c)))
            if mod:
                self.set_model(s2, mod)
            self.report(s2, 'oob', f"{'write' if write else 'read'} of {n} bytes outside {o.size}-byte {o.kind} object {o.name}")
            # continue on the in-bounds side if possible
            ok2, mod2 = self.feasible(st, c)
            if not ok2:
                raise PathEnd()
            self.set_model(st, mod2)
            self.add_pc(st, norm(c))
        return o

    def cands(self, st, off, osize, n):
        """candidate concrete offsets for a symbolic offset known to be in bounds"""
        lv = leaves(off)
        if lv is not None:
            return sorted(x for x in lv if x + n <= osize)
        lo, hi = urange(off)
        hi = min(hi, osize - n)
        g, r = stride(off)
        if g == 0:
            return [r]
        if g > 1:
            start = lo + ((r - lo) % g)
            return list(range(start, hi + 1, g))
        return list(range(lo, hi + 1))

    # -------------------------------------------------- raw cell access (concrete offset)
    def rd(self, st, o, off, n, t):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.coerce(st, c[1], n, t)
        # assemble from bytes
        bs = []
        i = 0
        k = t.kind
        while i < n:
            r = self.rd_piece(st, o, off + i, n - i)
            bs.append(r)
            i += r[0]
        if k == 'ptr' and len(bs) == 1 and isinstance(bs[0][1], (Ptr, PSet)):
            return bs[0][1]
        # little endian: first piece is least significant
        if all(isinstance(b[1], int) for b in bs):
            v = 0
            sh = 0
            for sz, x in bs:
                v |= x << sh
                sh += 8 * sz
        else:
            parts = [tobv(x, 8 * sz) for sz, x in reversed(bs)]
            v = parts[0] if len(parts) == 1 else z3.Concat(*parts)
            v = norm(v)
        return self.coerce(st, v, n, t)

    def rd_piece(self, st, o, off, maxn):
        """read a piece starting at off, at most maxn bytes; returns (size, int-or-BV)"""
        c = o.cells.get(off)
        if c is not None:
            sz, x = c
            if sz <= maxn:
                return sz, self.asint(x, 8 * sz)
            x = self.asint(x, 8 * sz)
            return maxn, (x & MASK[8 * maxn] if isinstance(x, int) else norm(z3.Extract(8 * maxn - 1, 0, x)))
        for d in range(1, 17):
            c = o.cells.get(off - d)
            if c is not None:
                sz, x = c
                if sz > d:
                    m = min(sz - d, maxn)
                    x = self.asint(x, 8 * sz)
                    if isinstance(x, int):
                        return m, (x >> (8 * d)) & MASK[8 * m]
                    return m, norm(z3.Extract(8 * (d + m) - 1, 8 * d, x))
                break
        # uninitialised / default
        m = 1
        while m < maxn and (off + m) not in o.cells:
            m += 1
        if o.default is not None:
            v = 0
            for j in range(m):
                v |= o.default << (8 * j)
            return m, v
        w = self.wobj(st, o.id)
        x = self.fresh(st, f'uninit!', 8 * m)
        w.cells[off] = (m, x)
        return m, x

    def asint(self, x, bits):
        if isinstance(x, int):
            return x
        if isinstance(x, float):
            return fbits(x, bits)
        if isinstance(x, z3.BitVecRef):
            return x
        if isinstance(x, z3.FPRef):
            return fp_bits(x, bits)
        if isinstance(x, (Ptr, PSet)):
            return self.ptr_int(x)
        if isinstance(x, z3.BoolRef):
            return z3.If(x, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
        raise Unsupported(f"asint {type(x)}")

    def coerce(self, st, x, n, t):
        k = t.kind
        if k == 'int':
            if isinstance(x, (int, z3.BitVecRef)):
                if t.bits != 8 * n:
                    return trunc(x, 8 * n, t.bits)
                return x
            v = self.asint(x, 8 * n)
            if t.bits != 8 * n:
                v = trunc(v, 8 * n, t.bits)
            return v
        if k in ('float', 'double'):
            if isinstance(x, (float, z3.FPRef)):
                return x
            if isinstance(x, int):
                return bitsf(x, t.bits)
            x = self.asint(x, 8 * n)
            if isinstance(x, int):
                return bitsf(x, t.bits)
            return bv_fp(x, t.bits)
        if k == 'ptr':
            if isinstance(x, (Ptr, PSet)):
                return x
            return self.int_ptr(st, x)
        raise Unsupported(f"load type {k}")

    def wr(self, o, off, n, val):
        """write to an object this state owns"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, val)
            return
        self.clear_range(o, off, n)
        cells[off] = (n, val)

    def clear_range(self, o, off, n):
        cells = o.cells
        # overlap from the left
        for d in range(1, 17):
            c = cells.get(off - d)
            if c is not None:
                sz, x = c
                if sz > d:
                    x = self.asint(x, 8 * sz)
                    if isinstance(x, int):
                        cells[off - d] = (d, x & MASK[8 * d])
                    else:
                        cells[off - d] = (d, norm(z3.Extract(8 * d - 1, 0, x)))
                    if sz > d + n:
                        k = sz - d - n
                        if isinstance(x, int):
                            cells[off + n] = (k, x >> (8 * (d + n)))
                        else:
                            cells[off + n] = (k, norm(z3.Extract(8 * sz - 1, 8 * (d + n), x)))
                break
        if n > 64 and n > len(cells):
            keys = [k for k in cells if off <= k < off + n]
        else:
            keys = range(off, off + n)
        for k in keys:
            c = cells.pop(k, None)
            if c is not None and k + c[0] > off + n:
                sz, x = c
                m = k + sz - (off + n)
                x = self.asint(x, 8 * sz)
                if isinstance(x, int):
                    cells[off + n] = (m, x >> (8 * (sz - m)))
                else:
                    cells[off + n] = (m, norm(z3.Extract(8 * sz - 1, 8 * (sz - m), x)))

    # -------------------------------------------------- typed load/store
    def load(self, st, p, t):
        if t.kind in ('struct', 'array', 'vector'):
            if t.kind == 'struct':
                return tuple(self.load(st, self.padd(p, t.offs[i]), t.elems[i]) for i in range(t.n))
            if t.kind == 'vector' and t.elem.kind == 'int' and t.elem.bits < 8:
                raise Unsupported("vector of small ints in memory")
            return tuple(self.load(st, self.padd(p, i * t.elem.asize), t.elem) for i in range(t.n))
        if not isinstance(p, (Ptr, PSet)):
            p = self.int_ptr(st, p)
        if isinstance(p, PSet):
            alts = self.live_alts(st, p)
            if len(alts) == 1:
                return self.load(st, alts[0][1], t)
            vals = []
            for g, q in alts:
                o = self.check_guarded(st, g, q, t.size, False)
                if o is None:
                    continue
                vals.append((g, self.load_in(st, o, q.off, t)))
            r = None
            for g, x in reversed(vals):
                r = x if r is None else self.ite_any(g, x, r, t)
            if r is None:
                raise PathEnd()
            return r
        o = self.check_access(st, p, t.size, False)
        return self.load_in(st, o, p.off, t)

    def live_alts(self, st, p):
        out = []
        for g, q in p.alts:
            g = norm(g)
            if isinstance(g, int):
                if g:
                    return [(g, q)]
                continue
            if norm(z3.Not(g)).get_id() in st.pcids:
                continue
            if g.get_id() in st.pcids:
                return [(g, q)]
            out.append((g, q))
        # drop infeasible dangerous alternatives (null etc.)
        res = []
        for g, q in out:
            bad = q.obj == 0 or (q.obj not in st.mem) or not st.mem[q.obj].alive
            if bad or len(out) <= 4:
                ok, mod = self.feasible(st, g)
                if not ok:
                    continue
            res.append((g, q))
        if not res:
            raise PathEnd()
        return res

    def check_guarded(self, st, g, q, n, write):
        """access check under guard g (which is feasible)"""
        try:
            if q.obj != 0 and isinstance(q.off, int):
                return self.check_access(st, q, n, write)
            if q.obj == 0:
                raise Bug('null', 'access through null/invalid pointer')
            o = st.mem.get(q.obj)
            if o is None or not o.alive:
                raise Bug('uaf', 'access to a dead object')
            lo, hi = urange(q.off)
            if hi + n <= o.size:
                return o
            c = z3.Implies(g, z3.ULE(q.off, z3.BitVecVal(max(o.size - n, 0), 64)))
            ok, mod = self.must(st, c)
            if ok:
                return o
            s2 = st.fork()
            self.add_pc(s2, norm(z3.Not(c)))
            self.set_model(s2, mod)
            self.report(s2, 'oob', f"access of {n} bytes outside {o.size}-byte {o.kind} object {o.name}")
            ok2, mod2 = self.feasible(st, c)
            if not ok2:
                raise PathEnd()
            self.set_model(st, mod2)
            self.add_pc(st, norm(c))
            return o
        except Bug as b:
            ok, mod = self.feasible(st, g)
            if not ok:
                return None
            s2 = st.fork()
            self.add_pc(s2, g)
            self.set_model(s2, mod)
            self.report(s2, b.kind, b.msg)
            ng = norm(z3.Not(g))
            ok, mod = self.feasible(st, ng) if not isinstance(ng, int) else (bool(ng), None)
            if not ok:
                raise PathEnd()
            self.set_model(st, mod)
            if not isinstance(ng, int):
                self.add_pc(st, ng)
            return None

    def load_in(self, st, o, off, t):
        if isinstance(off, int):
            return self.rd(st, o, off, t.size, t)
        cs = self.cands(st, off, o.size, t.size)
        if not cs:
            raise PathEnd()
        if len(cs) > 5000:
            raise Unsupported(f"symbolic access with {len(cs)} candidates")
        vals = [(c, self.rd(st, st.mem[o.id], c, t.size, t)) for c in cs]
        return self.select_tree(off, vals, 0, len(vals), t)

    def select_tree(self, off, vals, lo, hi, t):
        if hi - lo == 1:
            return vals[lo][1]
        if hi - lo <= 6:
            r = vals[hi - 1][1]
            for c, x in reversed(vals[lo:hi - 1]):
                r = self.ite_any(off == z3.BitVecVal(c, 64), x, r, t)
            return r
        mid = (lo + hi) // 2
        a = self.select_tree(off, vals, lo, mid, t)
        b = self.select_tree(off, vals, mid, hi, t)
        return self.ite_any(z3.ULT(off, z3.BitVecVal(vals[mid][0], 64)), a, b, t)

    def ite_any(self, c, a, b, t):
        if a is b:
            return a
        if t.kind == 'ptr':
            return self.pite(c, a, b)
        if t.kind in ('float', 'double'):
            return ite(c, a, b, t.bits, True)
        if t.kind == 'struct':
            return tuple(self.ite_any(c, self.und(x, e), self.und(y, e), e) for x, y, e in zip(a, b, t.elems))
        if t.kind in ('array', 'vector'):
            return tuple(self.ite_any(c, self.und(x, t.elem), self.und(y, t.elem), t.elem) for x, y in zip(a, b))
        return ite(c, a, b, t.bits)

    def und(self, x, t):
        if x.__class__ is Undef:
            return self.undef(self.cur, t)
        return x

    def pite(self, c, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                return a
            return Ptr(a.obj, ite(c, a.off, b.off, 64))
        if not isinstance(a, (Ptr, PSet)) or not isinstance(b, (Ptr, PSet)):
            return ite(c, self.ptr_int(a), self.ptr_int(b), 64)
        al = a.alts if isinstance(a, PSet) else [(None, a)]
        bl = b.alts if isinstance(b, PSet) else [(None, b)]
        nc = z3.Not(c)
        merged = {}
        order = []
        for (cond, lst) in ((c, al), (nc, bl)):
            for g, q in lst:
                gg = cond if g is None else z3.And(cond, g)
                key = (q.obj, q.off if isinstance(q.off, int) else ('e', q.off.get_id()))
                if key in merged:
                    merged[key] = (z3.Or(merged[key][0], gg), q)
                else:
                    merged[key] = (gg, q)
                    order.append(key)
        alts = []
        for k in order:
            g, q = merged[k]
            g = simp(g)
            if z3.is_false(g):
                continue
            alts.append((g, q))
        if len(alts) == 1:
            return alts[0][1]
        return PSet(alts)

    def store(self, st, p, val, t):
        if t.kind in ('struct', 'array', 'vector'):
            for i in range(t.n):
                e = t.elems[i] if t.kind == 'struct' else t.elem
                off = t.offs[i] if t.kind == 'struct' else i * e.asize
                x = val[i]
                if x.__class__ is Undef:
                    self.make_uninit(st, self.padd(p, off), e)
                    continue
                self.store(st, self.padd(p, off), x, e)
            return
        if not isinstance(p, (Ptr, PSet)):
            p = self.int_ptr(st, p)
        if t.kind == 'int' and t.bits == 1:
            val = zext(val, 1, 8)
        elif t.kind == 'int' and t.bits != 8 * t.size:
            val = zext(val, t.bits, 8 * t.size)
        if isinstance(p, PSet):
            alts = self.live_alts(st, p)
            if len(alts) > 1:
                for g, q in alts:
                    o = self.check_guarded(st, g, q, t.size, True)
                    if o is None:
                        continue
                    self.store_in(st, o.id, q.off, val, t, g)
                return
            p = alts[0][1]
        o = self.check_access(st, p, t.size, True)
        self.store_in(st, o.id, p.off, val, t, None)

    def make_uninit(self, st, p, t):
        p = self.resolve(st, p)
        if isinstance(p.off, int) and p.obj in st.mem:
            o = self.wobj(st, p.obj)
            self.clear_range(o, p.off, t.size)
            if o.default is not None:
                o.cells[p.off] = (t.size, self.fresh(st, 'undef!', 8 * t.size))

    def store_in(self, st, oid, off, val, t, guard):
        o = self.wobj(st, oid)
        n = t.size
        if isinstance(off, int):
            if guard is not None:
                old = self.rd(st, o, off, n, t)
                o = self.wobj(st, oid)
                if t.kind == 'int' and t.bits == 1:
                    old = zext(old, 1, 8)
                    val = ite(guard, val, old, 8)
                elif t.kind == 'int':
                    val = ite(guard, val, old if t.bits == 8 * n else zext(old, t.bits, 8 * n), 8 * n)
                else:
                    val = self.ite_any(guard, val, old, t)
            self.wr(o, off, n, val)
            return
        cs = self.cands(st, off, o.size, n)
        if len(cs) > 3000:
            raise Unsupported(f"symbolic store with {len(cs)} candidates")
        bits = 8 * n
        ity = t
        for c in cs:
            g = off == z3.BitVecVal(c, 64)
            if guard is not None:
                g = z3.And(guard, g)
            o = self.wobj(st, oid)
            if t.kind == 'int':
                cell = o.cells.get(c)
                if cell is not None and cell[0] == n:
                    old = self.asint(cell[1], bits)
                else:
                    old = self.rd(st, o, c, n, INTTY(bits))
                    o = self.wobj(st, oid)
                nv = ite(g, val, old, bits)
            else:
                old = self.rd(st, o, c, n, t)
                o = self.wobj(st, oid)
                nv = self.ite_any(g, val, old, t)
            self.wr(o, c, n, nv)

    # -------------------------------------------------- main loop
    def run(self, fname):
        st = self.init_state(fname)
        self.work = [st]
        self.explore()

    def explore(self):
        while True:
            while self.work:
                st = self.work.pop()
                self.run_state(st)
                if self.violations and self.stop_on_violation:
                    return
                if self.stats['paths'] > self.max_paths:
                    raise Unsupported(f"path bound {self.max_paths} exceeded")
            if not self.parked:
                return
            key = self.park_order.pop(0)
            group = self.parked.pop(key)
            self.merge_group(group, key[2] != 'vf_merge_all')

    stop_on_violation = True

    def run_state(self, st):
        self.cur = st
        disp = self.dispatch
        nst = 0
        try:
            while True:
                fr = st.frames[-1]
                I = fr.blk.insts[fr.ip]
                nst += 1
                if nst & 1023 == 0:
                    if self.deadline and time.time() > self.deadline:
                        raise Unknown("time budget exhausted")
                    if st.steps + nst > self.max_steps:
                        self.stats['steps'] += nst
                        nst = 0
                        self.report(st, 'nonterm', f"no termination within {self.max_steps} steps")
                        raise PathEnd()
                h = disp.get(I.op)
                if h is None:
                    raise Unsupported(f"instruction {I.op}")
                h(st, fr, I)
        except PathEnd:
            pass
        except Bug as b:
            self.report(st, b.kind, b.msg)
        except (Unsupported, NotImplementedError) as e:
            if not hasattr(e, 'where'):
                e.where = self.where(st)
            raise
        finally:
            self.stats['steps'] += nst
            st.steps += nst

    def where(self, st):
        out = []
        for fr in reversed(st.frames[-6:]):
            try:
                I = fr.blk.insts[fr.ip]
                out.append(f"{fr.fn.name[:60]} {I.op} {I.file.split('/')[-1]}:{I.line}")
            except IndexError:
                out.append(fr.fn.name[:60])
        return ' <- '.join(out)

    def report(self, st, kind, msg):
        v = dict(kind=kind, msg=msg, where=self.where(st))
        # full model
        if st.model is None:
            st.model = {}
        v['inputs'] = self.inputs_of(st)
        v['state'] = st
        if self.on_violation:
            v['confirmed'] = self.on_violation(v)
            if v['confirmed'] is False:
                # not reproducible: keep, the driver decides
                self.violations.append(v)
                return
        self.violations.append(v)

    def nxt(self, fr):
        fr.ip += 1

    # -------------------------------------------------- instructions
    def setreg(self, fr, I, v):
        fr.regs[I.dst] = v
        fr.ip += 1

    def lanes(self, t):
        return t.n

    def vecop(self, st, a, b, t, fn):
        return tuple(fn(self.und(x, t.elem), self.und(y, t.elem)) for x, y in zip(a, b))

    def binop(fn):
        def h(self, st, fr, I):
            a = self.v(st, fr, I.ops[0])
            b = self.v(st, fr, I.ops[1])
            t = I.ty
            if t.kind == 'vector':
                n = t.elem.bits
                r = self.vecop(st, a, b, t, lambda x, y: fn(x, y, n))
            else:
                r = fn(a, b, t.bits)
            fr.regs[I.dst] = r
            fr.ip += 1
        return h

    op_and = binop(iand)
    op_or = binop(ior)
    op_xor = binop(ixor)
    op_mul = binop(imul)
    op_shl = binop(lambda a, b, n: shift('shl', a, b, n))
    op_lshr = binop(lambda a, b, n: shift('lshr', a, b, n))
    op_ashr = binop(lambda a, b, n: shift('ashr', a, b, n))
    _add = binop(lambda a, b, n: iadd(a, b, n) if n > 1 else ixor(a, b, 1))
    _sub = binop(lambda a, b, n: isub(a, b, n) if n > 1 else ixor(a, b, 1))

    def op_add(self, st, fr, I):
        self._add(st, fr, I)

    def op_sub(self, st, fr, I):
        self._sub(st, fr, I)

    def _div(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        b = self.v(st, fr, I.ops[1])
        t = I.ty
        op = I.op

        def one(x, y, n):
            if isinstance(y, z3.ExprRef):
                if self.decide(st, y == z3.BitVecVal(0, n)):
                    raise Bug('div', 'division by zero')
            if op[0] == 's' and n > 1 and not (isinstance(x, int) and x != 1 << (n - 1)) and not (isinstance(y, int) and y != MASK[n]):
                if self.decide(st, z3.And(tobv(x, n) == z3.BitVecVal(1 << (n - 1), n), tobv(y, n) == z3.BitVecVal(MASK[n], n))):
                    raise Bug('div', 'signed division overflow')
            return idiv(op, x, y, n)
        if t.kind == 'vector':
            r = self.vecop(st, a, b, t, lambda x, y: one(x, y, t.elem.bits))
        else:
            r = one(a, b, t.bits)
        fr.regs[I.dst] = r
        fr.ip += 1
    op_udiv = op_sdiv = op_urem = op_srem = _div

    def fop(self, op, a, b, bits):
        if isinstance(a, float) and isinstance(b, float):
            try:
                if op == 'fadd':
                    r = a + b
                elif op == 'fsub':
                    r = a - b
                elif op == 'fmul':
                    r = a * b
                elif op == 'fdiv':
                    if b == 0:
                        r = float('nan') if (a == 0 or a != a) else math.copysign(float('inf'), a) * math.copysign(1, b)
                    else:
                        r = a / b
                else:
                    r = math.fmod(a, b) if b != 0 and not math.isinf(a) else float('nan')
            except OverflowError:
                r = float('inf')
            return f32(r) if bits == 32 else r
        if op in ('fadd', 'fsub', 'fmul'):
            ia = as_int(a, bits)
            ib = as_int(b, bits)
            if op == 'fadd':
                if ia is not None and is_zero(b):
                    return a
                if ib is not None and is_zero(a):
                    return b
            if op == 'fsub' and ia is not None and isinstance(b, float) and b == 0:
                return a
            if op == 'fmul' and ((ia is not None and isinstance(b, float) and b == 0) or (ib is not None and isinstance(a, float) and a == 0)):
                i, c = (ia, b) if isinstance(b, float) else (ib, a)
                if i[1] >= 0:
                    return c
                e = norm(z3.If(i[0] < 0, tofp(-c, bits), tofp(c, bits)))
                if isinstance(e, z3.ExprRef):
                    _zero[e.get_id()] = e
                return e
            if ia is not None and ib is not None:
                if op == 'fadd':
                    lo, hi = ia[1] + ib[1], ia[2] + ib[2]
                elif op == 'fsub':
                    lo, hi = ia[1] - ib[2], ia[2] - ib[1]
                elif ia[1] >= 0 and ib[1] >= 0:
                    lo, hi = ia[1] * ib[1], ia[2] * ib[2]
                else:
                    lo, hi = -(1 << 60), 1 << 60
                if -_MANT[bits] <= lo and hi <= _MANT[bits]:
                    w = swidth(lo, hi)
                    w2 = max(w, ia[0].size(), ib[0].size())
                    p, q = swid(ia[0], w2), swid(ib[0], w2)
                    r = p + q if op == 'fadd' else (p - q if op == 'fsub' else p * q)
                    r = norm(r)
                    if isinstance(r, int):
                        return float(sgn(r, w2))
                    return mk_i2f(r, lo, hi, bits)
        x = tofp(a, bits)
        y = tofp(b, bits)
        if op == 'fadd':
            if isinstance(b, float) and b == 0 and math.copysign(1, b) < 0:
                return a
            return norm(z3.fpAdd(RNE, x, y))
        if op == 'fsub':
            if isinstance(b, float) and b == 0 and math.copysign(1, b) > 0:
                return a
            return norm(z3.fpSub(RNE, x, y))
        if op == 'fmul':
            if isinstance(b, float) and b == 1.0:
                return a
            if isinstance(a, float) and a == 1.0:
                return b
            return norm(z3.fpMul(RNE, x, y))
        if op == 'fdiv':
            if isinstance(b, float) and b == 1.0:
                return a
            if isinstance(b, float) and b != 0 and math.frexp(b)[0] in (0.5, -0.5) and abs(math.frexp(b)[1]) < 100:
                return norm(z3.fpMul(RNE, x, tofp(1.0 / b, bits)))   # exact: division by a power of two
            return norm(z3.fpDiv(RNE, x, y))
        raise Unsupported("symbolic frem")

    def _fbin(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        b = self.v(st, fr, I.ops[1])
        t = I.ty
        if t.kind == 'vector':
            r = self.vecop(st, a, b, t, lambda x, y: self.fop(I.op, x, y, t.elem.bits))
        else:
            r = self.fop(I.op, a, b, t.bits)
        fr.regs[I.dst] = r
        fr.ip += 1
    op_fadd = op_fsub = op_fmul = op_fdiv = op_frem = _fbin

    def fneg1(self, a):
        if isinstance(a, float):
            return -a
        return norm(z3.fpNeg(a))

    def op_fneg(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        if I.ty.kind == 'vector':
            self.setreg(fr, I, tuple(self.fneg1(self.und(x, I.ty.elem)) for x in a))
        else:
            self.setreg(fr, I, self.fneg1(a))

    def op_icmp(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        b = self.v(st, fr, I.ops[1])
        t = I.y
        if t.kind == 'vector':
            r = self.vecop(st, a, b, t, lambda x, y: icmp(I.x, x, y, t.elem.bits))
        elif t.kind == 'ptr':
            r = self.pcmp(I.x, a, b)
        else:
            r = icmp(I.x, a, b, t.bits)
        fr.regs[I.dst] = r
        fr.ip += 1

    def pcmp(self, p, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return icmp(p, a.off, b.off, 64)
            if p in ('eq', 'ne') and (a.obj == 0 or b.obj == 0):
                x, y = (a, b) if a.obj == 0 else (b, a)
                if isinstance(x.off, int) and x.off == 0:
                    return int(p == 'ne')
        if isinstance(a, PSet) or isinstance(b, PSet):
            al = a.alts if isinstance(a, PSet) else [(None, a)]
            bl = b.alts if isinstance(b, PSet) else [(None, b)]
            if len(al) * len(bl) <= 64 and isinstance(a, (Ptr, PSet)) and isinstance(b, (Ptr, PSet)):
                terms = []
                for g, q in al:
                    for h, r in bl:
                        c = self.pcmp(p, q, r)
                        if isinstance(c, int) and not c:
                            continue
                        gs = [x for x in (g, h) if x is not None]
                        if not isinstance(c, int):
                            gs.append(c)
                        terms.append(z3.And(*gs) if gs else z3.BoolVal(True))
                if not terms:
                    return 0
                return norm(z3.Or(*terms))
        return icmp(p, self.ptr_int(a), self.ptr_int(b), 64)

    def fcmp1(self, p, a, b, bits):
        if p == 'true':
            return 1
        if p == 'false':
            return 0
        if isinstance(a, float) and isinstance(b, float):
            uno = a != a or b != b
            if p == 'ord':
                return int(not uno)
            if p == 'uno':
                return int(uno)
            q = p[1:]
            if uno:
                return int(p[0] == 'u')
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[q])
        ia = as_int(a, bits)
        ib = as_int(b, bits)
        if ia is None and ib is not None and isinstance(a, float) and a == a and not math.isinf(a):
            # non-integer constant against an integer: swap sides below
            return self.fcmp1({'gt': 'olt', 'lt': 'ogt', 'ge': 'ole', 'le': 'oge', 'eq': 'oeq', 'ne': 'one'}[p[1:]]
                              if p not in ('ord', 'uno') else p, b, a, bits)
        if ia is not None:
            if p in ('ord', 'uno') and (ib is not None or (isinstance(b, float) and b == b)):
                return int(p == 'ord')
            q = p[1:]
            if ib is None and isinstance(b, float) and b == b:
                if math.isinf(b):
                    return int({'gt': b < 0, 'ge': b < 0, 'lt': b > 0, 'le': b > 0, 'eq': False, 'ne': True}[q])
                if b == 0:
                    ib = as_int(0.0, bits)
                elif b == int(b):
                    v = int(b)
                    ib = (z3.BitVecVal(v, swidth(v, v)), v, v)
                else:
                    f = math.floor(b)
                    if q in ('eq', 'ne'):
                        return int(q == 'ne')
                    q = 'gt' if q in ('gt', 'ge') else 'le'
                    ib = (z3.BitVecVal(f, swidth(f, f)), f, f)
            if ib is not None:
                if q in ('gt', 'ge', 'lt', 'le'):
                    if ia[1] > ib[2]:
                        return int(q in ('gt', 'ge'))
                    if ia[2] < ib[1]:
                        return int(q in ('lt', 'le'))
                w = max(ia[0].size(), ib[0].size())
                x, y = swid(ia[0], w), swid(ib[0], w)
                e = {'gt': lambda: x > y, 'ge': lambda: x >= y, 'lt': lambda: x < y, 'le': lambda: x <= y,
                     'eq': lambda: x == y, 'ne': lambda: x != y}[q]()
                return norm(e)
        x = tofp(a, bits)
        y = tofp(b, bits)
        uno = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if isinstance(b, float) and b == b:
            uno = z3.fpIsNaN(x)
        elif isinstance(a, float) and a == a:
            uno = z3.fpIsNaN(y)
        if p == 'ord':
            return norm(z3.Not(uno))
        if p == 'uno':
            return norm(uno)
        q = p[1:]
        if q == 'eq':
            e = z3.fpEQ(x, y)
        elif q == 'ne':
            e = z3.And(z3.Not(z3.fpEQ(x, y)), z3.Not(uno))
            if p[0] == 'u':
                return norm(z3.Not(z3.fpEQ(x, y)))
        elif q == 'gt':
            e = z3.fpGT(x, y)
        elif q == 'ge':
            e = z3.fpGEQ(x, y)
        elif q == 'lt':
            e = z3.fpLT(x, y)
        else:
            e = z3.fpLEQ(x, y)
        if p[0] == 'u':
            # unordered-or: negation of the opposite ordered compare
            opp = {'gt': z3.fpLEQ, 'ge': z3.fpLT, 'lt': z3.fpGEQ, 'le': z3.fpGT}.get(q)
            if opp:
                return norm(z3.Not(opp(x, y)))
            e = z3.Or(uno, e)
        return norm(e)

    def op_fcmp(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        b = self.v(st, fr, I.ops[1])
        t = I.y
        if t.kind == 'vector':
            r = self.vecop(st, a, b, t, lambda x, y: self.fcmp1(I.x, x, y, t.elem.bits))
        else:
            r = self.fcmp1(I.x, a, b, t.bits)
        self.setreg(fr, I, r)

    def cast(fn):
        def h(self, st, fr, I):
            a = self.v(st, fr, I.ops[0])
            s, t = I.y, I.ty
            if t.kind == 'vector':
                r = tuple(fn(self, self.und(x, s.elem), s.elem, t.elem) for x in a)
            else:
                r = fn(self, a, s, t)
            fr.regs[I.dst] = r
            fr.ip += 1
        return h

    op_zext = cast(lambda self, a, s, t: zext(a, s.bits, t.bits))
    op_sext = cast(lambda self, a, s, t: sext(a, s.bits, t.bits))
    op_trunc = cast(lambda self, a, s, t: trunc(a, s.bits, t.bits))

    def _fptoi(self, a, s, t, signed):
        if isinstance(a, float):
            if a != a or math.isinf(a):
                return self.undef(self.cur, t)
            v = int(a)
            lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if signed else (0, MASK[t.bits])
            if not lo <= v <= hi:
                return self.undef(self.cur, t)
            return v & MASK[t.bits]
        ia = as_int(a, s.bits)
        if ia is not None and t.bits > 1:
            lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if signed else (0, MASK[t.bits])
            if lo <= ia[1] and ia[2] <= hi:
                return norm(swid(ia[0], t.bits))
        if t.bits == 1:
            return norm(z3.fpToUBV(RTZ, a, z3.BitVecSort(2)) == z3.BitVecVal(1, 2))
        # out-of-range results are undefined: model them as a fresh value
        r = (z3.fpToSBV if signed else z3.fpToUBV)(RTZ, a, z3.BitVecSort(t.bits))
        return norm(r)

    op_fptosi = cast(lambda self, a, s, t: self._fptoi(a, s, t, True))
    op_fptoui = cast(lambda self, a, s, t: self._fptoi(a, s, t, False))

    def _itofp(self, a, s, t, signed):
        if isinstance(a, int):
            v = sgn(a, s.bits) if signed else a
            return int_to_f(v, t.bits)
        if s.bits == 1:
            a = z3.If(a, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2))
            if signed:
                raise Unsupported("sitofp i1")
        if signed:
            while a.decl().kind() == z3.Z3_OP_SIGN_EXT:
                a = a.arg(0)
            n = a.size()
            u = urange(a)
            lo, hi = (u[0], u[1]) if u[1] < 1 << (n - 1) else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            if -_MANT[t.bits] <= lo and hi <= _MANT[t.bits]:
                return mk_i2f(a, lo, hi, t.bits)
            return norm(z3.fpSignedToFP(RNE, a, fsort(t.bits)))
        # narrow when the leading bits are known zero: cheaper encoding
        hi = urange(a)[1]
        w = max(hi.bit_length(), 1)
        if w < a.size():
            a = z3.Extract(w - 1, 0, a)
        if hi <= _MANT[t.bits]:
            return mk_i2f(z3.ZeroExt(1, a), 0, hi, t.bits)
        return norm(z3.fpUnsignedToFP(RNE, a, fsort(t.bits)))

    op_sitofp = cast(lambda self, a, s, t: self._itofp(a, s, t, True))
    op_uitofp = cast(lambda self, a, s, t: self._itofp(a, s, t, False))

    def _fpc(self, a, s, t):
        if t.bits > 64 or s.bits > 64:
            if isinstance(a, float):
                return a if t.bits > 64 else (f32(a) if t.bits == 32 else a)
            raise Unsupported("long double")
        if isinstance(a, float):
            return f32(a) if t.bits == 32 else a
        return norm(z3.fpFPToFP(RNE, a, fsort(t.bits)))
    op_fpext = cast(_fpc)
    op_fptrunc = cast(_fpc)

    def op_ptrtoint(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        x = self.ptr_int(a)
        if I.ty.bits < 64:
            x = trunc(x, 64, I.ty.bits)
        self.setreg(fr, I, x)

    def op_inttoptr(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        if I.y.bits < 64:
            a = zext(a, I.y.bits, 64)
        self.setreg(fr, I, self.int_ptr(st, a))

    def op_bitcast(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        s, t = I.y, I.ty
        self.setreg(fr, I, self.bitcast(st, a, s, t))

    def bitcast(self, st, a, s, t):
        if s.kind == t.kind and s.kind != 'vector':
            return a
        if s.kind == 'vector':
            w = s.elem.bits
            vals = [self.asint(self.und(x, s.elem), w) if w > 1 else self.und(x, s.elem) for x in a]
            if w == 1:
                vals = [x if isinstance(x, int) else z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in vals]
            if all(isinstance(x, int) for x in vals):
                iv = 0
                for i, x in enumerate(vals):
                    iv |= x << (i * w)
            else:
                iv = norm(z3.Concat(*[tobv(x, w) for x in reversed(vals)])) if len(vals) > 1 else vals[0]
        elif s.kind == 'ptr':
            iv = self.ptr_int(a)
        else:
            iv = self.asint(a, s.bits)
        if t.kind == 'vector':
            w = t.elem.bits
            out = []
            for i in range(t.n):
                x = (iv >> (i * w)) & MASK[w] if isinstance(iv, int) else norm(z3.Extract(i * w + w - 1, i * w, iv))
                if w == 1 and not isinstance(x, int):
                    x = norm(x == z3.BitVecVal(1, 1))
                out.append(self.coerce(st, x, w // 8, t.elem) if w > 1 else x)
            return tuple(out)
        return self.coerce(st, iv, t.size, t)

    def op_freeze(self, st, fr, I):
        self.setreg(fr, I, self.v(st, fr, I.ops[0]))

    def op_select(self, st, fr, I):
        c = self.v(st, fr, I.ops[0])
        if isinstance(c, int):
            # keep Undef unevaluated unless selected
            self.setreg(fr, I, self.v(st, fr, I.ops[1] if c else I.ops[2]))
            return
        a = self.v(st, fr, I.ops[1])
        b = self.v(st, fr, I.ops[2])
        t = I.ty
        if isinstance(c, tuple):
            r = tuple(x if (isinstance(k, int) and k) else y if isinstance(k, int) else
                      self.ite_any(k, self.und(x, t.elem), self.und(y, t.elem), t.elem) for k, x, y in zip(c, a, b))
        else:
            nc = norm(z3.Not(c))
            if c.get_id() in st.pcids:
                r = a
            elif isinstance(nc, int):  # simplified to a constant only now
                r = b if nc else a
            elif nc.get_id() in st.pcids:
                r = b
            else:
                r = self.ite_any(c, a, b, t)
                if isinstance(r, z3.ExprRef):
                    r = norm(r)
        self.setreg(fr, I, r)

    def op_extractvalue(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        for i in I.x:
            if a.__class__ is Undef:
                a = self.undef(st, a.ty)
            a = a[i]
        self.setreg(fr, I, a)

    def op_insertvalue(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        b = self.v(st, fr, I.ops[1])

        def ins(x, ix, t):
            if x.__class__ is Undef:
                x = self.undef(st, x.ty)
            l = list(x)
            et = t.elems[ix[0]] if t.kind == 'struct' else t.elem
            l[ix[0]] = b if len(ix) == 1 else ins(l[ix[0]], ix[1:], et)
            return tuple(l)
        self.setreg(fr, I, ins(a, I.x, I.ty))

    def op_extractelement(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        i = self.v(st, fr, I.ops[1])
        if not isinstance(i, int):
            i = self.concretize(st, i, i.size())
        if i >= len(a):
            raise Bug('oob', 'vector index out of range')
        self.setreg(fr, I, a[i])

    def op_insertelement(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        b = self.v(st, fr, I.ops[1])
        i = self.v(st, fr, I.ops[2])
        if not isinstance(i, int):
            i = self.concretize(st, i, i.size())
        l = list(a)
        l[i] = b
        self.setreg(fr, I, tuple(l))

    def op_shufflevector(self, st, fr, I):
        a = self.v(st, fr, I.ops[0])
        b = self.v(st, fr, I.ops[1])
        n = len(a)
        et = I.ty.elem
        r = tuple(Undef(et) if k < 0 else (a[k] if k < n else b[k - n]) for k in I.x)
        self.setreg(fr, I, r)

    def op_gep(self, st, fr, I):
        p = self.v(st, fr, I.ops[0])
        off = I.x
        for o, scale, w in I.y:
            x = self.v(st, fr, o)
            if w < 64:
                x = sext(x, w, 64)
            if scale != 1:
                x = imul(x, scale, 64)
            off = iadd(off & MASK[64], x, 64)
        if isinstance(off, int):
            off &= MASK[64]
        if not isinstance(p, (Ptr, PSet)):
            p = self.int_ptr(st, p)
        self.setreg(fr, I, self.padd(p, off))

    def op_alloca(self, st, fr, I):
        n = self.v(st, fr, I.ops[0])
        if not isinstance(n, int):
            n = self.concretize(st, n, n.size())
        o = self.new_obj(st, I.x.asize * n, 'stack', None, f"{fr.fn.name[:30]}:{I.line}")
        fr.allocas.append(o.id)
        self.setreg(fr, I, Ptr(o.id, 0))

    def op_load(self, st, fr, I):
        p = self.v(st, fr, I.ops[0])
        if self.hooks is not None:
            r = self.hooks.load(self, st, fr, I, p)
            if r is not None:
                self.setreg(fr, I, r)
                return
        self.setreg(fr, I, self.load(st, p, I.ty))

    def op_store(self, st, fr, I):
        val = I.ops[0]
        p = self.v(st, fr, I.ops[1])
        if val.__class__ is Undef or (val.__class__ is Reg and fr.regs[val.i].__class__ is Undef):
            if self.hooks is None:
                self.check_access(st, self.resolve(st, p), I.y.size, True)
                self.make_uninit(st, p, I.y)
                fr.ip += 1
                return
        x = self.v(st, fr, val)
        if self.hooks is not None and self.hooks.store(self, st, fr, I, p, x):
            fr.ip += 1
            return
        self.store(st, p, x, I.y)
        fr.ip += 1

    def op_fence(self, st, fr, I):
        if self.hooks is not None:
            self.hooks.fence(self, st, fr, I)
        fr.ip += 1

    def op_atomicrmw(self, st, fr, I):
        p = self.v(st, fr, I.ops[0])
        x = self.v(st, fr, I.ops[1])
        if self.hooks is not None:
            r = self.hooks.rmw(self, st, fr, I, p, x)
            if r is not None:
                self.setreg(fr, I, r)
                return
        old = self.load(st, p, I.y)
        new = self.rmw_val(I.x[0], old, x, I.y.bits)
        self.store(st, p, new, I.y)
        self.setreg(fr, I, old)

    def rmw_val(self, k, old, x, n):
        if k == 'xchg':
            return x
        if k == 'add':
            return iadd(old, x, n)
        if k == 'sub':
            return isub(old, x, n)
        if k == 'and':
            return iand(old, x, n)
        if k == 'or':
            return ior(old, x, n)
        if k == 'xor':
            return ixor(old, x, n)
        raise Unsupported(f"atomicrmw {k}")

    def op_cmpxchg(self, st, fr, I):
        p = self.v(st, fr, I.ops[0])
        e = self.v(st, fr, I.ops[1])
        n = self.v(st, fr, I.ops[2])
        if self.hooks is not None:
            r = self.hooks.cas(self, st, fr, I, p, e, n)
            if r is not None:
                self.setreg(fr, I, r)
                return
        old = self.load(st, p, I.y)
        if I.y.kind == 'ptr':
            c = self.pcmp('eq', old, e)
        else:
            c = icmp('eq', old, e, I.y.bits)
        if isinstance(c, int):
            if c:
                self.store(st, p, n, I.y)
        else:
            self.store(st, p, self.ite_any(c, n, old, I.y), I.y)
        self.setreg(fr, I, (old, c))

    # control flow
    def goto(self, st, fr, bi):
        frm = fr.blk.idx
        b = fr.fn.blocks[bi]
        if b.phis:
            vals = []
            for P in b.phis:
                o = P.x[frm]
                if o.__class__ is Reg:
                    vals.append(fr.regs[o.i])
                else:
                    vals.append(o)
            for P, x in zip(b.phis, vals):
                fr.regs[P.dst] = x
        fr.blk = b
        fr.ip = 0

    def op_br(self, st, fr, I):
        if not I.ops:
            self.goto(st, fr, I.x[0])
            return
        c = self.v(st, fr, I.ops[0])
        if isinstance(c, int):
            self.goto(st, fr, I.x[0] if c else I.x[1])
            return
        t = self.decide(st, c)
        fr = st.frames[-1]
        self.goto(st, fr, I.x[0] if t else I.x[1])

    def op_switch(self, st, fr, I):
        x = self.v(st, fr, I.ops[0])
        d, cases = I.x
        n = I.y.bits
        if isinstance(x, int):
            for c, b in cases:
                if c == x:
                    self.goto(st, fr, b)
                    return
            self.goto(st, fr, d)
            return
        for c, b in cases:
            if n == 1:
                cond = x if c else z3.Not(x)
            else:
                cond = icmp('eq', x, c, n)
            if self.decide(st, cond):
                self.goto(st, st.frames[-1], b)
                return
        self.goto(st, st.frames[-1], d)

    def op_unreachable(self, st, fr, I):
        raise Bug('unreachable', 'reached unreachable code')

    def op_ret(self, st, fr, I):
        val = self.v(st, fr, I.ops[0]) if I.ops else None
        for a in fr.allocas:
            st.mem.pop(a, None)
        st.frames.pop()
        if not st.frames:
            self.complete(st)
            raise PathEnd()
        p = st.frames[-1]
        if fr.ret is not None:
            p.regs[fr.ret] = val
        p.ip += 1

    def complete(self, st):
        self.stats['paths'] += 1
        if self.on_complete:
            self.on_complete(st)
        if len(self.finished) < self.maxwit:
            self.finished.append(st)
        else:
            # deterministic reservoir: keep spread
            k = self.stats['paths']
            if (k * 2654435761) % (1 << 32) < (self.maxwit << 32) // k:
                self.finished[(k * 40503) % self.maxwit] = st

    def op_call(self, st, fr, I):
        tgt = I.x
        if tgt.__class__ is Reg or not isinstance(tgt, str):
            p = self.v(st, fr, tgt) if tgt.__class__ is Reg else tgt
            p = self.resolve(st, p)
            fr = st.frames[-1]
            if p.obj not in self.objname or p.off != 0:
                raise Bug('call', 'call through an invalid function pointer')
            tgt = self.objname[p.obj]
        nat = self.replace.get(tgt) or self.natives.get(tgt)
        if nat is None and tgt.startswith('llvm.'):
            nat = self.intrinsic(tgt)
        if nat is not None:
            args = [self.v(st, fr, o) if o is not None else None for o in I.ops]
            r = nat(st, fr, I, args)
            if r is NOADV:
                return
            fr = st.frames[-1]
            if I.dst is not None:
                fr.regs[I.dst] = r
            fr.ip += 1
            return
        f = self.getf(tgt)
        if f is None or f.decl:
            if tgt.startswith('_ZSt') and '__throw' in tgt:
                raise Bug('throw', f"library exception raised ({tgt})")
            raise Unsupported(f"external function {tgt}")
        args = []
        for o in I.ops:
            if o.__class__ is Reg:
                args.append(fr.regs[o.i])
            else:
                args.append(o)
        self.push_frame(st, f, args, I.dst)

    # -------------------------------------------------- natives
    def cstr(self, st, p):
        p = self.resolve(st, p)
        o = st.mem[p.obj]
        out = []
        i = p.off
        while True:
            b = self.rd(st, o, i, 1, INTTY(8))
            if not isinstance(b, int) or b == 0:
                break
            out.append(b)
            i += 1
        return bytes(out).decode('latin1')

    def n_vf_sym(self, st, fr, I, a):
        name = self.cstr(st, a[0])
        bits = a[1]
        x = self.fresh(st, name, bits)
        if bits == 1:
            return zext(x == z3.BitVecVal(1, 1), 1, 64)
        return x if bits == 64 else zext(x, bits, 64)

    def n_vf_assume(self, st, fr, I, a):
        c = a[0]
        if isinstance(c, int):
            if not c:
                self.stats['assume_dead'] += 1
                raise PathEnd()
            return None
        c = norm(c)
        if isinstance(c, int):
            if not c:
                self.stats['assume_dead'] += 1
                raise PathEnd()
            return None
        if self.meval(st, c) is not True:
            ok, mod = self.feasible(st, c)
            if not ok:
                self.stats['assume_dead'] += 1
                raise PathEnd()
            self.set_model(st, mod)
        self.add_pc(st, c)
        return None

    def n_vf_assert(self, st, fr, I, a):
        msg = self.cstr(st, a[1])
        self.stats['asserts'] += 1
        self.stats['assert_sites'].add(msg)
        c = a[0]
        if isinstance(c, int):
            if not c:
                raise Bug('assert', msg)
            return None
        c = norm(c)
        ok, mod = self.must(st, c)
        if not ok:
            s2 = st.fork()
            if isinstance(c, z3.ExprRef):
                self.add_pc(s2, norm(z3.Not(c)))
            if mod:
                self.set_model(s2, mod)
            self.report(s2, 'assert', msg)
            if not isinstance(c, z3.ExprRef):
                raise PathEnd()
            ok2, mod2 = self.feasible(st, c)
            if not ok2:
                raise PathEnd()
            self.set_model(st, mod2)
            self.add_pc(st, c)
        return None

    def n_vf_reach(self, st, fr, I, a):
        msg = self.cstr(st, a[0])
        self.reached[msg] = self.reached.get(msg, 0) + 1
        return None

    # this many further steps are no sign of non-termination
    def n_vf_progress(self, st, fr, I, a):
        st.steps -= a[0]
        return None

    def n_vf_observe(self, st, fr, I, a):
        st.obs.append(a[0])
        return None

    def n_vf_concrete(self, st, fr, I, a):
        """fork over the values of a symbolic integer"""
        if isinstance(a[0], int):
            return a[0]
        return self.concretize(st, a[0], 64, 600)

    def n_vf_stop(self, st, fr, I, a):
        self.complete(st)
        raise PathEnd()

    def n_vf_merge(self, st, fr, I, a):
        fr.ip += 1
        key = (tuple((f.fn.id, f.blk.idx, f.ip) for f in st.frames), a[0] if a and isinstance(a[0], int) else 0, I.x)
        if key not in self.parked:
            self.parked[key] = []
            self.park_order.append(key)
        self.parked[key].append(st)
        raise PathEnd()

    n_vf_merge_all = n_vf_merge

    def n_vf_is_symbolic_engine(self, st, fr, I, a):
        return 1

    # select without forking: pick(c, a, b)
    def n_vf_select(self, st, fr, I, a):
        return ite(tobool(a[0]), a[1], a[2], 64) if not isinstance(a[0], int) else (a[1] if a[0] else a[2])

    def n_vf_and(self, st, fr, I, a):
        return iand(a[0], a[1], 1)

    def n_vf_or(self, st, fr, I, a):
        return ior(a[0], a[1], 1)

    def heap(self, st, n, default=None):
        if not isinstance(n, int):
            n = self.concretize(st, n, 64)
        if n > (1 << 26):
            raise Bug('alloc', f"allocation of {n} bytes")
        return Ptr(self.new_obj(st, n, 'heap', default).id, 0)

    def n_malloc(self, st, fr, I, a):
        return self.heap(st, a[0])

    def n_calloc(self, st, fr, I, a):
        return self.heap(st, imul(a[0], a[1], 64), 0)

    def n_new(self, st, fr, I, a):
        return self.heap(st, a[0])

    def n_free(self, st, fr, I, a):
        p = self.resolve(st, a[0])
        if p.obj == 0:
            if p.off == 0:
                return None
            raise Bug('free', 'free of invalid pointer')
        o = st.mem.get(p.obj)
        if o is None or not o.alive:
            raise Bug('free', 'double free')
        if o.kind != 'heap' or p.off != 0:
            raise Bug('free', 'free of a non-heap pointer')
        o = self.wobj(st, p.obj)
        o.alive = False
        o.cells = {}
        return None

    def n_abort(self, st, fr, I, a):
        raise Bug('abort', 'abort() called')

    def n_nop(self, st, fr, I, a):
        return 0 if I.dst is not None else None

    def n_memcmp(self, st, fr, I, a):
        n = a[2]
        if not isinstance(n, int):
            n = self.concretize(st, n, 64)
        if n == 0:
            return 0
        p, q = a[0], a[1]
        r = 0
        B = INTTY(8)
        pairs = []
        for i in range(n):
            x = self.load(st, self.padd(p, i), B)
            y = self.load(st, self.padd(q, i), B)
            pairs.append((x, y))
        for x, y in reversed(pairs):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    r = 1 if x > y else MASK[32]
                continue
            e = icmp('eq', x, y, 8)
            lt = icmp('ult', x, y, 8)
            d = (MASK[32] if lt else 1) if isinstance(lt, int) else z3.If(lt, z3.BitVecVal(MASK[32], 32), z3.BitVecVal(1, 32))
            if isinstance(e, int):
                r = r if e else d
            else:
                r = ite(e, r, d, 32)
        return r

    def n_strlen(self, st, fr, I, a):
        i = 0
        while True:
            x = self.load(st, self.padd(a[0], i), INTTY(8))
            if self.decide(st, icmp('eq', x, 0, 8)):
                return i
            i += 1

    def n_memchr(self, st, fr, I, a):
        n = a[2]
        if not isinstance(n, int):
            n = self.concretize(st, n, 64)
        c = trunc(a[1], 32, 8)
        for i in range(n):
            x = self.load(st, self.padd(a[0], i), INTTY(8))
            if self.decide(st, icmp('eq', x, c, 8)):
                return self.padd(a[0], i)
        return NULL

    def n_tolower(self, st, fr, I, a):
        c = a[0]
        if isinstance(c, int):
            return c + 32 if 65 <= c <= 90 else c
        return norm(z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c + 32, c))

    def n_toupper(self, st, fr, I, a):
        c = a[0]
        if isinstance(c, int):
            return c - 32 if 97 <= c <= 122 else c
        return norm(z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 32, c))

    def n_memcpy(self, st, fr, I, a):
        self.copy(st, a[0], a[1], a[2])
        return a[0]

    def n_memset(self, st, fr, I, a):
        v = a[1]
        v = trunc(v, 32, 8)
        self.fill(st, a[0], v, a[2])
        return a[0]

    def _rounder(name, zmode):
        def h(self, st, fr, I, a):
            x = a[0]
            t = I.ty

            def one(x, bits):
                if isinstance(x, float):
                    if x != x or math.isinf(x):
                        return x
                    if name == 'floor':
                        r = float(math.floor(x))
                    elif name == 'ceil':
                        r = float(math.ceil(x))
                    elif name == 'trunc':
                        r = float(math.trunc(x))
                    elif name == 'round':
                        r = float(math.floor(abs(x) + 0.5)) if abs(x) < 2**52 else abs(x)
                        if abs(x) == 0.49999999999999994:
                            r = 0.0
                        r = math.copysign(r, x)
                    else:
                        r = float(round(x))
                    return math.copysign(r, x) if r == 0 else r
                return norm(z3.fpRoundToIntegral(zmode, x))
            if t.kind == 'vector':
                return tuple(one(self.und(e, t.elem), t.elem.bits) for e in x)
            return one(x, t.bits)
        return h
    n_floor = _rounder('floor', z3.RTN())
    n_ceil = _rounder('ceil', z3.RTP())
    n_truncf = _rounder('trunc', z3.RTZ())
    n_round = _rounder('round', z3.RNA())
    n_rint = _rounder('rint', z3.RNE())

    def n_fabs(self, st, fr, I, a):
        x = a[0]
        if isinstance(x, tuple):
            return tuple(abs(e) if isinstance(e, float) else norm(z3.fpAbs(e)) for e in x)
        if isinstance(x, float):
            return abs(x)
        return norm(z3.fpAbs(x))

    def n_sqrt(self, st, fr, I, a):
        x = a[0]
        if isinstance(x, float):
            r = math.sqrt(x) if x >= 0 else float('nan')
            return f32(r) if I.ty.bits == 32 else r
        return norm(z3.fpSqrt(RNE, x))

    def n_fma(self, st, fr, I, a):
        if all(isinstance(x, float) for x in a[:3]) and I.ty.bits == 32:
            from fractions import Fraction
            if all(math.isfinite(x) for x in a[:3]):
                return f32(a[0] * a[1] + a[2])
        return norm(z3.fpFMA(RNE, *[tofp(x, I.ty.bits) for x in a[:3]]))

    def n_fmuladd(self, st, fr, I, a):
        t = I.ty
        if t.kind == 'vector':
            return tuple(self.fop('fadd', self.fop('fmul', x, y, t.elem.bits), z, t.elem.bits)
                         for x, y, z in zip(a[0], a[1], a[2]))
        return self.fop('fadd', self.fop('fmul', a[0], a[1], t.bits), a[2], t.bits)

    def n_fminmax(self, st, fr, I, a, mx):
        x, y = a[0], a[1]
        bits = I.ty.bits
        if isinstance(x, float) and isinstance(y, float):
            if x != x:
                return y
            if y != y:
                return x
            return max(x, y) if mx else min(x, y)
        x, y = tofp(x, bits), tofp(y, bits)
        return norm(z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If((z3.fpGT if mx else z3.fpLT)(x, y), x, y))))

    def n_fmin(self, st, fr, I, a):
        return self.n_fminmax(st, fr, I, a, False)

    def n_fmax(self, st, fr, I, a):
        return self.n_fminmax(st, fr, I, a, True)

    def n_copysign(self, st, fr, I, a):
        x, y = a[0], a[1]
        if isinstance(x, float) and isinstance(y, float):
            return math.copysign(x, y)
        bits = I.ty.bits
        x, y = tofp(x, bits), tofp(y, bits)
        ax = z3.fpAbs(x)
        return norm(z3.If(z3.fpIsNegative(y), z3.fpNeg(ax), ax))

    def _libm(name):
        def h(self, st, fr, I, a):
            if all(isinstance(x, float) for x in a):
                try:
                    r = getattr(math, name)(*a)
                except (ValueError, OverflowError):
                    r = float('nan')
                return f32(r) if I.ty.bits == 32 else r
            raise Unsupported(f"libm function {name} on a symbolic argument")
        return h
    n_sin = _libm('sin')
    n_cos = _libm('cos')
    n_tan = _libm('tan')
    n_exp = _libm('exp')
    n_log = _libm('log')
    n_log2 = _libm('log2')
    n_log10 = _libm('log10')
    n_pow = _libm('pow')
    n_exp2 = _libm('exp2') if hasattr(math, 'exp2') else _libm('exp')
    n_fmod = _libm('fmod')
    n_atan2 = _libm('atan2')

    # -------------------------------------------------- memory intrinsics
    def copy(self, st, d, s, n):
        if not isinstance(n, int):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        d = self.resolve(st, d)
        s = self.resolve(st, s)
        if not isinstance(d.off, int):
            # validate bounds first so an out-of-range offset is reported, then enumerate
            self.check_access(st, d, n, True)
            d = Ptr(d.obj, self.concretize(st, d.off, 64))
        if not isinstance(s.off, int):
            self.check_access(st, s, n, False)
            s = Ptr(s.obj, self.concretize(st, s.off, 64))
        if self.hooks is not None and self.hooks.copy(self, st, d, s, n):
            return
        so = self.check_access(st, s, n, False)
        self.check_access(st, d, n, True)
        # collect cells of the source range
        items = []
        i = s.off
        end = s.off + n
        if so.default is None or True:
            while i < end:
                c = so.cells.get(i)
                if c is not None and i + c[0] <= end:
                    items.append((i - s.off, c[0], c[1]))
                    i += c[0]
                    continue
                # piece inside a cell, uninitialised or default
                covered = c is not None
                if not covered:
                    for k in range(1, 17):
                        c2 = so.cells.get(i - k)
                        if c2 is not None:
                            covered = c2[0] > k
                            break
                if not covered:
                    # gap: find next cell start
                    j = i + 1
                    while j < end and j not in so.cells:
                        j += 1
                    if so.default is not None:
                        items.append((i - s.off, j - i, ('fill', so.default)))
                    else:
                        items.append((i - s.off, j - i, None))
                    i = j
                    continue
                m, x = self.rd_piece(st, so, i, end - i)
                so = st.mem[s.obj]
                items.append((i - s.off, m, x))
                i += m
        o = self.wobj(st, d.obj)
        self.clear_range(o, d.off, n)
        for off, sz, x in items:
            if x is None:
                if o.default is not None:
                    o.cells[d.off + off] = (sz, self.fresh(st, 'uninit!', 8 * sz))
                continue
            if isinstance(x, tuple):
                if o.default == x[1]:
                    continue
                for k in range(sz):
                    o.cells[d.off + off + k] = (1, x[1])
                continue
            o.cells[d.off + off] = (sz, x)

    def fill(self, st, d, v, n):
        if not isinstance(n, int):
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        d = self.resolve(st, d)
        if not isinstance(d.off, int):
            self.check_access(st, d, n, True)
            d = Ptr(d.obj, self.concretize(st, d.off, 64))
        self.check_access(st, d, n, True)
        o = self.wobj(st, d.obj)
        if self.hooks is not None:
            self.hooks.fill(self, st, d, v, n)
        if d.off == 0 and n == o.size and isinstance(v, int):
            o.cells = {}
            o.default = v
            return
        self.clear_range(o, d.off, n)
        if o.default is not None and isinstance(v, int) and o.default == v:
            return
        # 8-byte pieces
        i = 0
        while i < n:
            k = 8 if n - i >= 8 and isinstance(v, int) and (d.off + i) % 8 == 0 else 1
            if k == 8:
                o.cells[d.off + i] = (8, int.from_bytes(bytes([v]) * 8, 'little'))
            else:
                o.cells[d.off + i] = (1, v)
            i += k

    # -------------------------------------------------- llvm intrinsics
    def intrinsic(self, name):
        p = name.split('.')
        k = p[1]
        if k == 'lifetime':
            return self.lifetime_start if p[2] == 'start' else self.lifetime_end
        if k in ('dbg', 'assume', 'experimental', 'donothing', 'invariant', 'prefetch', 'stackrestore', 'va_end'):
            return self.n_nop
        if k in ('memcpy', 'memmove'):
            return lambda st, fr, I, a: self.copy(st, a[0], a[1], a[2])
        if k == 'memset':
            return lambda st, fr, I, a: self.fill(st, a[0], a[1], a[2])
        if k in ('ubsantrap', 'trap', 'debugtrap'):
            def trap(st, fr, I, a):
                raise Bug('ub', f"undefined behaviour ({UBSAN.get(a[0], a[0]) if a else 'trap'})")
            return trap
        if k in ('umin', 'umax', 'smin', 'smax'):
            pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]

            def mm(st, fr, I, a):
                t = I.ty

                def one(x, y, n):
                    c = icmp(pred, x, y, n)
                    if isinstance(c, int):
                        return x if c else y
                    return norm(ite(c, x, y, n))
                if t.kind == 'vector':
                    return tuple(one(self.und(x, t.elem), self.und(y, t.elem), t.elem.bits) for x, y in zip(a[0], a[1]))
                return one(a[0], a[1], t.bits)
            return mm
        if k == 'abs':
            def ab(st, fr, I, a):
                t = I.ty

                def one(x, n):
                    c = icmp('slt', x, 0, n)
                    neg = isub(0, x, n)
                    if isinstance(c, int):
                        return neg if c else x
                    return norm(ite(c, neg, x, n))
                if t.kind == 'vector':
                    return tuple(one(self.und(x, t.elem), t.elem.bits) for x in a[0])
                return one(a[0], t.bits)
            return ab
        if k in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul'):
            if p[2] == 'with':
                return lambda st, fr, I, a: self.ovf(k, a[0], a[1], I.ty.elems[0].bits)
            if p[2] == 'sat':
                return lambda st, fr, I, a: self.sat(k, a[0], a[1], I.ty)
        if k in ('expect', 'is', 'launder', 'strip', 'ptr', 'threadlocal', 'arithmetic', 'ssa'):
            if k == 'is' and p[2] == 'constant':
                return lambda st, fr, I, a: 0
            if k == 'is' and p[2] == 'fpclass':
                return self.fpclass
            return lambda st, fr, I, a: a[0]
        if k == 'objectsize':
            return lambda st, fr, I, a: MASK[I.ty.bits]
        if k == 'stacksave':
            return lambda st, fr, I, a: NULL
        tab = {'floor': self.n_floor, 'ceil': self.n_ceil, 'trunc': self.n_truncf, 'round': self.n_round,
               'rint': self.n_rint, 'nearbyint': self.n_rint, 'roundeven': self.n_rint, 'fabs': self.n_fabs,
               'sqrt': self.n_sqrt, 'fma': self.n_fma, 'fmuladd': self.n_fmuladd, 'minnum': self.n_fmin,
               'maxnum': self.n_fmax, 'copysign': self.n_copysign, 'sin': self.n_sin, 'cos': self.n_cos,
               'pow': self.n_pow, 'exp': self.n_exp, 'exp2': self.n_exp2, 'log': self.n_log, 'log2': self.n_log2,
               'log10': self.n_log10}
        if k in tab:
            return tab[k]
        if k == 'ctpop':
            return lambda st, fr, I, a: self.ctpop(a[0], I.ty.bits)
        if k == 'ctlz':
            return lambda st, fr, I, a: self.ctlz(a[0], I.ty.bits)
        if k == 'cttz':
            return lambda st, fr, I, a: self.cttz(a[0], I.ty.bits)
        if k == 'bswap':
            def bs(st, fr, I, a):
                n = I.ty.bits
                if isinstance(a[0], int):
                    return int.from_bytes(a[0].to_bytes(n // 8, 'little'), 'big')
                return norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(n // 8)]))
            return bs
        if k == 'bitreverse':
            def br(st, fr, I, a):
                n = I.ty.bits
                if isinstance(a[0], int):
                    return int(bin(a[0])[2:].zfill(n)[::-1], 2)
                return norm(z3.Concat(*[z3.Extract(i, i, a[0]) for i in range(n)]))
            return br
        if k in ('fshl', 'fshr'):
            def fs(st, fr, I, a):
                n = I.ty.bits
                s = idiv('urem', a[2], n, n)
                if isinstance(s, int) and isinstance(a[0], int) and isinstance(a[1], int):
                    w = (a[0] << n) | a[1]
                    if k == 'fshl':
                        return (w >> (n - s)) & MASK[n]
                    return (w >> s) & MASK[n]
                w = z3.Concat(tobv(a[0], n), tobv(a[1], n))
                s2 = z3.ZeroExt(n, tobv(s, n))
                if k == 'fshl':
                    return norm(z3.Extract(2 * n - 1, n, w << s2))
                return norm(z3.Extract(n - 1, 0, z3.LShR(w, s2)))
            return fs
        if k in ('fptosi', 'fptoui') and p[2] == 'sat':
            raise Unsupported("saturating fp conversion")
        if k == 'vector' and p[2] == 'reduce':
            def red(st, fr, I, a):
                v = a[-1]
                et = I.y[-1].elem
                n = et.bits
                op = p[3]
                r = self.und(v[0], et)
                for x in v[1:]:
                    x = self.und(x, et)
                    if op == 'add':
                        r = iadd(r, x, n)
                    elif op == 'or':
                        r = ior(r, x, n)
                    elif op == 'and':
                        r = iand(r, x, n)
                    elif op == 'xor':
                        r = ixor(r, x, n)
                    elif op == 'mul':
                        r = imul(r, x, n)
                    else:
                        raise Unsupported(name)
                return r
            return red
        raise Unsupported(f"intrinsic {name}")

    def lifetime_start(self, st, fr, I, a):
        p = a[1]
        if isinstance(p, Ptr) and p.obj in st.mem:
            o = self.wobj(st, p.obj)
            o.alive = True
            o.cells = {}
            o.default = None
        return None

    def lifetime_end(self, st, fr, I, a):
        p = a[1]
        if isinstance(p, Ptr) and p.obj in st.mem:
            o = self.wobj(st, p.obj)
            o.alive = False
            o.cells = {}
            o.default = None
        return None

    def fpclass(self, st, fr, I, a):
        x, m = a
        bits = I.y[0].bits
        x = tofp(x, bits)
        parts = []
        neg = z3.fpIsNegative(x)
        pos = z3.fpIsPositive(x)
        if m & 3:
            parts.append(z3.fpIsNaN(x))
        for bit, c in ((4, z3.And(z3.fpIsInf(x), neg)), (8, z3.And(z3.fpIsNormal(x), neg)),
                       (16, z3.And(z3.fpIsSubnormal(x), neg)), (32, z3.And(z3.fpIsZero(x), neg)),
                       (64, z3.And(z3.fpIsZero(x), pos)), (128, z3.And(z3.fpIsSubnormal(x), pos)),
                       (256, z3.And(z3.fpIsNormal(x), pos)), (512, z3.And(z3.fpIsInf(x), pos))):
            if m & bit:
                parts.append(c)
        return norm(z3.Or(*parts))

    def ovf(self, k, a, b, n):
        if isinstance(a, int) and isinstance(b, int):
            s = k[0] == 's'
            x, y = (sgn(a, n), sgn(b, n)) if s else (a, b)
            r = x + y if k[1:] == 'add' else x - y if k[1:] == 'sub' else x * y
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, MASK[n])
            return (r & MASK[n], int(not lo <= r <= hi))
        if k[1:] == 'mul' and (isinstance(a, int) or isinstance(b, int)):
            # constant multiplier: overflow iff operand outside a constant interval
            c, x = (a, b) if isinstance(a, int) else (b, a)
            if c == 0:
                return (0, 0)
            res = imul(x, c, n)
            if k[0] == 'u':
                if c == 1:
                    return (res, 0)
                return (res, icmp('ugt', x, MASK[n] // c, n))
            cs = sgn(c, n)
            mx, mn = (1 << (n - 1)) - 1, -(1 << (n - 1))
            if cs > 0:
                hi, lo = mx // cs, -((-mn) // cs)
                o = ior(icmp('sgt', x, hi & MASK[n], n), icmp('slt', x, lo & MASK[n], n), 1)
                return (res, o)
            if cs == -1:
                return (res, icmp('eq', x, 1 << (n - 1), n))
            hi = (-mn) // (-cs)          # x*cs >= mn  <=> x <= mn/cs
            lo = -(mx // (-cs))
            o = ior(icmp('sgt', x, hi & MASK[n], n), icmp('slt', x, lo & MASK[n], n), 1)
            return (res, o)
        A = tobv(a, n)
        B = tobv(b, n)
        op = k[1:]
        if op == 'add':
            r = iadd(a, b, n)
            R = tobv(r, n)
            if k[0] == 'u':
                o = z3.ULT(R, A)
            else:
                if isinstance(b, int):
                    sb = sgn(b, n)
                    o = (A > z3.BitVecVal(((1 << (n - 1)) - 1 - sb) & MASK[n], n)) if sb >= 0 else (A < z3.BitVecVal((-(1 << (n - 1)) - sb) & MASK[n], n))
                else:
                    z = z3.BitVecVal(0, n)
                    o = z3.And((A < z) == (B < z), (R < z) != (A < z))
        elif op == 'sub':
            r = isub(a, b, n)
            R = tobv(r, n)
            if k[0] == 'u':
                o = z3.ULT(A, B)
            else:
                z = z3.BitVecVal(0, n)
                o = z3.And((A < z) != (B < z), (R < z) != (A < z))
        else:
            r = imul(a, b, n)
            if k[0] == 'u':
                w = z3.ZeroExt(n, A) * z3.ZeroExt(n, B)
                o = z3.Extract(2 * n - 1, n, w) != z3.BitVecVal(0, n)
            else:
                o = z3.Not(z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B)))
        return (r, norm(o))

    def sat(self, k, a, b, t):
        def one(a, b, n):
            r, o = self.ovf(k, a, b, n)
            if k[0] == 'u':
                s = MASK[n] if k[1:] == 'add' else 0
                if isinstance(o, int):
                    return s if o else r
                return norm(ite(o, s, r, n))
            neg = icmp('slt', a, 0, n)
            mn, mx = 1 << (n - 1), MASK[n - 1]
            s = (mn if neg else mx) if isinstance(neg, int) else ite(neg, mn, mx, n)
            if isinstance(o, int):
                return s if o else r
            return norm(ite(o, s, r, n))
        if t.kind == 'vector':
            return tuple(one(self.und(x, t.elem), self.und(y, t.elem), t.elem.bits) for x, y in zip(a, b))
        return one(a, b, t.bits)

    def ctpop(self, x, n):
        if isinstance(x, int):
            return bin(x).count('1')
        r = z3.BitVecVal(0, n)
        for i in range(n):
            r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, x))
        return norm(r)

    def ctlz(self, x, n):
        if isinstance(x, int):
            return n - x.bit_length()
        r = z3.BitVecVal(n, n)
        for i in range(n):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(n - 1 - i, n), r)
        return norm(r)

    def cttz(self, x, n):
        if isinstance(x, int):
            return n if x == 0 else (x & -x).bit_length() - 1
        r = z3.BitVecVal(n, n)
        for i in reversed(range(n)):
            r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, n), r)
        return norm(r)

    # -------------------------------------------------- merging
    # vf_merge: paths parked at the same place are (1) reduced: constraints over inputs that no live value depends on are
    # set aside (they are satisfiable on their own), and of two states that are equal up to a renaming of their inputs one is
    # dropped; (2) states whose concrete integers and pointers agree are joined with a fresh selector variable.
    # The constraints set aside are solved again when a concrete assignment is needed.
    def full_model(self, st):
        """complete the model of a state with the constraints that were set aside"""
        if not st.elim:
            return st.model
        if all(self.meval(st, c) is True for c in st.elim):
            return st.model
        pins = []
        seen = {}
        for c in st.pc:
            for x in const_list(c):
                if x.get_id() not in seen:
                    seen[x.get_id()] = x
        for x in seen.values():
            val = st.model.get(x.decl().name(), 0)
            pins.append(x == z3.BitVecVal(val, x.size()) if isbv(x) else (x if val else z3.Not(x)))
        for cons in (list(st.elim) + pins, list(st.elim) + list(st.pc)):
            r, mod = self.sol._solve(cons)
            if r == 'sat':
                self.set_model(st, mod)
                return st.model
        raise Unsupported("no assignment for a joined state")

    def inputs_of(self, st):
        """the inputs of one concrete path through a (possibly joined) state, in the order the native run asks for them"""
        model = self.full_model(st)
        flat = []

        def walk(l):
            for x in l:
                if x[0] is None:
                    k = model.get(x[1], 0)
                    walk(x[2][k] if k < len(x[2]) else x[2][0])
                else:
                    flat.append(x)
        walk(st.inputs)
        cnt = {}
        out = []
        for full, bits, base in flat:
            k = cnt.get(base, 0)
            cnt[base] = k + 1
            out.append((f"{base}#{k}", bits, model.get(full, 0)))
        return out

    def obs_of(self, st):
        model = st.model
        flat = []

        def walk(l):
            for x in l:
                if isinstance(x, tuple) and len(x) == 3 and x[0] is None:
                    k = model.get(x[1], 0)
                    walk(x[2][k] if k < len(x[2]) else x[2][0])
                else:
                    flat.append(x)
        walk(st.obs)
        return flat

    def merge_group(self, group, shape=True):
        buckets = {}
        order = []
        dedup = {}
        for s in group:
            self.drop_dead(s)
            ex = self.live_exprs(s)
            rel = self.sol.slice(s.pc, ex)
            ck = self.canon_key(s, ex, rel)
            if ck in dedup:
                self.stats['subsumed'] = self.stats.get('subsumed', 0) + 1
                continue
            dedup[ck] = s
            s.local = dict(s.local)
            s.local['rel'] = rel
            k = self.merge_key(s)
            if k not in buckets:
                buckets[k] = []
                order.append(k)
            buckets[k].append(s)
        if TRACE:
            print(f"merge: {len(group)} states, {len(dedup)} distinct, {len(order)} layouts, t={time.time()-T0:.1f} q={self.sol.queries} tq={self.sol.time:.1f} steps={self.stats['steps']}", flush=True)
        for k in order:
            subs = []        # sub-buckets: [states, shape dict]
            for s in buckets[k]:
                if not shape:
                    if subs:
                        subs[0][0].append(s)
                    else:
                        subs.append([[s], {}])
                    continue
                sh = self.shape(s)
                for sub in subs:
                    ref = sub[1]
                    if len(ref) > len(sh):
                        ok = all(ref.get(q, v) == v for q, v in sh.items())
                    else:
                        ok = all(sh.get(q, v) == v for q, v in ref.items())
                    if ok:
                        sub[0].append(s)
                        for q, v in sh.items():
                            ref.setdefault(q, v)
                        break
                else:
                    subs.append([[s], sh])
            for sts, _ in subs:
                if len(sts) <= (self.merge_min if shape else 1):
                    self.work.extend(sts)
                else:
                    self.stats['merges'] += 1
                    self.stats['merged_states'] += len(sts)
                    self.work.append(self.merge(sts))

    def live_regs(self, fn, blk, ip):
        """registers that may be read at or after instruction ip of block blk"""
        info = getattr(fn, '_live', None)
        if info is None:
            info = fn._live = {}
            succ = {}
            use = {}
            dfn = {}
            for b in fn.blocks:
                u, d = set(), set()
                for I in b.insts:
                    for r in inst_reads(I):
                        if r not in d:
                            u.add(r)
                    if I.dst is not None:
                        d.add(I.dst)
                for P in b.phis:
                    d.add(P.dst)
                    u.discard(P.dst)
                use[b.idx], dfn[b.idx] = u, d
                succ[b.idx] = inst_succ(b.insts[-1])
            li = {b.idx: set() for b in fn.blocks}
            ch = True
            while ch:
                ch = False
                for b in reversed(fn.blocks):
                    o = set()
                    for s in succ[b.idx]:
                        sb = fn.blocks[s]
                        o |= li[s]
                        for P in sb.phis:
                            x = P.x.get(b.idx)
                            if x.__class__ is Reg:
                                o.add(x.i)
                    n = use[b.idx] | (o - dfn[b.idx])
                    # phi results of b are defined on entry; operands are added on the edge
                    if n != li[b.idx]:
                        li[b.idx] = n
                        ch = True
            fn._li, fn._succ = li, succ
        key = (blk.idx, ip)
        r = info.get(key)
        if r is None:
            o = set()
            for s in fn._succ[blk.idx]:
                sb = fn.blocks[s]
                o |= fn._li[s]
                for P in sb.phis:
                    x = P.x.get(blk.idx)
                    if x.__class__ is Reg:
                        o.add(x.i)
            for I in reversed(blk.insts[ip:]):
                if I.dst is not None:
                    o.discard(I.dst)
                o.update(inst_reads(I))
            r = info[key] = frozenset(o)
        return r

    def drop_dead(self, s):
        top = len(s.frames) - 1
        for i, f in enumerate(s.frames):
            if i == top:
                live = self.live_regs(f.fn, f.blk, f.ip)
            else:
                live = self.live_regs(f.fn, f.blk, f.ip + 1)
            f.regs = [r if k in live else None for k, r in enumerate(f.regs)]

    def live_items(self, s):
        for fi, f in enumerate(s.frames):
            for ri, r in enumerate(f.regs):
                if r is not None:
                    yield (0, fi, ri), r
        for oid in sorted(s.mem):
            o = s.mem[oid]
            if o.ro or o is self.base_mem.get(oid):
                continue
            if not o.alive:
                continue
            for off in sorted(o.cells):
                n, x = o.cells[off]
                if n > 1 and x.__class__ is int:
                    for j in range(n):
                        yield (oid, off + j, 1), (x >> (8 * j)) & 255
                else:
                    yield (oid, off, n), x

    def live_exprs(self, s):
        out = []
        for _, x in self.live_items(s):
            exprs_in(x, out)
        return out

    def canon_key(self, s, exprs, rel):
        num = {}
        pairs = []
        cache = self.__dict__.setdefault('_canonvars', {})

        def number(e):
            for x in const_list(e):
                i = x.get_id()
                if i not in num:
                    srt = x.sort()
                    kk = (len(num), str(srt))
                    c = cache.get(kk)
                    if c is None:
                        c = cache[kk] = z3.Const(f"c!{kk[0]}!{kk[1]}", srt)
                    num[i] = c
                    pairs.append((x, c))
        for e in exprs:
            number(e)
        for e in rel:
            number(e)
        keep = self.__dict__.setdefault('_canonkeep', {})

        def sub(e):
            if e.num_args() == 0:
                r = num.get(e.get_id(), e)
            else:
                r = z3.substitute(e, *pairs) if pairs else e
            keep[r.get_id()] = r
            return r.get_id()

        def ck(x):
            if isinstance(x, z3.ExprRef):
                return ('e', sub(x))
            if isinstance(x, float):
                return ('f', fbits(x, 64))
            if isinstance(x, Ptr):
                return ('p', x.obj, ck(x.off))
            if isinstance(x, PSet):
                return ('s',) + tuple((sub(g), ck(p)) for g, p in x.alts)
            if isinstance(x, tuple):
                return ('t',) + tuple(ck(y) for y in x)
            if isinstance(x, int):
                return x
            return ('o', x.__class__.__name__)
        items = tuple((k, ck(x)) for k, x in self.live_items(s))
        objs = tuple((oid, o.size, o.alive, o.default) for oid, o in sorted(s.mem.items())
                     if not (o.ro or o is self.base_mem.get(oid)))
        fr = tuple((f.fn.id, f.blk.idx, f.ip, len(f.allocas)) for f in s.frames)
        return (fr, objs, items, frozenset(sub(c) for c in rel))

    def shape(self, s):
        """concrete integer/pointer contents of mutable memory: states that differ here are not joined"""
        d = {}
        for oid, o in s.mem.items():
            if o.ro or o is self.base_mem.get(oid):
                continue
            for off, (n, x) in o.cells.items():
                if isinstance(x, int):
                    for j in range(n):
                        d[(oid, off + j, 1)] = (x >> (8 * j)) & 255
                elif isinstance(x, Ptr) and isinstance(x.off, int):
                    d[(oid, off, n)] = (x.obj, x.off)
        return d

    def merge_key(self, s):
        live = tuple(sorted((oid, o.size, o.alive) for oid, o in s.mem.items() if oid >= self.nextg))
        fr = []
        for f in s.frames:
            fr.append((f.fn.id, f.blk.idx, f.ip, len(f.allocas)))
        return (live, tuple(fr))

    def merge(self, states):
        s0 = states[0]
        nst = len(states)
        self.nsel = getattr(self, 'nsel', 0) + 1
        bits = max(1, (nst - 1).bit_length())
        sel = z3.BitVec(f"sel!{self.nsel}", bits)
        guards = [sel == z3.BitVecVal(i, bits) for i in range(nst)]
        m = State()
        m.frames = []
        m.names = {}
        for s in states:
            for a, b in s.names.items():
                m.names[a] = max(m.names.get(a, 0), b)
        k = 0
        while all(k < len(s.inputs) and s.inputs[k] == s0.inputs[k] for s in states):
            k += 1
        m.inputs = list(s0.inputs[:k]) + [(None, sel.decl().name(), [s.inputs[k:] for s in states])]
        m.pc = []
        m.pcids = set()
        rels = [s.local['rel'] for s in states]
        relids = [set(c.get_id() for c in r) for r in rels]
        common = set.intersection(*relids)
        if nst != 1 << bits:
            self.add_pc(m, z3.ULT(sel, z3.BitVecVal(nst, bits)))
        for c in rels[0]:
            if c.get_id() in common:
                self.add_pc(m, c)
        elim = []
        for i, s in enumerate(states):
            for c in rels[i]:
                if c.get_id() not in common:
                    self.add_pc(m, z3.Or(z3.Not(guards[i]), c))
            drop = [c for c in s.pc if c.get_id() not in relids[i]] + [c for c in s.elim]
            if drop:
                elim.append(z3.Or(z3.Not(guards[i]), z3.And(*drop) if len(drop) > 1 else drop[0]))
        m.elim = tuple(elim)
        m.model = dict(s0.model)
        m.model[sel.decl().name()] = 0
        m.nextobj = max(s.nextobj for s in states)
        m.owner = object()
        m.steps = max(s.steps for s in states)
        m.asserts = 0
        m.decisions = 0
        m.trace = s0.trace
        m.local = {k: v for k, v in s0.local.items() if k != 'rel'}
        m.reach = 0
        # registers
        for fi in range(len(s0.frames)):
            f0 = s0.frames[fi]
            f = f0.clone()
            types = f.fn.regtypes
            for ri in range(len(f.regs)):
                vals = [s.frames[fi].regs[ri] for s in states]
                f.regs[ri] = self.merge_vals(m, guards, vals, types[ri])
            m.frames.append(f)
        # memory
        m.mem = {}
        for oid, o0 in s0.mem.items():
            objs = [s.mem[oid] for s in states]
            if all(o is o0 for o in objs):
                m.mem[oid] = o0
                continue
            m.mem[oid] = self.merge_obj(m, guards, objs, states)
        # observations
        m.obs_ok = all(s.obs_ok for s in states)
        m.obs = [(None, sel.decl().name(), [s.obs for s in states])]
        return m

    def merge_vals(self, m, guards, vals, t):
        v0 = vals[0]
        same = True
        for v in vals[1:]:
            if v is v0:
                continue
            if isinstance(v, int) and isinstance(v0, int):
                if v == v0:
                    continue
            elif isinstance(v, float) and isinstance(v0, float):
                if fbits(v, 64) == fbits(v0, 64):
                    continue
            elif isinstance(v, z3.ExprRef) and isinstance(v0, z3.ExprRef):
                if v.get_id() == v0.get_id():
                    continue
            elif isinstance(v, Ptr) and isinstance(v0, Ptr) and v.obj == v0.obj:
                if isinstance(v.off, int) and isinstance(v0.off, int) and v.off == v0.off:
                    continue
                if isinstance(v.off, z3.ExprRef) and isinstance(v0.off, z3.ExprRef) and v.off.get_id() == v0.off.get_id():
                    continue
            elif isinstance(v, tuple) and v == v0:
                continue
            same = False
            break
        if same:
            return v0
        if any(v is None for v in vals):
            return None
        if any(v.__class__ is Undef for v in vals):
            vals = [self.undef(m, t) if v.__class__ is Undef else v for v in vals]
        r = vals[-1]
        # group equal values to keep the chain short
        for g, v in zip(reversed(guards[:-1]), reversed(vals[:-1])):
            r = self.ite_any(g, v, r, t)
        if isinstance(r, z3.ExprRef):
            r = norm(r)
        return r

    def merge_obj(self, m, guards, objs, states):
        o0 = objs[0]
        r = o0.clone(m.owner)
        if any(o.alive != o0.alive for o in objs):
            raise Unsupported("merge of objects with different lifetime")
        if any(o.default != o0.default for o in objs):
            # normalise: materialise defaults bytewise
            sz = o0.size
            if sz > 4096:
                raise Unsupported("merge of large objects with different fill")
            objs = [o.clone(m.owner) for o in objs]
            for o in objs:
                if o.default is not None:
                    i = 0
                    covered = set()
                    for k, (s_, _) in o.cells.items():
                        covered.update(range(k, k + s_))
                    for i in range(sz):
                        if i not in covered:
                            o.cells[i] = (1, o.default)
                    o.default = None
            r.default = None
        keys = {}
        for o in objs:
            for off, c in o.cells.items():
                keys.setdefault(off, set()).add(c[0])
        # clusters of overlapping cells
        segs = sorted((off, max(szs)) for off, szs in keys.items())
        clusters = []
        for off, sz in segs:
            if clusters and off < clusters[-1][1]:
                clusters[-1][1] = max(clusters[-1][1], off + sz)
            else:
                clusters.append([off, off + sz])
        r.cells = {}
        for a, b in clusters:
            n = b - a
            simple = keys[a] == {n} and all(k not in keys for k in range(a + 1, b))
            if simple:
                cs = [o.cells.get(a) for o in objs]
                if all(c is not None for c in cs):
                    c0 = cs[0]
                    if all(c is c0 for c in cs):
                        r.cells[a] = c0
                        continue
                    r.cells[a] = (n, self.merge_cell(m, guards, [c[1] for c in cs], 8 * n))
                    continue
                vals = []
                for o, c in zip(objs, cs):
                    if c is not None:
                        vals.append(c[1])
                    elif o.default is not None:
                        vals.append(int.from_bytes(bytes([o.default]) * n, 'little'))
                    else:
                        vals.append(None)
                if any(v is None for v in vals):
                    # uninitialised in some states: one fresh value stands for it
                    fr = self.fresh(m, 'uninit!', 8 * n)
                    vals = [fr if v is None else v for v in vals]
                r.cells[a] = (n, self.merge_cell(m, guards, vals, 8 * n))
                continue
            # mixed layout: finest common boundaries
            cuts = {a, b}
            for o in objs:
                for off in range(a, b):
                    c = o.cells.get(off)
                    if c:
                        cuts.add(off)
                        cuts.add(off + c[0])
            cl = sorted(cuts)
            for x, y in zip(cl, cl[1:]):
                vals = []
                for o, s in zip(objs, states):
                    tmp = o
                    cov = self.covered(o, x, y - x)
                    if cov is None:
                        vals.append(None)
                    else:
                        vals.append(cov)
                if all(v is None for v in vals):
                    continue
                if any(v is None for v in vals):
                    fr = self.fresh(m, 'uninit!', 8 * (y - x))
                    vals = [fr if v is None else v for v in vals]
                r.cells[x] = (y - x, self.merge_cell(m, guards, vals, 8 * (y - x)))
        return r

    def covered(self, o, off, n):
        """value of [off, off+n) which lies inside one cell or outside all cells"""
        c = o.cells.get(off)
        if c is not None:
            if c[0] == n:
                return c[1]
            x = self.asint(c[1], 8 * c[0])
            return x & MASK[8 * n] if isinstance(x, int) else norm(z3.Extract(8 * n - 1, 0, x))
        for d in range(1, 65):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    x = self.asint(c[1], 8 * c[0])
                    if isinstance(x, int):
                        return (x >> (8 * d)) & MASK[8 * n]
                    return norm(z3.Extract(8 * (d + n) - 1, 8 * d, x))
                break
        if o.default is not None:
            return int.from_bytes(bytes([o.default]) * n, 'little')
        return None

    def merge_cell(self, m, guards, vals, bits):
        if any(isinstance(v, (Ptr, PSet)) for v in vals):
            if all(isinstance(v, (Ptr, PSet)) or v == 0 for v in vals if not isinstance(v, z3.ExprRef)) and not any(isinstance(v, z3.ExprRef) for v in vals):
                vals = [NULL if isinstance(v, int) else v for v in vals]
                return self.merge_vals(m, guards, vals, PTRTY)
            vals = [self.ptr_int(v) if isinstance(v, (Ptr, PSet)) else v for v in vals]
        if any(isinstance(v, (float, z3.FPRef)) for v in vals):
            if all(isinstance(v, (float, z3.FPRef)) for v in vals):
                return self.merge_vals(m, guards, vals, FTY(bits))
            vals = [self.asint(v, bits) for v in vals]
        return self.merge_vals(m, guards, vals, INTTY(bits))


def inst_reads(I):
    out = []
    for o in I.ops:
        if o.__class__ is Reg:
            out.append(o.i)
    if I.op in ('call', 'invoke') and I.x.__class__ is Reg:
        out.append(I.x.i)
    return out


def inst_succ(I):
    if I.op == 'br':
        return list(I.x)
    if I.op == 'switch':
        d, cases = I.x
        return [d] + [b for _, b in cases]
    return []


def exprs_in(x, out):
    if isinstance(x, z3.ExprRef):
        out.append(x)
    elif isinstance(x, Ptr):
        if isinstance(x.off, z3.ExprRef):
            out.append(x.off)
    elif isinstance(x, PSet):
        for g, p in x.alts:
            out.append(g)
            exprs_in(p, out)
    elif isinstance(x, tuple):
        for y in x:
            exprs_in(y, out)


_clist = {}


def const_list(e):
    """the uninterpreted constants of e in depth-first order of first occurrence"""
    i = e.get_id()
    r = _clist.get(i)
    if r is not None:
        return r[1]
    out = []
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        n = x.num_args()
        if n == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            continue
        stack.extend(reversed(x.children()))
    _clist[i] = (e, out)
    return out


TRACE = bool(os.environ.get('VF_TRACE'))
T0 = time.time()


class _T:
    __slots__ = ('kind', 'bits', 'size', 'asize', 'elem', 'n', 'elems', 'offs', 'align')


_tys = {}


def INTTY(bits):
    t = _tys.get(bits)
    if t is None:
        t = _T()
        t.kind = 'int'
        t.bits = bits
        t.size = t.asize = (bits + 7) // 8
        _tys[bits] = t
    return t


def FTY(bits):
    t = _tys.get(('f', bits))
    if t is None:
        t = _T()
        t.kind = 'float' if bits == 32 else 'double'
        t.bits = bits
        t.size = t.asize = bits // 8
        _tys[('f', bits)] = t
    return t


PTRTY = _T()
PTRTY.kind = 'ptr'
PTRTY.bits = 64
PTRTY.size = PTRTY.asize = 8
NOADV = object()


def int_to_f(v, bits):
    if bits == 64:
        return float(v)
    # correct single rounding int -> float32
    if abs(v) < (1 << 53):
        return f32(float(v))
    e = z3.simplify(z3.fpSignedToFP(RNE, z3.BitVecVal(v, 130), F32))
    return fpnum(e)


_fpb = {}


def fp_bits(x, bits):
    """IEEE bits of an FP expression; undoes fpBVToFP and distributes over if-then-else"""
    if isinstance(x, z3.FPNumRef):
        return fbits(fpnum(x), bits)
    k = x.decl().kind()
    if k == z3.Z3_OP_FPA_TO_FP and x.num_args() == 1 and isinstance(x.arg(0), z3.BitVecRef):
        return x.arg(0)
    if k == z3.Z3_OP_ITE:
        i = x.get_id()
        r = _fpb.get(i)
        if r is None:
            a, b = fp_bits(x.arg(1), bits), fp_bits(x.arg(2), bits)
            r = (x, ite(x.arg(0), a, b, bits))
            _fpb[i] = r
        return r[1]
    return z3.fpToIEEEBV(x)


def bv_fp(x, bits):
    k = x.decl().kind()
    if k == z3.Z3_OP_FPA_TO_IEEE_BV:
        return x.arg(0)
    if k == z3.Z3_OP_ITE:
        a, b = x.arg(1), x.arg(2)
        va, vb = lit(a), lit(b)
        fa = fpconst(bitsf(va, bits), bits) if va is not None and not _nanbits(va, bits) else bv_fp(a, bits)
        fb = fpconst(bitsf(vb, bits), bits) if vb is not None and not _nanbits(vb, bits) else bv_fp(b, bits)
        if not isinstance(fa, z3.ExprRef):
            fa = tofp(fa, bits)
        if not isinstance(fb, z3.ExprRef):
            fb = tofp(fb, bits)
        return z3.If(x.arg(0), fa, fb)
    return z3.fpBVToFP(x, fsort(bits))


def _nanbits(v, bits):
    f = bitsf(v, bits)
    return f != f


# ------------------------------------------------------------------ evaluation under an assignment
def _subst(e, asg, ex):
    names = vars_of(e)
    subs = []
    for n in names:
        c = CONSTS.get(n)
        if c is None:
            c = find_const(e, n)
            CONSTS[n] = c
        val = asg.get(n, 0)
        if z3.is_bv(c):
            subs.append((c, z3.BitVecVal(val, c.size())))
        elif z3.is_bool(c):
            subs.append((c, z3.BoolVal(bool(val))))
    return z3.simplify(z3.substitute(e, *subs)) if subs else z3.simplify(e)


CONSTS = {}


def find_const(e, name):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == name:
            return x
        stack.extend(x.children())
    raise KeyError(name)


def eval_model(e, asg, ex=None):
    r = _subst(e, asg, ex)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return None


def eval_model_bv(e, asg, ex=None):
    if isinstance(e, int):
        return e
    r = _subst(e, asg, ex)
    v = lit(r)
    if v is None:
        # partially interpreted floating-point terms: ask a solver
        s = z3.Solver()
        x = z3.FreshConst(r.sort())
        s.add(x == r)
        if s.check() == z3.sat:
            v = s.model()[x].as_long()
        else:
            raise Unsupported("cannot evaluate expression")
    return v


UBSAN = {0: 'add overflow', 1: 'builtin unreachable', 2: 'cfi', 3: 'division', 4: 'dynamic type', 5: 'float cast overflow',
         6: 'function type', 7: 'implicit conversion', 8: 'invalid builtin', 9: 'invalid objc cast', 10: 'load of invalid value',
         11: 'missing return', 12: 'mul overflow', 13: 'negate overflow', 14: 'nullability arg', 15: 'nullability return',
         16: 'nonnull arg', 17: 'nonnull return', 18: 'index out of bounds', 19: 'pointer overflow', 20: 'shift out of bounds',
         21: 'sub overflow', 22: 'type mismatch', 23: 'alignment assumption', 24: 'vla bound'}

NATIVE_ALIASES = {
    '_Znwm': 'n_new', '_Znam': 'n_new', '_ZdlPv': 'n_free', '_ZdlPvm': 'n_free', '_ZdaPv': 'n_free', '_ZdaPvm': 'n_free',
    '_ZnwmSt11align_val_t': 'n_new', '_ZdlPvSt11align_val_t': 'n_free', '_ZdlPvmSt11align_val_t': 'n_free',
    'memmove': 'n_memcpy', 'bcmp': 'n_memcmp', 'floorf': 'n_floor', 'ceilf': 'n_ceil', 'trunc': 'n_truncf',
    'roundf': 'n_round', 'rintf': 'n_rint', 'nearbyintf': 'n_rint', 'nearbyint': 'n_rint', 'fabsf': 'n_fabs',
    'sqrtf': 'n_sqrt', 'fminf': 'n_fmin', 'fmaxf': 'n_fmax', 'sinf': 'n_sin', 'cosf': 'n_cos', 'tanf': 'n_tan',
    'expf': 'n_exp', 'logf': 'n_log', 'log2f': 'n_log2', 'powf': 'n_pow', 'exp2f': 'n_exp2', 'fmodf': 'n_fmod',
    'log10f': 'n_log10', 'atan2f': 'n_atan2', '_ZSt9terminatev': 'n_abort', '__cxa_atexit': 'n_nop',
    '__cxa_pure_virtual': 'n_abort', '__assert_fail': 'n_abort', 'fmaf': 'n_fma',
    '__gxx_personality_v0': 'n_abort', '_ZSt17__throw_bad_allocv': 'n_abort',
}
