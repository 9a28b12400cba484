"""Concurrency: every thread of a scenario is executed symbolically on its own, with every read of shared memory returning a
fresh symbolic value, which gives the paths of the thread as sequences of events. For each combination of paths the solver is
asked whether the C++ memory model (RC11: release/acquire, relaxed, fences, read-modify-writes, the order of seq_cst accesses)
has an execution of these events in which an assertion fails or two conflicting accesses race."""
import os
import re
import time
import z3
import sym
import solver
import build
from llvm import Module

TB = 8          # bits of positions, times and clocks


class Ev:
    __slots__ = ('kind', 'tid', 'obj', 'off', 'size', 'val', 'old', 'ord', 'na', 'msg', 'guard', 'idx', 'where', 'ford')

    def __init__(self, kind, tid, obj=None, off=None, size=0, val=None, old=None, ord='na', msg=None, guard=None, where='', ford=None):
        self.kind, self.tid, self.obj, self.off, self.size, self.val, self.old = kind, tid, obj, off, size, val, old
        self.ord, self.na, self.msg, self.guard, self.where, self.ford = ord, ord == 'na', msg, guard, where, ford

    reads = property(lambda s: s.kind in 'RU')
    writes = property(lambda s: s.kind in 'WU')


ACQ = ('acq', 'acqrel', 'sc')
REL = ('rel', 'acqrel', 'sc')


class Recorder:
    """Executor hooks of one thread. Own writes also go to the thread's copy of memory, which answers the reads of locations no
    other thread writes; a read of a location another thread may write yields a fresh symbol."""

    def __init__(self, tid, shared, written, solo=False):
        self.tid, self.shared, self.solo = tid, shared, solo
        self.others = [w for w in written if w[3] != tid]
        self.seen = []

    def is_shared(self, ex, st, p):
        if isinstance(p, sym.PSet) or not isinstance(p, sym.Ptr):
            p = ex.resolve(st, p)
        return p, p.obj in self.shared

    def may_be_written(self, ex, st, p, n):
        for obj, off, size, tid in self.others:
            if obj != p.obj:
                continue
            if isinstance(off, int) and isinstance(p.off, int):
                if off < p.off + n and p.off < off + size:
                    return True
            else:
                a = sym.tobv(off, 64)
                b = sym.tobv(p.off, 64)
                s = z3.Solver()
                s.set('timeout', 2000)
                s.add(z3.ULT(a, b + n), z3.ULT(b, a + size))
                if s.check() != z3.unsat:
                    return True
        return False

    def pieces(self, t, ord):
        if t.kind not in ('int', 'float', 'double'):
            raise sym.Unsupported(f"shared access of type {t.kind}")
        n = t.size
        if ord == 'na' and n > 4 and n % 4 == 0:
            return [(i, 4) for i in range(0, n, 4)]
        return [(0, n)]

    def load(self, ex, st, fr, I, p):
        p, sh = self.is_shared(ex, st, p)
        if not sh:
            return None
        t = I.ty
        ex.check_access(st, p, t.size, False)
        if not self.may_be_written(ex, st, p, t.size):
            return None
        if t.kind != 'int':
            raise sym.Unsupported(f"concurrently written {t.kind}")
        parts = []
        for o, n in self.pieces(t, I.x):
            v = ex.fresh(st, 'rd!', 8 * n)
            st.trace.append(Ev('R', self.tid, p.obj, ex.padd(p, o).off, n, v, ord=I.x, where=ex.where(st)))
            parts.append(v)
        v = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
        if t.bits == 1:
            return sym.norm(z3.Extract(0, 0, v) == 1)
        if t.bits != 8 * t.size:
            v = z3.Extract(t.bits - 1, 0, v)
        return v

    def store(self, ex, st, fr, I, p, x):
        p, sh = self.is_shared(ex, st, p)
        if not sh:
            return False
        t = I.y
        ex.check_access(st, p, t.size, True)
        if t.kind == 'ptr' and self.solo:
            return False
        if t.kind != 'int':
            raise sym.Unsupported(f"concurrent write of {t.kind}")
        if t.bits == 1:
            x = sym.zext(x, 1, 8)
        elif t.bits != 8 * t.size:
            x = sym.zext(x, t.bits, 8 * t.size)
        for o, n in self.pieces(t, I.x):
            v = z3.simplify(z3.Extract(8 * (o + n) - 1, 8 * o, sym.tobv(x, 8 * t.size))) if n != t.size else sym.tobv(x, 8 * n)
            self.wr(st, ex, Ev('W', self.tid, p.obj, ex.padd(p, o).off, n, v, ord=I.x, where=ex.where(st)))
        return False

    def wr(self, st, ex, e):
        st.trace.append(e)
        self.seen.append((e.obj, e.off, e.size, self.tid))

    def fence(self, ex, st, fr, I):
        order, single = I.x
        if not single:
            st.trace.append(Ev('F', self.tid, ord=order, where=ex.where(st)))

    def rmw(self, ex, st, fr, I, p, x):
        p, sh = self.is_shared(ex, st, p)
        if not sh:
            return None
        n = I.y.size
        ex.check_access(st, p, n, True)
        old = ex.fresh(st, 'rd!', 8 * n) if self.may_be_written(ex, st, p, n) else ex.load(st, p, I.y)
        new = ex.rmw_val(I.x[0], old, x, I.y.bits)
        self.wr(st, ex, Ev('U', self.tid, p.obj, p.off, n, sym.tobv(new, 8 * n), sym.tobv(old, 8 * n), I.x[1], where=ex.where(st), ford=I.x[1]))
        ex.store(st, p, new, I.y)
        return old

    def cas(self, ex, st, fr, I, p, e, n):
        p, sh = self.is_shared(ex, st, p)
        if not sh:
            return None
        sz = I.y.size
        ex.check_access(st, p, sz, True)
        old = ex.fresh(st, 'rd!', 8 * sz) if self.may_be_written(ex, st, p, sz) else ex.load(st, p, I.y)
        c = sym.norm(sym.tobv(old, 8 * sz) == sym.tobv(e, 8 * sz))
        self.wr(st, ex, Ev('U', self.tid, p.obj, p.off, sz, sym.tobv(n, 8 * sz), sym.tobv(old, 8 * sz), I.x[0],
                           guard=sym.tobool(c), where=ex.where(st), ford=I.x[1]))
        ex.store(st, p, z3.If(sym.tobool(c), sym.tobv(n, 8 * sz), sym.tobv(old, 8 * sz)), I.y)
        return (old, c)

    def copy(self, ex, st, d, s, n):
        ds, ss = d.obj in self.shared, s.obj in self.shared
        if not ds and not ss:
            return False
        ex.check_access(st, s, n, False)
        ex.check_access(st, d, n, True)
        g = 4 if n % 4 == 0 else n if n <= 8 else 1

        class T:
            kind, size, bits = 'int', g, 8 * g
        vals = []
        for i in range(0, n, g):
            q = ex.padd(s, i)
            if ss and self.may_be_written(ex, st, q, g):
                v = ex.fresh(st, 'rd!', 8 * g)
                st.trace.append(Ev('R', self.tid, q.obj, q.off, g, v, where=ex.where(st)))
            else:
                v = ex.load(st, q, T)
            vals.append(v)
        for i, v in zip(range(0, n, g), vals):
            q = ex.padd(d, i)
            if ds:
                self.wr(st, ex, Ev('W', self.tid, q.obj, q.off, g, sym.tobv(v, 8 * g), where=ex.where(st)))
            ex.store(st, q, v, T)
        return True

    def fill(self, ex, st, d, v, n):
        if d.obj not in self.shared:
            return
        if not isinstance(n, int) or not isinstance(v, int):
            raise sym.Unsupported("memset of shared memory")
        d = ex.resolve(st, d)
        g = 4 if n % 4 == 0 else 1
        for i in range(0, n, g):
            self.wr(st, ex, Ev('W', self.tid, d.obj, ex.padd(d, i).off, g, sym.tobv(v * (0x01010101 if g == 4 else 1), 8 * g), where=ex.where(st)))


class Scenario:
    def __init__(self, bc, name, deadline):
        self.name, self.deadline = name, deadline
        self.sol = solver.Solver(deadline=deadline)
        self.ex = ex = sym.Executor(Module(bc), self.sol, {'deadline': deadline})
        self.queries = 0
        self.light = 0
        self.prepped = {}
        self.TRUE, self.FALSE = z3.BoolVal(True), z3.BoolVal(False)
        self.events = 0
        self.solver_s = 0.0
        self.tid = None
        real = ex.fresh

        def fresh(st, name, bits):
            return real(st, name if self.tid is None else f"{name}@{self.tid}", bits)
        ex.fresh = fresh

    def init(self):
        ex = self.ex
        ex.maxwit = 4
        ex.run('vfi_' + self.name)
        if len(ex.finished) != 1:
            raise sym.Unsupported("initialisation of a scenario forks")
        st = ex.finished[0]
        self.st0 = st
        self.shared = {oid for oid in st.mem if st.mem[oid] is not None and st.mem[oid].alive and not st.mem[oid].ro and st.mem[oid].kind != 'stack'}
        self.real_report = ex.report
        ex.natives['vf_assert'] = self.n_assert
        ex.report = self.bad

    def run_thread(self, st, fn, tid, written):
        ex = self.ex
        st.trace = []
        st.frames = []
        ex.push_frame(st, ex.getf(fn), [], None)
        rec = Recorder(tid, self.shared, written, solo=tid == self.ntid)
        ex.hooks = rec
        self.tid = tid
        done = []
        ex.on_complete = lambda s: done.append((list(s.pc), list(s.trace), list(s.inputs)))
        ex.work = [st]
        try:
            ex.explore()
        finally:
            ex.hooks = None
            ex.on_complete = None
            self.tid = None
        return done, rec.seen

    def threads(self, fns):
        """paths of every thread: lists of (path condition, events, inputs)"""
        self.ntid = len(fns)
        written = []
        key = lambda w: (w[0], w[1] if isinstance(w[1], int) else w[1].get_id(), w[2], w[3])
        keys = set()
        while True:
            res, new = [], 0
            for tid, fn in enumerate(fns):
                done, seen = self.run_thread(self.st0.fork(), fn, tid, written)
                res.append(done)
                for e in seen:
                    if key(e) not in keys:
                        keys.add(key(e))
                        written = written + [e]
                        new += 1
            if not new:
                break
            if len(written) > 600:
                raise sym.Unsupported("too many shared locations")
        self.written = written
        return res

    def final(self, paths, fn):
        """paths of what runs after the threads have ended: what only one thread wrote is known, the rest is read symbolically"""
        st = self.st0.fork()
        ex = self.ex
        wr = {}
        for obj, off, size, tid in self.written:
            wr.setdefault(obj, []).append((off, size, tid))
        multi = []
        for obj, l in wr.items():
            conc = all(isinstance(o, int) for o, s, t in l)
            for off, size, tid in l:
                if not conc and len({t for o, s, t in l}) > 1 or conc and any(t != tid and o < off + size and off < o + s for o, s, t in l):
                    multi.append((obj, off, size, tid))
        for tid, (pc, tr, inp) in enumerate(paths):
            for e in tr:
                if e.kind in 'WU':
                    class T:
                        kind, size, bits = 'int', e.size, 8 * e.size
                    ex.store(st, sym.Ptr(e.obj, e.off), e.val, T)
        for pc, tr, inp in paths:
            for c in pc:
                ex.add_pc(st, c)
        ok, m = ex.feasible(st, z3.BoolVal(True))
        if not ok:
            return []
        ex.set_model(st, m)
        return self.run_thread(st, fn, self.ntid, multi)[0]

    def bad(self, st, kind, msg):
        e = sym.Unsupported(f"{kind}: {msg}")
        e.where = self.ex.where(st)
        raise e

    def n_assert(self, st, fr, I, a):
        msg = self.ex.cstr(st, a[1])
        self.ex.stats['asserts'] += 1
        self.ex.stats['assert_sites'].add(msg)
        c = a[0]
        if isinstance(c, int) and c:
            return None
        st.trace.append(Ev('A', None, val=sym.tobool(c), msg=msg, where=self.ex.where(st)))
        return None

    # ---- the memory model
    def initial(self, obj, off, size):
        class T:
            kind, bits = 'int', 8 * size
        T.size = size
        return sym.tobv(self.ex.load(self.st0, sym.Ptr(obj, off), T), 8 * size)

    def prep(self, path, keep=True):
        """the events of a path with the values and guards that its condition determines filled in"""
        k = id(path)
        if keep and k in self.prepped:
            return self.prepped[k][1]
        pc, tr, inp = path
        vs = set()
        for e in tr:
            for x in (e.val, e.old, e.guard, e.off):
                if isinstance(x, z3.ExprRef):
                    vs |= sym.vars_of(x)
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*pc)
        forced = []
        ok = s.check() == z3.sat
        if ok:
            m = s.model()
            for e in tr:
                x = e.val if e.kind == 'R' else e.old if e.kind == 'U' else None
                if x is not None and z3.is_const(x) and not z3.is_bv_value(x) and '@' in str(x):
                    c = m.eval(x, model_completion=True)
                    s.push()
                    s.add(x != c)
                    if s.check() == z3.unsat:
                        forced.append((x, c))
                    s.pop()
        sub = (lambda x: z3.simplify(z3.substitute(x, *forced)) if isinstance(x, z3.ExprRef) else x)
        out, asserts = [], []
        for e in tr:
            if e.kind == 'A':
                asserts.append((sub(e.val), e.msg, e.where))
                continue
            n = Ev(e.kind, e.tid, e.obj, sym.norm(sub(e.off)), e.size, sub(e.val), sub(e.old), e.ord, e.msg, sub(e.guard), e.where, e.ford)
            if n.guard is not None and ok and not (z3.is_true(n.guard) or z3.is_false(n.guard)):
                for c, v in ((z3.Not(n.guard), True), (n.guard, False)):
                    s.push()
                    s.add(c)
                    if s.check() == z3.unsat:
                        n.guard = z3.BoolVal(v)
                    s.pop()
            if n.guard is not None and z3.is_false(n.guard):
                # an exchange that fails only reads
                n = Ev('R', e.tid, n.obj, n.off, n.size, n.old, None, e.ford or e.ord, e.msg, None, e.where)
            elif n.guard is not None and z3.is_true(n.guard):
                n.guard = None
            n.idx = len(out)
            out.append(n)
        # which known values can a read have?
        can = {}

        def possible(x, c):
            kk = (x.get_id(), c)
            if kk not in can:
                s.push()
                s.add(x == c)
                can[kk] = s.check() != z3.unsat
                s.pop()
            return can[kk]
        r = (out, asserts, possible if ok else (lambda x, c: True))
        if keep:
            self.prepped[k] = (path, r)
        return r

    def encode(self, paths, final):
        """paths: one per thread; the last one, if final, runs after all others"""
        TRUE, FALSE = self.TRUE, self.FALSE
        evs, asserts, cons, per, possible = [], [], [], [], []
        for tid, path in enumerate(paths):
            cons += path[0]
            mine, asr, pos_ = self.prep(path, not final or tid < len(paths) - 1)
            for e in mine:
                e.tid = tid
            per.append(mine)
            evs += mine
            asserts += asr
            possible.append(pos_)
        nt = len(paths)
        N = len(evs)
        self.events = max(self.events, N)
        if N > 120:
            raise sym.Unsupported("more than 120 events")
        ULT, UGE, ULE = z3.ULT, z3.UGE, z3.ULE
        bv = lambda n: z3.BitVec(n, TB)
        pos = [bv(f'pos!{i}') for i in range(N)]
        tm = [bv(f'time!{i}') for i in range(N)]
        num = {id(e): i for i, e in enumerate(evs)}

        def AND(xs):
            ys = []
            for x in xs:
                if x is FALSE:
                    return FALSE
                if x is not TRUE:
                    ys.append(x)
            return TRUE if not ys else ys[0] if len(ys) == 1 else z3.And(ys)

        def imp(gs, c):
            g = AND(gs)
            if g is FALSE:
                return
            cons.append(c if g is TRUE else z3.Implies(g, c))

        def never(gs):
            g = AND(gs)
            if g is FALSE:
                return
            cons.append(FALSE if g is TRUE else z3.Not(g))
        order = []
        for i in range(N):
            order.append(ULT(tm[i], 2 * N + 2))
        for mine in per:
            for a, b in zip(mine, mine[1:]):
                order.append(ULT(tm[num[id(a)]], tm[num[id(b)]]))
        if final and per[-1]:
            f = num[id(per[-1][0])]
            for t in range(nt - 1):
                if per[t]:
                    order.append(ULT(tm[num[id(per[t][-1])]], tm[f]))
        cons += order

        def same(a, b):
            x, y = evs[a], evs[b]
            if x.obj != y.obj:
                return FALSE
            if isinstance(x.off, int) and isinstance(y.off, int):
                if x.off == y.off:
                    if x.size != y.size:
                        raise sym.Unsupported(f"mixed-size access at {x.where} and {y.where}")
                    return TRUE
                if x.off < y.off + y.size and y.off < x.off + x.size:
                    raise sym.Unsupported(f"overlapping accesses at {x.where} and {y.where}")
                return FALSE
            ox, oy = sym.tobv(x.off, 64), sym.tobv(y.off, 64)
            if x.size != y.size:
                s = z3.Solver()
                s.set('timeout', 3000)
                s.add(ULT(ox, oy + y.size), ULT(oy, ox + x.size))
                if s.check() != z3.unsat:
                    raise sym.Unsupported(f"accesses of different sizes at {x.where} and {y.where}")
                return FALSE
            r = sym.norm(ox == oy)
            if not isinstance(r, z3.ExprRef):
                return TRUE if r else FALSE
            return r
        cache = {}

        def L(a, b):
            k = (a, b) if a < b else (b, a)
            r = cache.get(k)
            if r is None:
                r = cache[k] = same(*k)
            return r
        W = [i for i in range(N) if evs[i].writes]
        R = [i for i in range(N) if evs[i].reads]
        isw = [TRUE if e.guard is None else e.guard for e in evs]
        near = {i: [j for j in W if j != i and L(i, j) is not FALSE] for i in set(W) | set(R)}
        nearr = {i: [j for j in R if j != i and L(i, j) is not FALSE] for i in R}
        rf, src, src_w = {}, {}, {}
        for r in R:
            er = evs[r]
            rv = er.val if er.kind == 'R' else er.old
            known = z3.is_bv_value(rv)
            alts = []
            iv = z3.simplify(self.initial(er.obj, er.off, er.size))

            def fits(v):
                if not z3.is_bv_value(v):
                    return True
                if known:
                    return v.as_long() == rv.as_long()
                return possible[er.tid](rv, v.as_long())
            own = any(evs[w].tid == er.tid and evs[w].idx < er.idx and L(w, r) is TRUE and isw[w] is TRUE for w in W)
            if own or not fits(iv):
                src[r] = FALSE
            else:
                b = src[r] = z3.Bool(f'rf!i!{r}')
                if not (known and z3.is_bv_value(iv)):
                    cons.append(z3.Implies(b, rv == iv))
                alts.append(b)
            src_w[r] = []
            for w in near[r]:
                ew = evs[w]
                if ew.tid == er.tid and ew.idx > er.idx or ew.tid > er.tid and final and ew.tid == nt - 1:
                    continue
                if not fits(ew.val):
                    continue
                b = z3.Bool(f'rf!{w}!{r}')
                rf[w, r] = b
                src_w[r].append(w)
                alts.append(b)
                c = [isw[w], L(w, r), ULT(tm[w], tm[r])]
                if not (known and z3.is_bv_value(ew.val)):
                    c.append(rv == ew.val)
                cons.append(z3.Implies(b, AND(c)))
            if not alts:
                return None
            cons.append(z3.Or(alts) if len(alts) > 1 else alts[0])
            if len(alts) > 1:
                cons.append(z3.AtMost(*alts, 1))
        # most combinations of paths already fail on the values read
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*cons)
        self.light += 1
        if s.check() == z3.unsat:
            return None
        clk = [[bv(f'clk!{i}!{t}') for t in range(nt)] for i in range(N)]
        for i, e in enumerate(evs):
            cons.append(ULE(1, pos[i]))
            cons.append(ULE(pos[i], N))
            cons.append(UGE(clk[i][e.tid], e.idx + 1))
            for t in range(nt):
                cons.append(ULE(clk[i][t], len(per[t])))
        for mine in per:
            for a, b in zip(mine, mine[1:]):
                a, b = num[id(a)], num[id(b)]
                for t in range(nt):
                    cons.append(ULE(clk[a][t], clk[b][t]))
        if final and per[-1]:
            for t in range(nt - 1):
                cons.append(clk[f][t] == len(per[t]))
        hbc = {}

        def hb(a, b):    # lower bound of the least happens-before: only ever used negatively
            k = (a, b)
            r = hbc.get(k)
            if r is None:
                ea, eb = evs[a], evs[b]
                if ea.tid == eb.tid:
                    r = TRUE if ea.idx < eb.idx else FALSE
                elif final and nt - 1 in (ea.tid, eb.tid):
                    r = TRUE if eb.tid == nt - 1 else FALSE
                else:
                    r = UGE(clk[b][ea.tid], ea.idx + 1)
                hbc[k] = r
            return r
        # modification order
        for a in W:
            for b in near[a]:
                if b >= a:
                    continue
                both = [L(a, b), isw[a], isw[b]]
                imp(both, pos[a] != pos[b])
                imp(both + [hb(a, b)], ULT(pos[a], pos[b]))
                imp(both + [hb(b, a)], ULT(pos[b], pos[a]))
        # coherence
        for r in R:
            for w2 in near[r]:
                g = AND([L(w2, r), isw[w2]])
                # from the initial value: no write to it happens before
                never([g, src[r], hb(w2, r)])
                gh, hg = AND([g, hb(w2, r)]), AND([g, hb(r, w2)])
                for w in src_w[r]:
                    if w == w2:
                        continue
                    imp([rf[w, r], gh], ULT(pos[w2], pos[w]))
                    imp([rf[w, r], hg], ULT(pos[w], pos[w2]))
            for w in src_w[r]:
                never([rf[w, r], hb(r, w)])
            # an exchange reads the write just before its own
            if evs[r].kind == 'U':
                for w2 in near[r]:
                    g = AND([L(w2, r), isw[w2], isw[r]])
                    imp([g, src[r]], ULT(pos[r], pos[w2]))
                    for w in src_w[r]:
                        if w != w2:
                            imp([g, rf[w, r]], z3.Or(ULT(pos[w2], pos[w]), ULT(pos[r], pos[w2])))
                        else:
                            imp([g, rf[w, r]], ULT(pos[w], pos[r]))
        for r1 in R:
            for r2 in nearr[r1]:
                h = AND([L(r1, r2), hb(r1, r2)])
                if h is FALSE:
                    continue
                for w2 in src_w[r1]:
                    hw = AND([h, rf[w2, r1]])
                    # the later read does not go back
                    never([hw, src[r2]])
                    for w in src_w[r2]:
                        if w != w2:
                            imp([hw, rf[w, r2]], ULT(pos[w2], pos[w]))
        # synchronisation: what a read that takes effect as an acquire takes over from the release sequence it reads from
        for r in R:
            er = evs[r]
            if er.na:
                continue
            succ_acq = er.ord in ACQ
            fail_acq = (er.ford or er.ord) in ACQ
            if er.kind == 'U' and er.guard is not None:
                acq = z3.Or(z3.And(er.guard, z3.BoolVal(succ_acq)), z3.And(z3.Not(er.guard), z3.BoolVal(fail_acq)))
            else:
                acq = TRUE if succ_acq else FALSE
            acq_at = [(acq, r)]
            for f in per[er.tid][er.idx + 1:]:
                if f.kind == 'F' and f.ord in ACQ:
                    acq_at.append((TRUE, num[id(f)]))
                    break
            for w in src_w[r]:
                if evs[w].na:
                    continue
                for t in range(nt):
                    rel = self.relclk(w, t)
                    for c, at in acq_at:
                        imp([c, rf[w, r]], UGE(clk[at][t], rel))
        # the clocks a write releases: its own if it is a release, those of a release fence before it, and (an exchange) those
        # released by what it read
        for w in W:
            ew = evs[w]
            if ew.na:
                continue
            for t in range(nt):
                rel = self.relclk(w, t)
                if ew.ord in REL:
                    cons.append(UGE(rel, clk[w][t]))
                for f in reversed(per[ew.tid][:ew.idx]):
                    if f.kind == 'F' and f.ord in REL:
                        cons.append(UGE(rel, clk[num[id(f)]][t]))
                        break
                if ew.kind == 'U':
                    for w2 in src_w[w]:
                        if not evs[w2].na:
                            imp([rf[w2, w]], UGE(rel, self.relclk(w2, t)))
        # sequentially consistent operations: one order, which respects each thread's and coherence
        SC = [i for i in range(N) if evs[i].ord == 'sc' and evs[i].kind in 'RWU']
        spos = {i: bv(f'sc!{i}') for i in SC}
        before = lambda a, b: ULT(spos[a], spos[b])
        for a in SC:
            cons.append(ULT(spos[a], N))
            for b in SC:
                if a == b:
                    continue
                x, y = evs[a], evs[b]
                if x.tid == y.tid:
                    if x.idx < y.idx:
                        cons.append(before(a, b))
                    continue
                l = L(a, b)
                if l is FALSE:
                    continue
                if (a, b) in rf:
                    imp([rf[a, b]], before(a, b))
                if x.writes and y.writes:
                    imp([l, isw[a], isw[b], ULT(pos[a], pos[b])], before(a, b))
                if x.reads and y.writes:
                    g = AND([l, isw[b]])
                    imp([g, src[a]], before(a, b))
                    for w in src_w[a]:
                        if w != b:
                            imp([g, rf[w, a], ULT(pos[w], pos[b])], before(a, b))

        def interleaved():
            """restricts to executions in which every read sees the latest write: the ones a replay shows"""
            inter = []
            for a in W:
                for b in near[a]:
                    if b < a:
                        g = AND([L(a, b), isw[a], isw[b]])
                        if g is not FALSE:
                            inter.append(z3.Implies(g, ULT(pos[a], pos[b]) == ULT(tm[a], tm[b])))
            for a in R:
                for b in range(N):
                    if evs[b].tid != evs[a].tid:
                        inter.append(tm[a] != tm[b])
                for b in near[a]:
                    g = AND([L(a, b), isw[b], ULT(tm[b], tm[a])])
                    if g is FALSE:
                        continue
                    inter.append(z3.Implies(g, z3.Not(src[a])))
                    for w in src_w[a]:
                        if w != b:
                            inter.append(z3.Implies(z3.And(g, rf[w, a]), ULT(pos[b], pos[w])))
            return inter
        # violations
        viol = []
        for val, msg, where in asserts:
            if not z3.is_true(val):
                viol.append((z3.Not(val), 'assert', msg, where))
        for a in range(N):
            for b in range(a):
                x, y = evs[a], evs[b]
                if x.tid == y.tid or x.kind == 'F' or y.kind == 'F' or not (x.writes or y.writes) or not (x.na or y.na):
                    continue
                if final and nt - 1 in (x.tid, y.tid):
                    continue
                l = L(a, b)
                if l is FALSE:
                    continue
                g = [l, z3.Not(hb(a, b)), z3.Not(hb(b, a))]
                viol.append((AND(g), 'race', "data race: " + ' / '.join(sorted((self.loc(x), self.loc(y)))), x.where))
        return cons, viol, evs, tm, interleaved

    def relclk(self, w, t):
        return z3.BitVec(f'rel!{w}!{t}', TB)

    def loc(self, e):
        what = {'R': 'read', 'W': 'write', 'U': 'exchange', 'F': 'fence'}[e.kind]
        for p in e.where.split(' <- '):
            m = re.search(r'(\S+\.hh:\d+)', p)
            if m:
                return f"{what} at {m.group(1)}"
        return f"{what} at {e.where.split(' <- ')[0].split()[-1]}"

    def check(self, paths, final, want_witness=False):
        t0 = time.time()
        enc = self.encode(paths, final)
        if enc is None:
            self.solver_s += time.time() - t0
            return None
        cons, viol, evs, tm, inter = enc
        t0 = time.time()

        def ask(extra):
            s = z3.SolverFor('QF_BV')
            left = self.deadline - time.time()
            if left < 1:
                raise solver.Unknown("time budget exhausted")
            s.set('timeout', int(left * 1000))
            s.add(*cons, *extra)
            self.queries += 1
            r = s.check()
            if r == z3.unknown:
                raise solver.Unknown("solver gave no answer within its time limit")
            return s.model() if r == z3.sat else None
        try:
            if viol:
                vs = [z3.Bool(f'viol!{i}') for i in range(len(viol))]
                defs = [z3.Implies(v, x[0]) for v, x in zip(vs, viol)]
                # what is asserted of interleavings only (~) is not asked of weaker executions
                hard = [v for v, x in zip(vs, viol) if not x[2].startswith('~')]
                m = ask(defs + [z3.Or(*hard)]) if hard else None
                if m is not None:
                    m = ask(defs + [z3.Or(*hard)] + inter()) or m
                elif len(hard) < len(vs):
                    m = ask(defs + [z3.Or(*vs)] + inter())
                if m is not None:
                    k = [x for v, x in zip(vs, viol) if z3.is_true(m.eval(v))][0]
                    return ('violation', k[1:], self.schedule(m, evs, tm), self.inputs(m, paths))
            if want_witness:
                m = ask([])
                if m is not None:
                    m = ask(inter()) or m
                    return ('execution', None, self.schedule(m, evs, tm), self.inputs(m, paths))
            return None
        finally:
            self.solver_s += time.time() - t0

    def inputs(self, m, paths):
        seen = {}
        for pc, tr, inp in paths:
            for full, bits, name in inp:
                if not name.startswith(('rd!', 'undef!', 'uninit!')) and full not in seen:
                    v = m.eval(z3.BitVec(full, bits), model_completion=True).as_long()
                    seen[full] = (full.rsplit('.', 1)[0], bits, v)
        return list(seen.values())

    def schedule(self, m, evs, tm):
        """the events in an order that respects program order and reads-from"""
        ev = lambda x: m.eval(x, model_completion=True).as_long()
        order = sorted(range(len(evs)), key=lambda i: (ev(tm[i]), evs[i].tid, evs[i].idx))
        out = []
        for i in order:
            e = evs[i]
            v = ev(e.val if e.kind in 'RW' else e.old) if e.kind in 'RWU' else 0
            out.append((e.tid, e.kind, not e.na and e.kind != 'F', v, self.loc(e)))
        return out


def native_exe(src, tmp, scens):
    base = os.path.splitext(os.path.basename(src))[0]
    tab = os.path.join(tmp, base + '.tab.cpp')
    with open(tab, 'w') as f:
        f.write('struct vf_scen { const char *name; void (*init)(); int n; void (*fn[4])(); void (*final)(); };\nextern "C" {\n')
        for s in scens:
            f.write(f'void vfi_{s["name"]}();\n' + (f'void vff_{s["name"]}();\n' if s['final'] else ''))
            for i in range(s['n']):
                f.write(f'void vft_{s["name"]}_{i}();\n')
        f.write('}\nextern vf_scen vf_scens[];\nvf_scen vf_scens[] = {')
        for s in scens:
            fns = ', '.join(f'vft_{s["name"]}_{i}' for i in range(s['n']))
            f.write(f'{{"{s["name"]}", vfi_{s["name"]}, {s["n"]}, {{{fns}}}, {"vff_" + s["name"] if s["final"] else "nullptr"}}},')
        f.write('{nullptr, nullptr, 0, {}, nullptr}};\n')
    out = os.path.join(tmp, base + '.tsan.exe')
    conc = os.path.join(build.VERIF, 'conc')
    build.sh(['g++'] + build.INC + ['-O1', '-g1', '-w', '-fsanitize=thread', '-pthread', '-include', os.path.join(conc, 'vf_atomic.h'),
             src, os.path.join(conc, 'vf_conc_native.cpp'), tab, '-o', out])
    return out


def replay(exe, name, file, races=True):
    """'' when the run is clean, otherwise what it reported (ThreadSanitizer does not know fences: races=False for code with any)"""
    import subprocess
    env = dict(os.environ) if races else dict(os.environ, TSAN_OPTIONS='report_bugs=0')
    for mode in ([], ['linger']):
        try:
            r = subprocess.run([exe, name, file] + mode, capture_output=True, text=True, timeout=30, errors='replace', env=env)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode not in (0, 2, 77):
            l = [x for x in (r.stdout + r.stderr).split('\n') if re.search('ASSERT-FAILED|WARNING: ThreadSanitizer', x)]
            loc = [x.strip() for x in (r.stdout + r.stderr).split('\n') if re.search(r'#\d.*/util/', x)]
            return f"rc={r.returncode} " + ' | '.join(l[:1] + loc[:2])
    return ''


def write_replay(path, hdr, inputs, sched):
    with open(path, 'w') as f:
        for h in hdr:
            f.write('% ' + h.replace('\n', ' ') + '\n')
        for n, b, v in inputs:
            f.write(f'{n} {v}\n')
        for tid, kind, atomic, v, loc in sched:
            f.write(f'% T{tid} {loc} value {v}\n')
            if atomic:
                f.write(f'turn {tid}\n')


def scenario(src, bc, s, part, parts, exe, tmp, pid, deadline, pw):
    """one process: decides its share of the combinations of paths of one scenario"""
    t0 = time.time()
    name = s['name']
    res = dict(harness=name, file=os.path.basename(src), error=None, violations=[], unconfirmed=[], samples=[])
    val = 0
    try:
        sc = Scenario(bc, name, deadline)
        combos = feasible = 0
        try:
            sc.init()
            th = sc.threads([f'vft_{name}_{i}' for i in range(s['n'])])
            import itertools
            first, give_up = None, deadline
            for k, paths in enumerate(itertools.product(*th)):
                if ((k + 1) * 2654435761 >> 7) % parts != part:
                    continue
                if time.time() > give_up:
                    break
                fin = [None]
                if s['final']:
                    fin = sc.final(list(paths), 'vff_' + name)
                for f in fin:
                    combos += 1
                    ps = list(paths) + ([f] if f is not None else [])
                    r = sc.check(ps, f is not None, want_witness=True)
                    if r is None:
                        continue
                    feasible += 1
                    races = not any(e.kind == 'F' for p in ps for e in p[1])
                    fn = os.path.join(tmp, f'{name}_{part}_{combos}.txt')
                    if r[0] == 'violation':
                        kind, msg, where = r[1]
                        write_replay(fn, [f'property {pid}', f'scenario {os.path.basename(src)} {name}', f'violation {kind}: {msg}', f'at {where}'] + ([] if races else ['fences']), r[3], r[2])
                        nat = replay(exe, name, fn, races)
                        v = dict(kind=kind, msg=msg, where=where, file=fn, inputs=r[3],
                                 native=nat or 'execution allowed by the C++ memory model; this machine does not show it')
                        # prefer one that the machine shows
                        if first is None or nat:
                            first = v
                            res['violations'] = [v]
                        if nat:
                            raise StopIteration
                        give_up = min(give_up, time.time() + 25)
                        continue
                    if val + len(res.get('mismatch', [])) < s['witnesses']:
                        write_replay(fn, [], r[3], r[2])
                        nat = replay(exe, name, fn, races)
                        if nat:
                            res.setdefault('mismatch', []).append(dict(out=nat, file=fn, inputs=r[3]))
                        else:
                            val += 1
                            if len(res['samples']) < 2:
                                res['samples'].append({'harness': name, 'schedule': [f'T{a} {e} = {d}' for a, b, c, d, e in r[2] if c][:30]})
        except StopIteration:
            pass
        except (sym.Unsupported, solver.Unknown, NotImplementedError) as e:
            if not res['violations']:
                res['error'] = f"{type(e).__name__}: {e}" + (f" at {getattr(e, 'where', '')}" or '')
        st = sc.ex.stats
        res.update(paths=combos, forks=st['forks'], merges=0, merged_states=0, steps=st['steps'], asserts=st['asserts'] + combos, sites=sorted(st['assert_sites']),
                   branches=st['branches'], accesses=st['accesses'], reached={}, validated=val, bad=len(res.get('mismatch', [])),
                   queries=sc.queries + sc.light + sc.sol.queries, solver_s=round(sc.solver_s + sc.sol.time, 3), hard=0, slow=[],
                   functions=sorted(sc.ex.funcs_used), feasible=feasible, events=sc.events)
    except Exception as e:
        import traceback
        res['error'] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
    res['wall'] = round(time.time() - t0, 2)
    pw.send(res)
    pw.close()


def scenarios(src, tier='thorough'):
    scens = []
    cur = 'quick'
    for l in open(src).read().split('\n'):
        m = re.match(r'// vf-scenarios: (\w+)', l)
        if m:
            cur = m.group(1)
        m = re.match(r'SCEN(\d?)\((\w+),', l)
        if m and (cur == 'quick' or tier == 'thorough'):
            scens.append(dict(name=m.group(2), n=int(m.group(1) or 2), final=True, witnesses=4 if tier == 'quick' else 20))
    return scens


def run(src, tmp, tier, budget, only, pid, jobs=8):
    """decide all scenarios of one file"""
    import multiprocessing as mp
    scens = scenarios(src, tier)
    allsc = scenarios(src)
    if only:
        scens = [s for s in scens if re.search(only, s['name'])]
    t0 = time.time()
    deadline = t0 + budget
    bc, o = build.build_ir(src, tmp, ['-fno-sanitize=bool'])  # the value an atomic flag is read with is a symbol
    exe = native_exe(src, tmp, allsc)
    ctx = mp.get_context('fork')
    parts = jobs
    queue, procs, got = [(s, k) for k in range(parts) for s in scens], [], []
    while queue or procs:
        while queue and len(procs) < jobs:
            s, k = queue.pop(0)
            pr, pw = ctx.Pipe(False)
            p = ctx.Process(target=scenario, args=(src, bc, dict(s, witnesses=s['witnesses'] // 4 + (k < s['witnesses'] % 4) or 1), k, parts, exe, tmp, pid, deadline, pw))
            p.start()
            pw.close()
            procs.append((p, pr, s))
        time.sleep(0.01)
        for x in list(procs):
            p, pr, s = x
            if pr.poll() or not p.is_alive():
                try:
                    got.append(pr.recv())
                except EOFError:
                    got.append(dict(harness=s['name'], file=os.path.basename(src), error='worker died', violations=[], unconfirmed=[], wall=0))
                p.join()
                procs.remove(x)
        if any(v['native'].startswith('rc=') for r in got for v in r['violations']):
            for p, pr, s in procs:
                p.kill()
                p.join()
            break
    # one result per scenario
    results = []
    for s in scens:
        rs = [r for r in got if r['harness'] == s['name']]
        if not rs:
            continue
        m = dict(rs[0])
        for r in rs[1:]:
            for k, v in r.items():
                if k in ('violations', 'unconfirmed', 'mismatch', 'samples', 'slow'):
                    m[k] = m.get(k, []) + v
                elif k in ('sites', 'functions'):
                    m[k] = sorted(set(m.get(k, [])) | set(v))
                elif k in ('events', 'wall'):
                    m[k] = max(m.get(k, 0), v)
                elif k == 'error':
                    m[k] = m[k] or v
                elif isinstance(v, (int, float)):
                    m[k] = round(m.get(k, 0) + v, 3)
        m['samples'] = m.get('samples', [])[:2]
        # the executions the machine shows first
        m['violations'] = sorted(m['violations'], key=lambda v: not v['native'].startswith('rc='))[:1]
        results.append(m)
    return results
