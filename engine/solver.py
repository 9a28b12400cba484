"""SMT back end: constraint slicing, caching, z3 in-process with a portfolio fallback for hard queries."""
import os
import re
import subprocess
import tempfile
import time
import z3

import abstr
import narrow
import toint

z3.set_param('model.completion', False)
z3.z3.Z3_DEBUG = False


class Unknown(Exception):
    pass


_vars_cache = {}
_keep = []


def vars_of(e):
    """frozenset of uninterpreted constant names occurring in e (memoised over the DAG)."""
    i = e.get_id()
    r = _vars_cache.get(i)
    if r is not None:
        return r
    stack = [e]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _vars_cache:
            stack.pop()
            continue
        n = x.num_args()
        if n == 0:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                _vars_cache[xi] = frozenset((x.decl().name(),))
            else:
                _vars_cache[xi] = frozenset()
            _keep.append(x)
            stack.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _vars_cache]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        for c in ch:
            t = _vars_cache[c.get_id()]
            if not t <= s:
                s = s | t
        _vars_cache[xi] = s
        _keep.append(x)
        stack.pop()
    return _vars_cache[i]


_fp_cache = {}


def has_fp(e):
    """does a floating-point term occur in e (memoised over the DAG)"""
    i = e.get_id()
    r = _fp_cache.get(i)
    if r is not None:
        return r
    stack = [e]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _fp_cache:
            stack.pop()
            continue
        if x.sort().kind() in (z3.Z3_FLOATING_POINT_SORT, z3.Z3_ROUNDING_MODE_SORT):
            _fp_cache[xi] = True
            _keep.append(x)
            stack.pop()
            continue
        ch = x.children()
        todo = [c for c in ch if c.get_id() not in _fp_cache]
        if todo:
            stack.extend(todo)
            continue
        _fp_cache[xi] = any(_fp_cache[c.get_id()] for c in ch)
        _keep.append(x)
        stack.pop()
    return _fp_cache[i]


def consts_of(cons):
    seen, done, stack = {}, set(), list(cons)
    while stack:
        x = stack.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            seen[x.decl().name()] = x
        stack.extend(x.children())
    return list(seen.values())


def holds(model, cons):
    """does the model make every constraint true (variables it does not mention are free: zero)"""
    for c in cons:
        if not z3.is_true(model.eval(c, model_completion=True)):
            return False
    return True


class Solver:
    def __init__(self, deadline=None):
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unk = 0
        self.cache = {}
        self.deadline = deadline
        self.slow = []
        self.hard = 0
        self.badmodels = 0
        self.abstracted = 0
        self.consts = {}   # name -> z3 const
        self.max_ms = 120000

    def slice(self, pc, q):
        need = set()
        for e in q:
            need |= vars_of(e)
        rest = [(c, vars_of(c)) for c in pc]
        out = []
        changed = True
        while changed:
            changed = False
            nr = []
            for c, v in rest:
                if not v.isdisjoint(need):
                    out.append(c)
                    if not v <= need:
                        need |= v
                        changed = True
                else:
                    nr.append((c, v))
            rest = nr
        return out

    def check(self, pc, q, want_model=True):
        """pc: known-satisfiable list of constraints; q: list of extra constraints.
        Returns (True, model-or-None) or (False, None)."""
        q = [x for x in q if not z3.is_true(x)]
        if not q:
            return True, None
        for x in q:
            if z3.is_false(x):
                return False, None
        rel = self.slice(pc, q)
        key = frozenset(x.get_id() for x in rel) | frozenset(-1 - x.get_id() for x in q)
        r = self.cache.get(key)
        if r is not None:
            return r[0], r[1]
        t0 = time.time()
        self.queries += 1
        res, model = self._solve(rel + q)
        if res == 'sat' and model is not None and not holds(model, rel + q):
            self.badmodels += 1
            res = 'unknown'
        dt = time.time() - t0
        self.time += dt
        if dt > 2:
            self.slow.append((round(dt, 2), len(rel)))
        if res == 'sat':
            self.sat += 1
            out = (True, model)
        elif res == 'unsat':
            self.unsat += 1
            out = (False, None)
        else:
            self.unk += 1
            raise Unknown("solver gave no answer within its time limit")
        self.cache[key] = (out[0], out[1], rel, q)
        return out

    def _remaining(self):
        if self.deadline is None:
            return self.max_ms / 1000.0
        return max(1.0, min(self.max_ms / 1000.0, self.deadline - time.time()))

    def _solve(self, cons):
        fp = any(has_fp(c) for c in cons)
        arith = not fp and toint.wanted(cons)
        orig = cons
        if arith:
            r, m = self._ints(cons, 3000)
            if r != 'unknown':
                return r, m
        cons = narrow.narrow(cons)
        if not cons:
            cons = [z3.BoolVal(True)]
        r, m = self._quick(cons, fp, 3000)
        if r != 'unknown':
            return r, m
        if abstr.unsat(cons, fp, lambda c: self._quick(c, any(has_fp(x) for x in c), 2000)[0]):
            self.abstracted += 1
            return 'unsat', None
        self.hard += 1
        if arith:
            r, m = self._ints(orig, 20000)
            if r != 'unknown':
                return r, m
        return self._portfolio(cons, fp)

    def _quick(self, cons, fp, ms):
        """attempt in process"""
        if fp:
            t = z3.Then(z3.Tactic('simplify'), z3.Tactic('propagate-values'), z3.Tactic('fpa2bv'),
                        z3.Tactic('simplify'), z3.Tactic('propagate-values'), z3.Tactic('solve-eqs'),
                        z3.With('simplify', som=False), z3.Tactic('bit-blast'), z3.Tactic('simplify'), z3.Tactic('sat'))
            s = t.solver()
        else:
            s = z3.SolverFor('QF_BV')
        s.set('timeout', ms)
        s.add(*cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.sat:
            return 'sat', s.model()
        return ('unsat' if r == z3.unsat else 'unknown'), None

    def _ints(self, cons, ms):
        r, vals = toint.solve(cons, ms)
        if r != 'sat':
            return r, None
        s = z3.Solver()
        for n, (v, x) in vals.items():
            s.add(x == v)
        s.add(*cons)
        s.set('timeout', 5000)
        if s.check() == z3.sat:
            self.ints = getattr(self, 'ints', 0) + 1
            return 'sat', s.model()
        return 'unknown', None

    def _portfolio(self, cons, fp):
        """Race cvc5, z3 with different seeds and (through DIMACS) kissat on one query."""
        limit = self._remaining()
        s = z3.Solver()
        s.add(*cons)
        smt = re.sub(r'\b(bv[us](?:div|rem|mod))_i\b', r'\1', s.sexpr())
        # declare logic ALL for cvc5
        names = set()
        for c in cons:
            names |= vars_of(c)
        d = tempfile.mkdtemp(prefix='vfq')
        procs = []
        try:
            f1 = os.path.join(d, 'q.smt2')
            decl = [n for n in names]
            with open(f1, 'w') as f:
                f.write('(set-logic ALL)\n(set-option :produce-models true)\n')
                f.write(smt)
                f.write('\n(check-sat)\n')
                for n in decl:
                    f.write(f'(get-value (|{n}|))\n')
            f2 = os.path.join(d, 'z.smt2')
            with open(f2, 'w') as f:
                f.write(smt)
                f.write('\n(check-sat-using (then simplify propagate-values fpa2bv simplify propagate-values solve-eqs bit-blast simplify sat))\n'
                        if fp else '\n(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr reduce-bv-size simplify ackermannize_bv bit-blast simplify aig sat))\n')
                for n in decl:
                    f.write(f'(get-value (|{n}|))\n')
            DEV = subprocess.DEVNULL

            def start(tag, cmd, outn):
                o = open(os.path.join(d, outn), 'w')
                try:
                    procs.append((tag, subprocess.Popen(cmd, stdout=o, stderr=DEV), os.path.join(d, outn)))
                except FileNotFoundError:
                    pass
                o.close()
            start('cvc5', ['cvc5', '--lang=smt2', f1], 'o1')
            start('z3', ['z3-new', f2], 'o2')
            # kissat through bit-blasting
            try:
                kis = self._dimacs(cons, fp, d)
            except Exception:
                kis = None
            if kis:
                start('kissat', ['kissat', '-q', '--relaxed', kis[0]], 'o3')
            t0 = time.time()
            while time.time() - t0 < limit and procs:
                for p in list(procs):
                    tag, pr, out = p
                    if pr.poll() is None:
                        continue
                    procs.remove(p)
                    txt = open(out).read()
                    if tag == 'kissat':
                        if 's UNSATISFIABLE' in txt:
                            return 'unsat', None
                        if 's SATISFIABLE' in txt:
                            m = self._from_dimacs(cons, kis, txt)
                            if m is not None:
                                return 'sat', m
                        continue
                    first = txt.strip().split('\n', 1)[0].strip() if txt.strip() else ''
                    if first == 'unsat':
                        return 'unsat', None
                    if first == 'sat':
                        m = self._from_values(cons, txt, decl)
                        if m is not None:
                            return 'sat', m
                time.sleep(0.02)
            return 'unknown', None
        finally:
            for _, pr, _o in procs:
                try:
                    pr.kill()
                    pr.wait()
                except Exception:
                    pass
            for fn in os.listdir(d):
                os.unlink(os.path.join(d, fn))
            os.rmdir(d)

    def _from_values(self, cons, txt, names):
        """Rebuild a z3 model from (get-value) output by asserting the values."""
        import re
        body = txt.split('\n', 1)[1]
        vals = {}
        for m in re.finditer(r'\(\(\s*\|?([^\s|()]+)\|?\s+(#b[01]+|#x[0-9a-fA-F]+|true|false|\(_ bv\d+ \d+\))\s*\)\)', body):
            vals[m.group(1)] = m.group(2)
        return self._model_from(cons, vals)

    def _model_from(self, cons, vals):
        s = z3.Solver()
        seen = {}

        def collect(e, done):
            stack = [e]
            while stack:
                x = stack.pop()
                if x.get_id() in done:
                    continue
                done.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    seen[x.decl().name()] = x
                stack.extend(x.children())
        done = set()
        for c in cons:
            collect(c, done)
        for n, x in seen.items():
            v = vals.get(n)
            if v is None:
                continue
            if v in ('true', 'false'):
                s.add(x if v == 'true' else z3.Not(x))
                continue
            if v.startswith('#b'):
                iv = int(v[2:], 2)
            elif v.startswith('#x'):
                iv = int(v[2:], 16)
            else:
                iv = int(v.split()[1][2:])
            if z3.is_bv(x):
                s.add(x == z3.BitVecVal(iv, x.size()))
        s.add(*cons)
        s.set('timeout', 20000)
        if s.check() == z3.sat:
            return s.model()
        return None

    def _dimacs(self, cons, fp, d):
        """One file of clauses, with a named Boolean for every bit of every variable (to read the model back)."""
        g = z3.Goal()
        g.add(*cons)
        bits = {}
        for x in consts_of(cons):
            if z3.is_bv(x):
                for i in range(x.size()):
                    n = f'vfbit!{len(bits)}'
                    bits[n] = (x, i)
                    g.add(z3.Bool(n) == (z3.Extract(i, i, x) == 1))
        if fp:
            t = z3.Then('simplify', 'propagate-values', 'fpa2bv', 'simplify', 'bit-blast', 'tseitin-cnf')
        else:
            t = z3.Then('simplify', 'propagate-values', 'bit-blast', 'tseitin-cnf')
        t = z3.TryFor(t, 20000)
        r = t(g)
        if len(r) != 1:
            return None
        txt = r[0].dimacs()
        fn = os.path.join(d, 'q.cnf')
        with open(fn, 'w') as f:
            f.write(txt)
        num = {}
        for m in re.finditer(r'^c (\d+) (vfbit!\d+)\s*$', txt, re.M):
            num[int(m.group(1))] = bits[m.group(2)]
        return fn, num

    def _from_dimacs(self, cons, kis, txt):
        vals = {}
        for line in txt.split('\n'):
            if line.startswith('v '):
                for t in line.split()[1:]:
                    b = kis[1].get(abs(int(t)))
                    if b is not None:
                        x, i = b
                        v = vals.setdefault(x.decl().name(), [x, 0])
                        if int(t) > 0:
                            v[1] |= 1 << i
        s = z3.Solver()
        for x, v in vals.values():
            s.add(x == z3.BitVecVal(v, x.size()))
        s.add(*cons)
        s.set('timeout', 20000)
        if s.check() == z3.sat:
            return s.model()
        return None
